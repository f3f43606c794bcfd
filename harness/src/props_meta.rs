pub fn fixtures() {
    let v: Value = serde_json::from_str(include_str!("../../corpus/fixtures.json")).unwrap();
    let nrm = |t: &str| -> String { t.trim().replace('\t', "").lines().map(|l| l.trim()).collect() };
    let (mut ok, mut badn) = (0, 0);
    for f in v.as_array().unwrap() {
        let c = fixture_cfg(&f["setup"]);
        let o = c.build().parse(f["input"].as_str().unwrap());
        if nrm(&o) == nrm(f["expect"].as_str().unwrap()) {
            ok += 1
        } else {
            badn += 1;
            println!("FAIL {}\n IN {}\n GOT {}\n EXP {}", f["name"], f["input"].as_str().unwrap(), o, f["expect"].as_str().unwrap());
        }
    }
    println!("ok {ok} bad {badn}");
}
pub fn fixture_cfg(s: &Value) -> Cfg {
    Cfg {
        restricted: s["setRestricted"].as_bool().unwrap_or(false),
        lite: s["setLite"].as_bool().unwrap_or(false),
        images: s["setImages"].as_bool().unwrap_or(true),
        rel: s["setLinkRelationShip"].as_str().map(|x| x.to_owned()),
        block_tags: s["setBlockTags"].as_bool().unwrap_or(true),
        xhtml: s["setHtmlType"] == "xhtml",
        ..Cfg::default()
    }
}

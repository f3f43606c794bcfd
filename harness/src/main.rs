
mod mon;
mod fixt;
mod gen;
mod html;
mod links;
mod meta;
mod blocks;
mod model;
mod notes;
mod sizes;
mod attrs;
mod raw;
mod sw;
mod glyph;
mod models;
mod props;
mod run;
mod spans;
mod verb;


fn find(id: &str) -> &'static run::Prop {
    props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no such property: {id}"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(run::check(find(&a[2]))),
        Some("worker") => run::worker(find(&a[2]), &a[3..]),
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            std::process::exit(run::replay(find(v["property"].as_str().unwrap()), &v));
        }
        Some("try") => {
            for s in &a[3..] {
                let mut c = mon::Cfg::default();
                for m in a[2].chars() {
                    match m {
                        'r' => c.restricted = true,
                        'l' => c.lite = true,
                        'x' => c.xhtml = true,
                        'n' => c.block_tags = false,
                        's' => c.sanitize = true,
                        'i' => c.images = false,
                        'w' => c.raw = true,
                        'R' => c.rel = Some("nofollow".into()),
                        _ => {}
                    }
                }
                let s = s.replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r");
                println!("---{:?}\n{}", s, c.build().parse(&s));
            }
        }
        Some("zygote") => meta::zygote(),
        Some("fixtures") => props::fixtures(),
        _ => {
            eprintln!("usage: rtmon check ID | replay FILE | try MODES INPUT...");
            std::process::exit(2);
        }
    }
}

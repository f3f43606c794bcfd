use crate::mon::*;
use crate::gen;
use crate::html::{self, Tok};
use crate::run::Prop;
use serde_json::Value;
use std::collections::HashSet;

// ---------------------------------------------------------------- C01 totality
fn c01_input(r: &mut Rng, thorough: bool) -> String {
    match r.below(14) {
        12 => number_limits(r),
        13 => match r.below(4) {
            0 => {
                // many references to a note, their marks reaching the odd places of Unicode
                let k = if r.one_in(4) { r.range(1000, 2600) } else { r.range(1, 60) };
                let c = *r.pick(&["a", "z", "Z", "9", "é", "힣", "\u{d7fb}", "\u{ff5a}", "𝒳", "†", "_", "\u{301}", "\u{fffd}"]);
                let refs = if r.one_in(2) { "x[#a] ".repeat(k) } else { "[#a]".repeat(k) };
                if r.one_in(2) { format!("{refs}\n\nnote#a. b\n\nnotelist:{c}.") } else { format!("note#a*. b\n\n{refs}\n\nnotelist:{c}^+.") }
            }
            _ => {
                // lists as deep as one likes, in any order of levels
                let k = r.range(1, 30);
                let max = if r.one_in(3) { 60 } else { 20 };
                let mut s = String::from("* a\n");
                let mut d = 1usize;
                for _ in 0..k {
                    d = match r.below(4) {
                        0 => d.saturating_sub(1).max(1),
                        1 => r.range(1, max),
                        _ => d + 1,
                    };
                    let one = r.one_in(2);
                    let m: String = (0..d).map(|_| if one { '*' } else { *r.pick(&['*', '#', ';', ':']) }).collect();
                    s.push_str(&format!("{m} {}\n", *r.pick(&["x", "", "*b*", "é\nc", "\"t\":/u", "(c) d"])));
                }
                s
            }
        },
        0 => {
            // resource stress: one pattern repeated
            let k = r.range(1, 3);
            let mut p = String::new();
            for _ in 0..k {
                p.push_str(*r.pick(gen::TOKENS));
            }
            if r.one_in(2) {
                p.push(*r.pick(&['a', ' ', '\n']));
            }
            let max = if thorough { 6000 } else { 2500 };
            let n = r.range(200, max);
            let mut s = p.repeat(n / p.len() + 1);
            if r.one_in(2) {
                s.push_str(*r.pick(gen::TOKENS));
            }
            s
        }
        1 => {
            // deep nesting
            let k = if r.one_in(4) { r.range(120, 600) } else { r.range(5, 120) };
            let (a, b) = *r.pick(&[("*_", "_*"), ("(", ")"), ("[", "]"), ("{", "}"), ("\"", "\":a"), ("<b>", "</b>"), ("- a := ", ""), ("== ", " =="), ("|", "|"), ("%{a:b}", "%"), ("!a(", ")!"), ("bq.. ", "\n\n"), ("[*", "*]"), ("<div>\n", "</div>\n")]);
            a.repeat(k) + "x" + &b.repeat(k)
        }
        2 => {
            // attribute soup in every position that takes attributes
            let k = r.range(1, 8);
            let at: String = (0..k).map(|_| *r.pick(&["(", ")", "((", "))", "<", ">", "=", "<>", "^", "~", "-", "(c)", "(#i)", "{s:t}", "[fr]", "\\2", "/3", "_", "{", "}", "[", "]", "#", "\\", "/", "é", ":", ";"])).collect();
            let f = *r.pick(&["p@. x", "h1@. x", "bq@. x", "bc@. x", "|@. x|", "table@. s\n|x|", "|^@.\n|x|", "|:@. |@ 5|\n|x|", "*@ x", "#@ x\n#_ y", "*@x*", "\"@x\":y", "!@x!", "- @ a := b", "note#a@. x", "notelist@.", "fn1@. x", "a[@#n]", "|=@. c\n|x|", "@. |x|", "%@x%"]);
            f.replacen('@', &at, 2)
        }
        _ => gen::hostile(r),
    }
}
/// Numbers at the limits of all integer types wherever the syntax takes one.
fn number_limits(r: &mut Rng) -> String {
    const N: &[&str] = &[
        "0", "00", "1", "007", "9", "10", "99", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
        "18446744073709551614", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999", "٣", "१२", "1२",
    ];
    const F: &[&str] = &[
        "#@ x\n# y\n# z\n\n#_ w\n# v", "* a\n*#@ x\n*# y\n\n* b\n*#_ z", "|\\@. x|/@. y|\n|\\@/@. z|", "|:\\@. @|\\@. @|\n|x|", "fn@. x\n\nfn@^. y", "a[@] b[@!] c[@]\n\nfn@. x", "note#@. x\n\na[#@] b[#@!]\n\nnotelist:@.", "&#@; &#x@; @&#@;@", "bc. &#@;\n\n&#x@;",
        "h@. x", "[#a@] @ x @ (@)", "@x@x@ @/@ (@/@)", "\"a@\":http://b.c:@/@?@#@", "!a.png@(@)!", "[@]http://a.b:@/ \"x\":@", "p{w:@}(@#@)[@]. x", "*@ x", "table\\@/@. s\n|x|", "!http://a.b:@/c.png!:http://a.b:@/",
    ];
    let k = r.range(1, 3);
    let mut s = String::new();
    for _ in 0..k {
        let f = *r.pick(F);
        for (i, part) in f.split('@').enumerate() {
            if i > 0 {
                s.push_str(*r.pick(N));
            }
            s.push_str(part);
        }
        s.push_str("\n\n");
    }
    s
}
fn c01_check(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    let out = ctx.parse(cfg, src)?;
    ctx.evals += 1;
    // a blow-up of the output is a denial of service as much as a hang is
    if out.len() > 200_000 + src.len() * 2000 {
        return bad("output size explosion", format!("{} bytes in, {} bytes out", src.len(), out.len()));
    }
    if out.contains('<') {
        ctx.nontrivial(src);
    }
    ctx.feat(if src.len() > 1000 { "large input" } else { "small input" });
    if cfg.restricted { ctx.feat("restricted") }
    if cfg.sanitize { ctx.feat("sanitized") }
    if !cfg.block_tags { ctx.feat("block tags off") }
    if cfg.lite { ctx.feat("lite") }
    ctx.sample(cfg, src, &out);
    Ok(())
}
fn c01(ctx: &mut Ctx, _i: u64) {
    let mut cfg = Cfg::random(&mut ctx.rng);
    cfg.sanitize = ctx.rng.one_in(6);
    if ctx.rng.one_in(6) {
        cfg.uid = (*ctx.rng.pick(&["a-b", "a.b*c", "$1", "(", "é", "0", "a b", "\\"])).to_owned();
    }
    let th = ctx.thorough;
    let src = c01_input(&mut ctx.rng, th);
    ctx.judge(&cfg, &src, c01_check);
}

// ---------------------------------------------------------------- C02 restricted containment
const R_TAGS: &[&str] = &[
    "p", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "pre", "code", "ul", "ol", "li", "dl", "dt", "dd", "table", "caption", "colgroup", "col", "thead", "tbody", "tfoot",
    "tr", "td", "th", "strong", "b", "em", "i", "cite", "del", "ins", "sup", "sub", "span", "a", "img", "br", "abbr", "acronym",
];
fn is_ident(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')
}
fn is_num(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_numeric())
}
fn gen_id(v: &str, uid: &str, prefixes: &[&str]) -> bool {
    prefixes.iter().any(|p| v.strip_prefix(p).and_then(|x| x.strip_prefix(uid)).and_then(|x| x.strip_prefix('-')).map(|x| !x.is_empty() && x.chars().all(|c| c.is_ascii_digit())).unwrap_or(false))
}
/// Presentation generated by the parser itself for alignment and indentation marks.
fn own_style(v: &str) -> bool {
    v.ends_with(';')
        && v[..v.len() - 1].split("; ").all(|d| {
            matches!(d, "vertical-align:top" | "vertical-align:middle" | "vertical-align:bottom" | "text-align:left" | "text-align:center" | "text-align:right" | "text-align:justify")
                || d.strip_prefix("padding-left:").or_else(|| d.strip_prefix("padding-right:")).and_then(|x| x.strip_suffix("em")).map(|x| !x.is_empty() && x.chars().all(|c| c.is_ascii_digit())).unwrap_or(false)
        })
}
fn restricted_attr(tag: &str, k: &str, v: &str, cfg: &Cfg) -> bool {
    let uid = cfg.uid.as_str();
    match k {
        "lang" => is_ident(v),
        "style" => own_style(v),
        "class" => match tag {
            "span" => v == "caps",
            "p" | "sup" => v == "footnote",
            "img" => matches!(v, "align-left" | "align-right" | "align-center") && cfg.align_class(),
            "code" => is_ident(v),
            _ => false,
        },
        "id" => match tag {
            "p" => gen_id(v, uid, &["fn"]),
            "sup" => gen_id(v, uid, &["fnrev", "fn"]),
            "span" => gen_id(v, uid, &["noteref", "note"]),
            _ => false,
        },
        "href" => tag == "a",
        "src" => tag == "img",
        "alt" => tag == "img",
        "align" => tag == "img" && matches!(v, "left" | "right" | "center"),
        "title" => matches!(tag, "a" | "img" | "abbr" | "acronym"),
        "cite" => matches!(tag, "blockquote" | "strong" | "b" | "em" | "i" | "cite" | "del" | "ins" | "sup" | "sub" | "span"),
        "rel" => tag == "a" && cfg.rel.as_deref() == Some(v),
        "start" => tag == "ol" && is_num(v),
        "colspan" | "rowspan" => matches!(tag, "td" | "th") && is_num(v),
        "span" | "width" => matches!(tag, "col" | "colgroup") && is_num(v),
        "summary" => tag == "table",
        _ => false,
    }
}
fn c02_check(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    let out = ctx.parse(cfg, src)?;
    ctx.evals += 1;
    let (toks, _) = html::browser(&out);
    let mut tags = 0;
    for t in &toks {
        match t {
            Tok::Comment(c) => return bad("raw comment in restricted mode", format!("<!--{}--> in {:?}", c, out)),
            Tok::Start(n, a) => {
                tags += 1;
                if !R_TAGS.contains(&n.as_str()) {
                    return bad("foreign tag in restricted mode", format!("<{}> in {:?}", n, out));
                }
                for (k, v) in a {
                    if !restricted_attr(n, k, v, cfg) {
                        return bad("author-controlled attribute in restricted mode", format!("<{} {}={:?}> in {:?}", n, k, v, out));
                    }
                    ctx.feat(&format!("attr {}", k));
                }
                ctx.feat(&format!("tag {}", n));
            }
            _ => {}
        }
    }
    // everything the author typed as markup must be escaped: no unquoted junk either
    if let Err(e) = html::strict(&out) {
        return bad("malformed markup in restricted mode", format!("{} in {:?}", e, out));
    }
    if tags > 1 {
        ctx.nontrivial(&out);
        ctx.sample(cfg, src, &out);
    }
    Ok(())
}
pub const EVIL: &[&str] = &[
    "<script>alert(1)</script>", "<img src=x onerror=alert(1)>", "<b onclick=x>", "\" onmouseover=\"x", "' onmouseover='x", "\" onx=y z=\"", "><svg/onload=x>", "<!-- x -->", "{behavior:url(x)}", "(evilclass)", "(#evilid)",
    "(evil#id)", "{color:red}", "<div class=\"x\">", "</p>", "</code>", "</pre><script>", "&lt;b&gt;", "&#60;b&#62;", "&quot; onx=y", "<a href=\"javascript:x\">", "<style>", "\u{0}", "<iframe>", "\"><b>", "@\"><b>@", "==\"><b>==", "==<b>==", "[@\" onx=y@]",
    "[==\" onx=y ==]", "[*(evil)x*]", "[evil lang onx=y]", "*:onx=y z*", "ABC(\" onx=y)", "ABC(@\"x@)", "!x(\" onx=y \")!", "!x(@\" onx=y @)!", "\"t(\" onx=y \")\":/u", "\"$\":/<b>", "\"$\":http://a.b/<img/src=x>", "!<b>!", "!/\"onx=y!", "\"t\":/\"onx=y", "\"t\":/'onx=y", "- a := <b>",
    "notextile. <b>", "notextile.. <b>", "<notextile><b></notextile>", "pre. <b>", "bc. <b>", "bc[x\" onx=y]. z", "bc(evil). z", "bc(#evil)[ruby]. z", "note#a(evil). <b>", "notelist(evil).", "fn1(evil#id). <b>", "table(evil). \" onx=y\n|(evil). <b>|", "|{a:b}. x|", "|^(evil).\n|a|", "|:(evil). 5|\n|a|",
    "|=(evil). <b>\n|a|", "*(evil) x\n*(evil) y", "#(evil#id) x", ";(evil) a\n:(evil) b", "-(evil) a := b", "p(evil). x", "h1(evil#id){a:b}. x", "bq(evil).:javascript:x y", "bq.:\"onx=y z", "[1](evil)", "[(evil)#n]", "[{a:b}#n]", "%{a:b}x%", "\"(evil#id){a:b}x\":/u", "!(evil#id){a:b}x!", "!x!:/\"onx=y",
];
pub fn evil_doc(r: &mut Rng) -> String {
    let n = r.range(1, 6);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(4) {
            0 => s.push_str(&gen::words(r, 1, 3)),
            1 => {
                let k = r.range(1, 5);
                s.push_str(&gen::soup(r, k))
            }
            _ => s.push_str(*r.pick(EVIL)),
        }
        s.push_str(*r.pick(&[" ", "", "\n", "\n\n", "\n\n"]));
    }
    s
}
/// Whole documents with hostile attributes (@) and content (%) in every place there is.
const ATTACKED: &[&str] = &[
    "a[@#n] b[#n]\n\nnote#n@. %\n\nnotelist@.", "x[#n]%\n\nnote#n*@. %\n\nnotelist@:a^+.", "note#n!@. %\n\nx[@#n!] y[@#n]\n\nnotelist@+.", "note#n@. %\n\nnote#m^@. %\n\na[@#m]\n\nnotelist@:1!+.", "a[@#%]\n\nnotelist.",
    "a[1] b[1!]\n\nfn1@. %\n\nfn2@^. %", "fn1^@. %\n\na[1]", "table@. %\n|=@. %\n|:@. |@ 5|@\\2. |\n|^@.\n@. |_@. %|@. %|\n|-@.\n@. |\\2@. %|/2@. %|\n|~@.\n|%|", "|@. %|\n@. |@. %|", "table@.\n|:@. 5|\n|%|",
    "*@ %\n**@ %\n***@ %\n#@ %", "#@ %\n##@ %\n###@ %\n####@ %\n#_@ %", ";@ %\n:@ %\n;;@ %\n::@ %", "*@ %\n*;@ %\n*:@ %", "-@ % := %\n-@ %\n- % := %\n%=:", "-@. % := \n%\n%=:\n-@ a := b", "p@. *@%* _@%_ -@%- +@%+ ^@%^ ~@%~ %@%% ??@%?? **@%** __@%__",
    "*@a _@b +@c -@d %@e ^@f^% d-+ _*", "[*@%*] {_@%_} (+@%+)", "*:% x* _:/u% x_ ??@:% %??", "\"@%(%)\":/% [\"@%\":/%] \"$\":/%", "\"@!@a.png(%)!(%)\":/u", "!@a.png(%)!:/% !<@/%(%)! !>@a.png! !=@. a!", "[a]/%\n\n\"@%\":a",
    "bq@.:% %\n\nbq@..:% %\n\n%\n\np@. %", "bc@. %\n\nbc@.. %\n\n%\n\npre@. %\n\npre@.. %\n\n%\n\nnotextile@. %\n\nnotextile.. %\n\n%", "h1@. %\n\nh6@.. %\n\n%\n\n###@. %\n\np@. %", "a (\"%) b ['%] c «\"%» d \"'%' \" e {\"%} f '\"%' g",
    " (\"%) ", " [\"%] ", " „\"%“ ", " ''%' \"\"%\" ", "@%@ ==%== <code>%</code> <pre>%</pre> <notextile>%</notextile> <!--%-->", "ABC(%) %(%) (c)% 2x%", "%\n%\n\n %\n\n%", "<%>\n\n<hr %>\n\n<foo %>%</foo>", "|*@ %\n*@ %|-@ % := %|",
];
fn attack(r: &mut Rng) -> String {
    let f = *r.pick(ATTACKED);
    let mut s = String::new();
    let quiet = r.range(2, 6);
    for c in f.chars() {
        match c {
            '@' if r.one_in(quiet) => s.push_str(*r.pick(&["(evil)", "(#evil)", "(evil#id)", "{evil:x}", "[fr]", "[x\" onx=y]", "{evil:x}(evil#id)[fr]", "[fr](evil)", "(evil){evil:x}", "((", "))", "[evil'onx=y]", "(evil\"x)", "{a:'\"b}"])),
            '@' if f.contains("@%@") => s.push('@'),
            '@' => {}
            '%' => match r.below(3) {
                0 => s.push_str(*r.pick(EVIL)),
                1 => s.push_str(*r.pick(&["<b>x</b>", "<script>", "\"onx='y", "'onx=\"y", "a&b<c>d", "<!--x-->", "&lt;b&gt;", "<b x=\"y\">"])),
                _ => s.push_str(&gen::words(r, 1, 2)),
            },
            c => s.push(c),
        }
    }
    s
}
fn c02(ctx: &mut Ctx, _i: u64) {
    let mut cfg = Cfg::random(&mut ctx.rng);
    cfg.restricted = true;
    let src = match ctx.rng.below(11) {
        7 | 8 => {
            let a = attack(&mut ctx.rng);
            if ctx.rng.one_in(3) { format!("{a}\n\n{}", attack(&mut ctx.rng)) } else { a }
        }
        0 => gen::hostile(&mut ctx.rng),
        5 => gen::structured(&mut ctx.rng),
        6 => {
            let l = gen::structured(&mut ctx.rng);
            let e = *ctx.rng.pick(EVIL);
            let marks: Vec<usize> = l.char_indices().map(|x| x.0).collect();
            let p = if marks.is_empty() { 0 } else { *ctx.rng.pick(&marks) };
            format!("{}{}{}", &l[..p], e, &l[p..])
        }
        1 => {
            let k = ctx.rng.range(1, 5);
            let l = gen::lines(&mut ctx.rng, k);
            let e = evil_doc(&mut ctx.rng);
            gen::mutate(&mut ctx.rng, &(l + &e))
        }
        2 => {
            let k = ctx.rng.range(1, 8);
            let l = gen::lines(&mut ctx.rng, k);
            let e = *ctx.rng.pick(EVIL);
            // put an attack right inside of some construct
            let marks: Vec<usize> = l.char_indices().map(|x| x.0).collect();
            let p = if marks.is_empty() { 0 } else { *ctx.rng.pick(&marks) };
            format!("{}{}{}", &l[..p], e, &l[p..])
        }
        _ => evil_doc(&mut ctx.rng),
    };
    ctx.judge(&cfg, &src, c02_check);
}

include!("props_meta.rs");

/// Whether a recorded defect still shows: its input is parsed and the wrong output looked for.
pub fn known_still_fails(f: &Value) -> bool {
    let (cfg, src, bad) = (Cfg::from_json(&f["config"]), f["input"].as_str().unwrap_or("").to_owned(), f["observed"].as_str().unwrap_or("").to_owned());
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(move || cfg.build().parse(&src).contains(&bad)).unwrap_or(false);
        let _ = tx.send(r);
    });
    rx.recv_timeout(std::time::Duration::from_secs(30)).unwrap_or(false)
}

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "Cases: texts mixing fragments of all syntaxes, mutated documentation examples, random Unicode, long repetitions and deep nesting, each with a random configuration on a thread of 2 MB; built with overflow and debug assertions on. Monitored: panics (hook), process deaths, CPU time of each parse (watchdog), output size against input size, valid UTF-8. Non-trivial: distinct input containing markup.",
        quick: 40000,
        thorough: 2000000,
        case: c01,
        need: &["restricted", "sanitized", "lite", "block tags off", "large input"],
        assumptions: &["the time limit per parse is far above what any correct parse of these sizes needs"],
        stack_mb: 2,
    },
    Prop {
        id: "C02",
        rule: "Cases: hostile texts (raw HTML, event handlers, quotes, entities, placeholders in all attribute positions) in restricted mode, other settings random. The output is read by an independent HTML tokenizer; every tag, attribute and value is an event checked against Textile's own vocabulary. Non-trivial: distinct input giving at least one attribute or escaped tag.",
        quick: 60000,
        thorough: 3000000,
        case: c02,
        need: &["documented examples compared"],
        assumptions: &["the tokenizer follows the WHATWG rules for tags and attributes that matter here"],
        stack_mb: 8,
    },
    Prop {
        id: "C03",
        rule: "Cases: one of many schemes (allowed, forbidden, in odd case, with control characters, entities, percent escapes) in every URL position (link, bracketed, self link, alias, image, image link, citation-free), both modes. Each href and src event is checked against the scheme lists; allowed ones must appear. Non-trivial: distinct input with a URL.",
        quick: 60000,
        thorough: 3000000,
        case: crate::meta::c03,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C04",
        rule: "Cases: documents of all syntaxes plus hostile raw HTML. Differential monitor: the sanitized output must equal Ammonia (called by the harness) applied to the unsanitized output; configurators and switching off included. Non-trivial: distinct input in which sanitizing removed or changed something.",
        quick: 25000,
        thorough: 1000000,
        case: crate::meta::c04,
        need: &[],
        assumptions: &["Ammonia itself is trusted"],
        stack_mb: 8,
    },
    Prop {
        id: "C05",
        rule: "Cases: documents containing forged placeholders built from the very uid, and the same document under several uids. Monitored: leftovers of placeholders in the output; outputs equal after renaming ids. Non-trivial: distinct input with ids or forged placeholders.",
        quick: 25000,
        thorough: 1000000,
        case: crate::meta::c05,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C06",
        rule: "Cases: histories of setter and parse calls on one parser, and on up to eight threads, each result compared with a new parser in a new process with the same final settings. Non-trivial: distinct (settings, text) pair compared.",
        quick: 1000,
        thorough: 60000,
        case: crate::meta::c06,
        need: &[],
        assumptions: &["the process used as reference is started from the same binary"],
        stack_mb: 8,
    },
    Prop {
        id: "C07",
        rule: "Cases: documents of unique marked words amid correct and broken markup of all kinds. Conservation monitor: the sequence of marked words in the text of the output must be the one typed. Non-trivial: distinct input with more than one construct.",
        quick: 40000,
        thorough: 2000000,
        case: crate::meta::c07,
        need: &[],
        assumptions: &["words placed where Textile does not display text (attributes, comments, unlisted notes) are not marked"],
        stack_mb: 8,
    },
    Prop {
        id: "C08",
        rule: "Cases: verbatim content (random characters, markup, entities, tags) in inline code, code and preformatted blocks, notextile, in many surroundings and both modes. The element's text as a browser reads it must be the content typed. Non-trivial: distinct content.",
        quick: 80000,
        thorough: 4000000,
        case: crate::verb::c08,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C09",
        rule: "Cases: sequences of blocks with all attributes in all orders. A case is one generated document with a generated configuration; non-trivial: the document is distinct and its output (or what the monitor looks at) is not just its own text in a paragraph. The expected output is built together with the document (a reference model of the documented syntax written independently of the parser), never by the parser. The projections of the documented examples (corpus/fixtures.json) are compared as well. ",
        quick: 25000,
        thorough: 1500000,
        case: crate::models::c09,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C10",
        rule: "Cases: bulleted, numbered, mixed and definition lists of random shapes, starts, continuations, attributes and inline content. The expected output is built together with the document (a reference model of the documented syntax written independently of the parser), never by the parser. The projections of the documented examples (corpus/fixtures.json) are compared as well. Non-trivial: distinct document.",
        quick: 22000,
        thorough: 1500000,
        case: crate::models::c10,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C11",
        rule: "Cases: tables of random shapes with captions, column groups, sections, spans and attributes on all levels. The expected output is built together with the document (a reference model of the documented syntax written independently of the parser), never by the parser. The projections of the documented examples (corpus/fixtures.json) are compared as well. Non-trivial: distinct document.",
        quick: 25000,
        thorough: 1500000,
        case: crate::models::c11,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C12",
        rule: "Cases: phrase modifiers nested up to the supported depth, in brackets, next to punctuation and other markup, with attributes; stray marks; hostile mixtures whose elements must nest properly. The expected output is built together with the document (a reference model of the documented syntax written independently of the parser), never by the parser. The projections of the documented examples (corpus/fixtures.json) are compared as well. Non-trivial: distinct document.",
        quick: 60000,
        thorough: 3000000,
        case: crate::spans::c12,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C13",
        rule: "Cases: links of all kinds with generated URLs, texts, titles and attributes in all surroundings, aliases before and after use. The expected output is built together with the document (a reference model of the documented syntax written independently of the parser), never by the parser. URL meaning is compared through the url crate. The projections of the documented examples (corpus/fixtures.json) are compared as well. Non-trivial: distinct document.",
        quick: 60000,
        thorough: 3000000,
        case: crate::links::c13,
        need: &[],
        assumptions: &["the url crate is trusted to tell whether two URLs mean the same"],
        stack_mb: 8,
    },
    Prop {
        id: "C14",
        rule: "Cases: images with every combination of alignment, attributes, alternative text, link, surrounding and setting. The expected output is built together with the document (a reference model of the documented syntax written independently of the parser), never by the parser. The projections of the documented examples (corpus/fixtures.json) are compared as well. Non-trivial: distinct document.",
        quick: 80000,
        thorough: 4000000,
        case: crate::links::c14,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C15",
        rule: "Cases: documents of footnote references and footnotes in random order and number. The expected output is built together with the document (a reference model of the documented syntax written independently of the parser), never by the parser. All generated ids and links are recorded as events: unique ids, no dangling links. Non-trivial: distinct document.",
        quick: 22000,
        thorough: 1500000,
        case: crate::notes::c15,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C16",
        rule: "Cases: documents of note definitions, references and lists with all options. The expected output is built together with the document (a reference model of the documented syntax written independently of the parser), never by the parser. Ids are matched up to renaming, and must be unique. Non-trivial: distinct document.",
        quick: 18000,
        thorough: 1200000,
        case: crate::notes::c16,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C17",
        rule: "Cases: sentences of words, numbers, quotes, glyph sources, capitals and acronyms in all surroundings. The expected output is built together with the document (a reference model of the documented syntax written independently of the parser), never by the parser. The projections of the documented examples (corpus/fixtures.json) are compared as well. Non-trivial: distinct document.",
        quick: 50000,
        thorough: 3000000,
        case: crate::glyph::c17,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C18",
        rule: "Cases: documents of all syntaxes with random settings, parsed in both flavours. Differential monitor: the tokenized outputs must be equal after mapping the documented differences. Non-trivial: the two outputs differ in one of the documented ways.",
        quick: 18000,
        thorough: 1000000,
        case: crate::meta::c18,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C19",
        rule: "Cases: pairs of runs differing in one switch, and models of what each switch promises. The expected output is built together with the document (a reference model of the documented syntax written independently of the parser), never by the parser. Non-trivial: distinct document.",
        quick: 50000,
        thorough: 3000000,
        case: crate::sw::c19,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C20",
        rule: "Cases: one document in several spellings of line endings and blank lines. Differential monitor: equal outputs. Non-trivial: distinct document with markup.",
        quick: 18000,
        thorough: 1000000,
        case: crate::meta::c20,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C21",
        rule: "Cases: pairs of texts joined by a blank line. Differential monitor: the output is the concatenation of both. Non-trivial: both texts contain markup and are distinct.",
        quick: 20000,
        thorough: 1200000,
        case: crate::meta::c21,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C22",
        rule: "Cases: documents of images against a loopback server with generated behaviour (formats, sizes, truncation, errors, refused connections, garbage). Every request (server log) and every connect/getaddrinfo call (interposed) is an event; the output is compared with the one expected. Non-trivial: distinct document with an image.",
        quick: 3000,
        thorough: 100000,
        case: crate::sizes::c22,
        need: &[],
        assumptions: &["the sandbox's loopback network works"],
        stack_mb: 8,
    },
    Prop {
        id: "C23",
        rule: "Cases: raw inline and block-level tags, comments and dividers with generated attributes, mixed with Textile. The expected output is built together with the document (a reference model of the documented syntax written independently of the parser), never by the parser. The projections of the documented examples (corpus/fixtures.json) are compared as well. Non-trivial: distinct document.",
        quick: 45000,
        thorough: 2500000,
        case: crate::raw::c23,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
    Prop {
        id: "C24",
        rule: "Cases: values full of special characters in every attribute position, both modes. The attribute as a browser reads it must be the value given. Non-trivial: distinct value and position.",
        quick: 80000,
        thorough: 4000000,
        case: crate::attrs::c24,
        need: &[],
        assumptions: &[],
        stack_mb: 8,
    },
];

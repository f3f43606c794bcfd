//! C17: typographic replacements.
use crate::gen;
use crate::html::{self, Tok};
use crate::model::*;
use crate::models::*;
use crate::mon::*;

fn uword(g: &mut G) -> String {
    let mut w = g.word();
    match g.r.below(8) {
        0 => w.push_str(*g.r.pick(&["é", "ß", "ж", "9", "12", "ñ", "日本", "e\u{301}", "से", "ो"])),
        1 => w = format!("{}{}", g.r.pick(&["É", "Ж", "A", "Mc"]), w),
        _ => {}
    }
    w
}
fn number(g: &mut G) -> String {
    match g.r.below(4) {
        0 => format!("{}.{}", g.r.below(100), g.r.range(1, 99)),
        1 => format!("{}", g.r.below(10)),
        _ => format!("{}", g.r.below(10000)),
    }
}
fn ucaps(g: &mut G) -> String {
    let n = g.r.range(3, 7);
    let al: Vec<char> = match g.r.below(4) {
        0 => "ÀÉÑÖÜŠ".chars().collect(),
        1 => "БДЖИЯ".chars().collect(),
        _ => "ABCDEFGHIJKLMNOPQRSTUVWYZ".chars().collect(),
    };
    (0..n).map(|_| *g.r.pick(&al)).collect()
}
fn caps_h(c: &str) -> String {
    format!("<span class=\"caps\">{c}</span>")
}
/// Text starting and ending with a word, without any quotes
fn calm(g: &mut G) -> Piece {
    let a = uword(g);
    if g.r.one_in(2) {
        return pc(&a, &a);
    }
    let b = uword(g);
    let (s, h): (String, String) = match g.r.below(9) {
        0 => ("--".into(), "\u{2014}".into()),
        1 => (" -- ".into(), " \u{2014} ".into()),
        2 => (" - ".into(), " \u{2013} ".into()),
        3 => ("... ".into(), "\u{2026} ".into()),
        4 => ("...".into(), "\u{2026}".into()),
        5 => (" & ".into(), " &amp; ".into()),
        6 => ("'".into(), "\u{2019}".into()),
        7 => {
            let c = ucaps(g);
            (format!(" {c} "), format!(" {} ", caps_h(&c)))
        }
        _ => (" ".into(), " ".into()),
    };
    pc(format!("{a}{s}{b}"), format!("{a}{h}{b}"))
}
/// One unit of text; may begin or end with a replaced sequence
fn unit(g: &mut G) -> Piece {
    let k = g.r.below(31);
    g.f(&format!("unit {k:02}"));
    let tag = if g.cfg.xhtml { "acronym" } else { "abbr" };
    match k {
        0..=2 => calm(g),
        3 | 4 => {
            // double quotes
            let a = calm(g);
            let p = *g.r.pick(&["", "", ".", ",", "!", "?", "..."]);
            let ph = if p == "..." { "\u{2026}" } else { p };
            let q = *g.r.pick(&["", "", ".", ",", ";", "?", ")"]);
            let o = if q == ")" { "(" } else { "" };
            pc(format!("{o}\"{}{p}\"{q}", a.s), format!("{o}\u{201c}{}{ph}\u{201d}{q}", a.h))
        }
        5 => {
            let a = calm(g);
            let p = *g.r.pick(&["", "", ".", ",", "!"]);
            let q = *g.r.pick(&["", "", ".", ",", ";", ")", "]"]);
            let o = match q {
                ")" => "(",
                "]" => "[",
                _ => "",
            };
            let (o, q) = if a.s.contains('\'') { ("", "") } else { (o, q) };
            pc(format!("{o}'{}{p}'{q}", a.s), format!("{o}\u{2018}{}{p}\u{2019}{q}", a.h))
        }
        6 => {
            // nested quotes
            let (a, b) = (calm(g), g.words(1, 2));
            match g.r.below(4) {
                0 => pc(format!("\"'{}' {b}\"", a.s), format!("\u{201c}\u{2018}{}\u{2019} {b}\u{201d}", a.h)),
                1 => pc(format!("\"{b} '{}'\"", a.s), format!("\u{201c}{b} \u{2018}{}\u{2019}\u{201d}", a.h)),
                2 => pc(format!("'\"{}\" {b}'", a.s), format!("\u{2018}\u{201c}{}\u{201d} {b}\u{2019}", a.h)),
                _ => pc(format!("'{b} \"{}\"'", a.s), format!("\u{2018}{b} \u{201c}{}\u{201d}\u{2019}", a.h)),
            }
        }
        7 => {
            // possessives
            let a = uword(g);
            let (s, h) = match g.r.below(4) {
                0 => ("s' x".to_owned(), "s\u{2019} x".to_owned()),
                1 => ("'s".into(), "\u{2019}s".into()),
                2 => ("'ll've".into(), "\u{2019}ll\u{2019}ve".into()),
                _ => ("'n'b".into(), "\u{2019}n\u{2019}b".into()),
            };
            pc(format!("{a}{s}"), format!("{a}{h}"))
        }
        8 => {
            let (a, y, b) = (g.word(), g.r.range(10, 99), g.word());
            let s = *g.r.pick(&["", "s", ",", "."]);
            pc(format!("{a} '{y}{s} {b}"), format!("{a} \u{2019}{y}{s} {b}"))
        }
        9 => {
            let a = g.word();
            match g.r.below(4) {
                0 => pc(format!("...{a}"), format!("\u{2026}{a}")),
                1 => pc(format!("{a}...."), format!("{a}\u{2026}.")),
                2 => pc(format!("{a} ..."), format!("{a} \u{2026}")),
                _ => pc(format!("({a}...)"), format!("({a}\u{2026})")),
            }
        }
        10 => {
            let n = g.r.range(2, 4);
            let (sp, x) = (*g.r.pick(&["", " "]), *g.r.pick(&["x", "x", "X"]));
            let v: Vec<String> = (0..n).map(|_| number(g)).collect();
            pc(v.join(&format!("{sp}{x}{sp}")), v.join(&format!("{sp}\u{d7}{sp}")))
        }
        11 => {
            // inches, feet, brackets, signs and currencies
            let (a, b) = (g.r.below(500), g.r.below(500));
            match g.r.below(6) {
                0 => pc(format!("{a}\"x{b}\""), format!("{a}\u{201d}\u{d7}{b}\u{201d}")),
                1 => pc(format!("{a}' x {b}'"), format!("{a}\u{2019} \u{d7} {b}\u{2019}")),
                2 => pc(format!("{a} x ${b}"), format!("{a} \u{d7} ${b}")),
                3 => pc(format!("{a} x -{b}"), format!("{a} \u{d7} -{b}")),
                4 => pc(format!("({a})x({b})"), format!("({a})\u{d7}({b})")),
                _ => pc(format!("{a} x .{b}"), format!("{a} \u{d7} .{b}")),
            }
        }
        12 | 13 => {
            let (a, b) = *g.r.pick(&[("(c)", "©"), ("(C)", "©"), ("(r)", "®"), ("(R)", "®"), ("(tm)", "™"), ("(TM)", "™"), ("(Tm)", "™"), ("[c]", "©"), ("[R]", "®"), ("[TM]", "™")]);
            let w = g.word();
            match g.r.below(4) {
                0 => pc(format!("{w}{a}"), format!("{w}{b}")),
                1 => pc(format!("{w} {a}"), format!("{w} {b}")),
                2 => pc(format!("{w}{a}{}", ","), format!("{w}{b},")),
                _ => pc(format!("{w} {a} 2012"), format!("{w} {b} 2012")),
            }
        }
        14..=16 => {
            let (a, b) = *g.r.pick(&[
                ("(1/2)", "½"), ("(1/4)", "¼"), ("(3/4)", "¾"), ("[1/2]", "½"), ("[1/4]", "¼"), ("[3/4]", "¾"), ("(o)", "°"), ("[o]", "°"), ("(+/-)", "±"), ("[+/-]", "±"),
            ]);
            let n = g.r.below(50);
            match g.r.below(4) {
                0 => pc(format!("{n}{a}"), format!("{n}{b}")),
                1 => pc(format!("{n} {a} {n}"), format!("{n} {b} {n}")),
                2 => pc(format!("{n}{a}C"), format!("{n}{b}C")),
                _ => {
                    let w = g.word();
                    pc(format!("{w} {a}{n}"), format!("{w} {b}{n}"))
                }
            }
        }
        17 | 18 => {
            let c = ucaps(g);
            match g.r.below(6) {
                0 => pc(format!("({c})"), format!("({})", caps_h(&c))),
                1 => pc(format!("{c}'s"), format!("{}\u{2019}s", caps_h(&c))),
                2 => pc(format!("{c},"), format!("{},", caps_h(&c))),
                3 => pc(format!("\"{c}\""), format!("\u{201c}{}\u{201d}", caps_h(&c))),
                4 => {
                    let d = ucaps(g);
                    pc(format!("{c}-{d}"), format!("{}-{}", caps_h(&c), caps_h(&d)))
                }
                _ => pc(&c, caps_h(&c)),
            }
        }
        19 | 20 => {
            // acronyms
            let c = ucaps(g);
            let t = {
                let a = g.words(1, 3);
                match g.r.below(4) {
                    0 => format!("{} {a}", ucaps(g)),
                    1 => format!("{a}, {a}; 1/2"),
                    2 => format!("{a} & {a}"),
                    _ => a,
                }
            };
            let end = *g.r.pick(&["", ",", ".", ";"]);
            pc(format!("{c}({t}){end}"), format!("<{tag} title=\"{}\">{}</{tag}>{end}", esc(&t), caps_h(&c)))
        }
        21 => {
            let mut c = ucaps(g);
            c.push(*g.r.pick(&['2', '7', '0']));
            let t = g.words(1, 3);
            pc(format!("{c}({t})"), format!("<{tag} title=\"{t}\">{c}</{tag}>"))
        }
        22 => {
            let (a, b) = (uword(g), uword(g));
            match g.r.below(3) {
                0 => pc(format!("{a}&{b}"), format!("{a}&amp;{b}")),
                1 => pc(format!("{a} &{b}"), format!("{a} &amp;{b}")),
                _ => pc(format!("{a} < {b} > {a}"), format!("{a} &lt; {b} &gt; {a}")),
            }
        }
        23 if !g.cfg.restricted => {
            // the author's own entities
            let e = *g.r.pick(&["&copy;", "&#8217;", "&#x2014;", "&eacute;", "&amp;", "&lt;", "&gt;", "&nbsp;", "&quot;", "&AMP;", "&#38;", "&frac12;", "&sup2;", "&there4;", "&Eacute;", "&#X2014;", "&#00169;"]);
            let a = g.word();
            pc(format!("{a}{e} {a}"), format!("{a}{e} {a}"))
        }
        24 => {
            // emphasized quotes and quoted emphasis
            let a = g.words(1, 2);
            match g.r.below(4) {
                0 => pc(format!("*\"{a}\"*"), format!("<strong>\u{201c}{a}\u{201d}</strong>")),
                1 => pc(format!("\"_{a}_\""), format!("\u{201c}<em>{a}</em>\u{201d}")),
                2 => pc(format!("'*{a}*'"), format!("\u{2018}<strong>{a}</strong>\u{2019}")),
                _ => {
                    let c = ucaps(g);
                    pc(format!("_{c}... {a}_"), format!("<em>{}\u{2026} {a}</em>", caps_h(&c)))
                }
            }
        }
        25 if !g.cfg.lite => {
            let c = triggers(g, 4);
            g.f("triggers in code");
            pc(format!("@{c}@"), format!("<code>{}</code>", esc(&c)))
        }
        26 if !g.cfg.restricted => {
            let v = triggers(g, 4).replace('"', "'");
            let (w, c) = (g.word(), calm(g));
            let w = if w.len() > 1 { w } else { "zz".into() };
            g.f("triggers in attributes of raw tags");
            pc(format!("<span title=\"{}\">{w} {}</span>", v.replace('&', "&amp;").replace('<', "&lt;"), c.s), format!("<span title=\"{}\">{w} {}</span>", esc(&v), c.h))
        }
        27 => {
            let u = *g.r.pick(&["/a--b", "/ABC/DEF", "/a...b", "/3x4", "/x?a=ABC&b=3x4", "http://example.com/a--b/ABCD", "/it's"]);
            let (t, mut a) = (g.words(1, 2), g.rel());
            a.push(("href".into(), crate::links::href_of(u)));
            g.f("triggers in URLs");
            if u == "/it's" {
                return pc(&t, &t);
            }
            pc(format!("\"{t}\":{u}"), format!("<a{}>{t}</a>", at(&a)))
        }
        28 if g.cfg.images => {
            let u = *g.r.pick(&["/a--b.png", "/ABC.png", "/3x4.png", "/a...b.png"]);
            g.f("triggers in sources of images");
            pc(format!("!{u}!"), format!("<img src=\"{u}\" alt=\"\">"))
        }
        29 => {
            // a lone double quote within brackets or other quotes
            let (o, c) = *g.r.pick(&[("(", ")"), ("[", "]"), ("{", "}"), ("\u{ab}", "\u{bb}"), ("\u{bb}", "\u{ab}"), ("\u{2018}", "\u{2019}"), ("\u{201e}", "\u{201c}"), ("\u{2039}", "\u{203a}"), ("'", "'")]);
            let (ho, hc) = if o == "'" { ("\u{2018}", "\u{2019}") } else { (o, c) };
            let (w, v) = (g.word(), g.word());
            let a = calm(g);
            g.f("lone quote within quotes");
            match g.r.below(3) {
                0 => pc(format!("{w} {o}\"{c} {v}"), format!("{w} {ho}&quot;{hc} {v}")),
                _ if o == "'" && a.s.contains('\'') => pc(&w, &w),
                _ => pc(format!("{w} {o}\"{}{c} {v}", a.s), format!("{w} {ho}\u{201c}{}{hc} {v}", a.h)),
            }
        }
        _ => quiet(g),
    }
}
/// Sequences which would get replaced anywhere else
fn triggers(g: &mut G, n: usize) -> String {
    let mut v = vec![];
    for _ in 0..g.r.range(1, n) {
        v.push(*g.r.pick(&["it's", "a--b", "a - b", "x...", "(c)", "[TM]", "(1/2)", "3x4", "ABC", "ABC(def)", "(o)", "(+/-)", "\"q\"", "'q'", "a & b", "3 x 4", "R2D2", "'88"]));
    }
    v.join(" ")
}
/// Text which must stay as it is
fn quiet(g: &mut G) -> Piece {
    g.f("ordinary text");
    let n = g.r.range(1, 5);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let w = uword(g);
        v.push(match g.r.below(14) {
            0 => format!("{w}.."),
            1 => format!("{w}-{}", g.word()),
            2 => format!("({w}),"),
            3 => (*g.r.pick(&["1/2", "3/4", "1/4", "a/b", "10%", "$5", "#", "c", "tm", "r", "o", "+/-", "(p)", "(1/3)", "(ok)", "(cc)", "(tms)", "(oo)", "1+1=2", "a=b", "50°", "½", "©", "—", "…", "’", "“ab”", "×", "±", "é—è", "1,000.50", "v1.2", "10:30", "e.g.", "x.y.z", "2012-10-11"])).to_owned(),
            4 => (*g.r.pick(&["AB", "A", "Ab", "AbC", "ABc", "McABc", "iOS", "ÀÉ", "R2D2", "AB12", "A1B", "Y9", "a1B2C3", "PDFs"])).replace("PDFs", "Pdfs"),
            5 => format!("{w}!?"),
            9 => format!("{} x {}", g.word(), g.word()),
            10 => format!("{} x {},", g.word(), g.r.below(99)),
            11 => format!("{} x {},", g.r.below(99), g.word()),
            6 => format!("{w}: {w};"),
            7 => format!("{w}_{}", g.word()),
            8 => format!("{}", g.r.below(100000)),
            _ => w,
        });
    }
    let s = v.join(" ");
    pc(s.clone(), s)
}
/// Which text nodes hold displayed text
fn free_text(out: &str) -> Vec<String> {
    let (t, _) = html::browser(out);
    let mut depth = 0;
    let mut v = vec![];
    for x in t {
        match x {
            Tok::Start(n, _) if n == "code" || n == "pre" => depth += 1,
            Tok::End(n) if n == "code" || n == "pre" => depth -= 1,
            Tok::Text(s) if depth == 0 => v.push(s),
            _ => {}
        }
    }
    v
}
fn wild_check(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    let out = ctx.parse(cfg, src)?;
    ctx.evals += 1;
    ctx.nontrivial(src);
    ctx.feat("hostile text");
    for s in free_text(&out) {
        for bad_seq in ["'", "...", "(1/2)", "[1/4]", "(3/4)", "(o)", "[o]", "(+/-)"] {
            if s.contains(bad_seq) {
                return bad("sequence left as typed", format!("{bad_seq} in {s:?} of {out:?}"));
            }
        }
    }
    Ok(())
}
pub fn c17(ctx: &mut Ctx, _i: u64) {
    let cfg = model_cfg(ctx);
    if ctx.rng.one_in(5) {
        // anything at all, as long as it has no place for verbatim text
        let mut cfg = cfg;
        cfg.restricted = false;
        let k = ctx.rng.range(1, 12);
        let mut s = gen::soup(&mut ctx.rng, k);
        for t in ["@", "==", "notextile", "pre", "code", "bc", "<", ">", "&", "cite"] {
            s = s.replace(t, " ");
        }
        ctx.judge(&cfg, &s, wild_check);
        return;
    }
    run_model(ctx, &cfg, "wrong typography", |g| {
        let n = g.r.range(1, 5);
        let mut v: Vec<Piece> = vec![];
        for _ in 0..n {
            let m = g.r.range(1, 5);
            let us: Vec<Piece> = (0..m).map(|_| unit(g)).collect();
            let mut p = pc(us.iter().map(|x| x.s.as_str()).collect::<Vec<_>>().join(" "), us.iter().map(|x| x.h.as_str()).collect::<Vec<_>>().join(" "));
            let lone = us.iter().any(|u| u.s.matches('"').count() % 2 == 1);
            if lone && us.len() > 1 {
                // what belongs together is a matter of taste, unless it is the only thing there
                p = us.iter().find(|u| u.s.matches('"').count() % 2 == 1).map(|u| pc(&u.s, &u.h)).unwrap();
            }
            if p.s.contains(" x -") && p.s.matches('-').count() > 1 {
                // that is a deletion
                p = quiet(g);
            }
            // symbols and brackets at the very start of a block could be something else
            if !p.s.starts_with(|c: char| c.is_alphabetic()) || g.r.one_in(2) {
                let w = g.word();
                p = pc(format!("{w} {}", p.s), format!("{w} {}", p.h));
            }
            if g.r.one_in(2) {
                let w = g.word();
                p = pc(format!("{} {w}", p.s), format!("{} {w}", p.h));
            }
            v.push(place(g, p));
        }
        crate::blocks::join(&v)
    });
}
fn place(g: &mut G, p: Piece) -> Piece {
    let w = g.words(1, 2);
    let k = g.r.below(if g.cfg.lite { 4 } else { 10 });
    g.f(&format!("place {k}"));
    let (s, h) = (&p.s, &p.h);
    let br = g.br();
    match k {
        0 => pc(format!("{w}\n{s}"), format!("<p>{w}{br}{h}</p>")),
        1 => pc(format!("bq. {s}"), format!("<blockquote><p>{h}</p></blockquote>")),
        2 => pc(format!("p. {s}"), format!("<p>{h}</p>")),
        4 => pc(format!("h3. {s}"), format!("<h3>{h}</h3>")),
        5 => pc(format!("* {w}\n* {s}"), format!("<ul><li>{w}</li><li>{h}</li></ul>")),
        6 => pc(format!("# {s}\n# {w}"), format!("<ol><li>{h}</li><li>{w}</li></ol>")),
        7 => pc(format!("|{w}|{s}|"), format!("<table><tr><td>{w}</td><td>{h}</td></tr></table>")),
        8 => pc(format!("- {w} := {s}"), format!("<dl><dt>{w}</dt><dd>{h}</dd></dl>")),
        _ => pc(s.clone(), format!("<p>{h}</p>")),
    }
}

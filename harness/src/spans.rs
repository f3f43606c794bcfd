//! C12: phrase modifiers.
use crate::gen;
use crate::html;
use crate::model::*;
use crate::models::*;
use crate::mon::*;

/// `used` are marks around; `taken` those used anywhere in this text: a mark occurring elsewhere in the
/// same text might as well end the phrase
fn deep(g: &mut G, left: usize, used: &mut Vec<char>, taken: &mut Vec<char>) -> Piece {
    let free: Vec<usize> = (0..TAGS.len()).filter(|t| !taken.contains(&TAGS[*t].0.chars().next().unwrap())).collect();
    if free.is_empty() {
        let w = g.word();
        return pc(&w, &w);
    }
    let t = *g.r.pick(&free);
    let (m, tag) = TAGS[t];
    let m0 = m.chars().next().unwrap();
    used.push(m0);
    taken.push(m0);
    let (mut s, mut a) = if g.r.one_in(3) { g.cls(6, &[], &[]) } else { (String::new(), vec![]) };
    if taken.iter().any(|c| s.contains(*c)) {
        // the value of an attribute would end the phrase
        s.clear();
        a.clear();
    }
    let mut cite = String::new();
    if g.r.one_in(10) {
        let c = match g.r.below(6) {
            4 => format!("/{}?b=1#{}", gen::ident(&mut g.r), g.r.below(99)),
            5 => format!("#{}", gen::ident(&mut g.r)),
            3 => format!("/{}/", gen::ident(&mut g.r)),
            0 => format!("http://example.com/{}", gen::ident(&mut g.r)),
            1 => format!("/{}", gen::ident(&mut g.r)),
            _ => format!("{}.html", gen::ident(&mut g.r)),
        };
        if !taken.iter().any(|u| c.contains(*u)) {
            cite = format!(":{c} ");
            a.push(("cite".into(), c));
            g.f("span citation");
        }
    }
    g.f(&format!("span {m}"));
    g.f(&format!("span {m} at depth {}", used.len()));
    let (w1, w2) = (g.words(1, 2), g.words(1, 2));
    let c = if left <= 1 {
        match g.r.below(4) {
            0 => { let w = g.word(); pc(&w, &w) }
            1 => pc("7", "7"),
            2 => { let w = format!("{w1}, {w2}"); pc(&w, &w) }
            _ => pc(&w1, &w1),
        }
    } else {
        let i = deep(g, left - 1, used, taken);
        match g.r.below(5) {
            0 if s.is_empty() && cite.is_empty() => { g.f("directly nested"); i }
            1 => pc(format!("{w1} {}", i.s), format!("{w1} {}", i.h)),
            2 if s.is_empty() && cite.is_empty() => pc(format!("{} {w1}", i.s), format!("{} {w1}", i.h)),
            3 => pc(format!("{w1} ({}) {w2}", i.s), format!("{w1} ({}) {w2}", i.h)),
            _ => {
                // siblings
                let j = if left > 2 && g.r.one_in(2) {
                    g.f("siblings");
                    let k = g.r.range(1, left - 1);
                    let mut u: Vec<char> = used[..used.iter().position(|x| *x == m0).unwrap() + 1].to_vec();
                    deep(g, k, &mut u, taken)
                } else {
                    pc(&w2, &w2)
                };
                pc(format!("{w1} {} {}", i.s, j.s), format!("{w1} {} {}", i.h, j.h))
            }
        }
    };
    while used.last() != Some(&m0) {
        used.pop();
    }
    used.pop();
    let end = if g.r.one_in(6) && m != "??" && c.s.ends_with(char::is_alphabetic) { *g.r.pick(&[".", ",", ";", "?", "!", ":", "?!", ";,", ":;", "!!", "»", "›", "«"]) } else { "" };
    pc(format!("{m}{s}{cite}{}{end}{m}", c.s), format!("<{tag}{}>{}{end}</{tag}>", at(&a), c.h))
}
/// What may stand around a phrase
fn around(g: &mut G, p: Piece) -> Piece {
    let (w, v) = (g.word(), g.word());
    let k = g.r.below(29);
    g.f(&format!("surroundings {k}"));
    let f = |a: &str, ha: &str, b: &str, hb: &str| pc(format!("{a}{}{b}", p.s), format!("{ha}{}{hb}", p.h));
    match k {
        0 => f("(", "(", ")", ")"),
        1 if !p.s.contains('[') && !p.s.starts_with(char::is_alphabetic) => f(&format!("{w}["), &w, &format!("]{v}"), &v),
        2 if !p.s.contains('[') && !p.s.starts_with(char::is_alphabetic) => f("[", "", "]", ""),
        3 => f("", "", ".", "."),
        4 => f("", "", ",", ","),
        5 => f("", "", ";", ";"),
        6 => f("", "", ":", ":"),
        7 if !p.s.ends_with('?') => f("", "", "?", "?"),
        8 if !p.s.contains('!') => f("", "", "!", "!"),
        9 if !p.s.contains('"') => f("\"", "\u{201c}", "\"", "\u{201d}"),
        10 => f("'", "\u{2018}", "'", "\u{2019}"),
        11 => f(&format!("({w} "), &format!("({w} "), &format!(" {v})"), &format!(" {v})")),
        12 => f("«", "«", "»", "»"),
        13 if !g.cfg.restricted => f("<b>", "<b>", "</b>", "</b>"),
        14 => f(&format!("{w},"), &format!("{w},"), "", ""),
        15 => f(&format!("{w}:"), &format!("{w}:"), "", ""),
        16 if g.cfg.images => f("", "", &format!(" !/{w}.png!").replace(|c: char| !c.is_ascii(), "a"), &format!(" <img alt=\"\" src=\"/{w}.png\">").replace(|c: char| !c.is_ascii(), "a")),
        17 => f("", "", &format!(" \"{w}\":/u"), &format!(" <a href=\"/u\"{}>{w}</a>", at(&g.rel()))),
        18 => f("", "", ".)", ".)"),
        19 | 20 => {
            // any of these quotation marks, whichever side they are used on
            let (a, b) = *g.r.pick(&[("»", "«"), ("‹", "›"), ("›", "‹"), ("„", "“"), ("“", "”"), ("”", "”"), ("‚", "‘"), ("‘", "’"), ("’", "’")]);
            f(a, a, b, b)
        }
        23 if !p.s.contains(['{', '}']) && !p.s.starts_with(char::is_alphabetic) => f("{", "{", "}", "}"),
        24 if !p.s.contains(['{', '}']) && !p.s.starts_with(char::is_alphabetic) => f(&format!("{w}{{"), &format!("{w}{{"), &format!("}}{v}"), &format!("}}{v}")),
        25 if !p.s.contains(['{', '[', '}', ']']) && !p.s.starts_with(char::is_alphabetic) => {
            if g.r.one_in(2) { f("{", "{", "]", "]") } else { f("[", "[", "}", "}") }
        }
        22 if !p.s.contains(['[', ']']) => f("[", "[", &format!(" {v}]"), &format!(" {v}]")),
        21 => {
            let a = *g.r.pick(&[";", ".", "?"]);
            f(&format!("{w}{a}"), &format!("{w}{a}"), "", "")
        }
        _ => p,
    }
}
pub fn literal(g: &mut G) -> Piece {
    let (w, v, u) = (g.word(), g.word(), g.word());
    let m = g.r.pick(&["*", "_", "+", "^", "~", "%", "**", "__", "??", "-"]).to_string();
    let k = g.r.below(9);
    g.f(&format!("literal {k}"));
    let s = match k {
        0 => format!("{w}{m}{v}{m}{u}"),
        1 => format!("{w}{m}{v}"),
        2 if m != "-" && m != "**" && m != "__" => format!("{w} {m} {v}"),
        3 => format!("{w}{m} {v}"),
        4 => format!("{w} {m}{v}"),
        5 => format!("{w}{m}{v}{m} {u}"),
        6 => format!("{w} {m}{v}{m}{u}"),
        7 => format!("{w} {m}{v} {m}{u}"),
        _ => format!("{w}{m} {v}{m} {u}"),
    };
    // "--" or " - " would be dashes
    pc(&s, esc(&s))
}
fn balanced_check(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    let out = ctx.parse(cfg, src)?;
    ctx.evals += 1;
    let toks = match html::strict(&out) {
        Ok(t) => t,
        Err(e) => return bad("malformed output", format!("{e} in {out:?}")),
    };
    if let Err(e) = html::balanced(&toks) {
        return bad("elements not properly nested", format!("{e} in {out:?}"));
    }
    let n = toks.iter().filter(|t| matches!(t, html::Tok::Start(n, _) if TAGS.iter().any(|x| x.1 == n))).count();
    if n > 0 {
        ctx.nontrivial(src);
        ctx.feat("nesting checked");
    }
    if n > 3 {
        ctx.feat("nesting of many checked");
    }
    Ok(())
}
const SOUP: &[&str] = &[
    "*", "*", "_", "_", "**", "__", "-", "+", "%", "~", "^", "??", "a", "b c", " ", " ", " ", "(c)", "{d:e}", "[f]", "[", "]", "{", "}", "(", ")", ".", ",", "\"", "'", "\":/u ", "@x@", "!i!", "|", "\n", "\n\n", "* ", "# ", ":x ", ":", "h1. ", "p. ", "bq. ", "[1]", "é", "<", ">", "&",
];
pub fn c12(ctx: &mut Ctx, i: u64) {
    let mut cfg = model_cfg(ctx);
    match i % 8 {
        0 => {
            // soup: proper nesting whatever is written
            cfg.restricted = true;
            cfg.block_tags = !ctx.rng.one_in(6);
            let n = ctx.rng.range(2, 30);
            let mut s: String = (0..n).map(|_| *ctx.rng.pick(SOUP)).collect();
            if ctx.rng.one_in(2) {
                // phrases which overlap in any way
                ctx.feat("overlapping phrases");
                let n = ctx.rng.range(2, 8);
                let mut w: Vec<String> = (0..n).map(|i| format!("w{i}")).collect();
                for _ in 0..ctx.rng.range(2, 5) {
                    let m = *ctx.rng.pick(&["*", "_", "**", "__", "-", "+", "%", "~", "^", "??"]);
                    let (a, b) = (ctx.rng.below(n), ctx.rng.below(n));
                    w[a.min(b)].insert_str(0, m);
                    w[a.max(b)].push_str(m);
                }
                s = w.join(" ");
            }
            ctx.judge(&cfg, &s, balanced_check);
        }
        1 => {
            let mut g = G::new(ctx.rng.clone(), &cfg);
            let p = literal(&mut g);
            ctx.rng = g.r.clone();
            run_model(ctx, &cfg, "marks which do not enclose a phrase taken for a phrase", |_| pc(&p.s, format!("<p>{}</p>", p.h)));
        }
        _ => {
            run_model(ctx, &cfg, "wrong phrase elements", |g| {
                let n = g.r.range(1, 3);
                let mut t = Piece::default();
                // either different marks everywhere or simple phrases only
                let simple = g.r.one_in(4);
                let mut taken = vec![];
                for k in 0..n {
                    if simple {
                        taken.clear();
                    }
                    if k > 0 {
                        let w = g.words(1, 2);
                        t.s += &format!(" {w} ");
                        t.h += &format!(" {w} ");
                    }
                    let d = if simple { 1 } else { g.r.range(1, 5) };
                    let p = deep(g, d, &mut vec![], &mut taken);
                    let p = around(g, p);
                    t.s += &p.s;
                    t.h += &p.h;
                }
                let w = g.words(1, 2);
                let kk = g.r.below(if g.cfg.lite { 4 } else { 11 });
                g.f(&format!("block {kk}"));
                let (s, h) = (&t.s, &t.h);
                match kk {
                    0 => pc(format!("p. {s}"), format!("<p>{h}</p>")),
                    1 => pc(format!("{w} {s} {w}"), format!("<p>{w} {h} {w}</p>")),
                    2 => pc(format!("{w}\n{s}\n{w}"), format!("<p>{w}{0}{h}{0}{w}</p>", g.br())),
                    3 => pc(format!("bq. {s}"), format!("<blockquote><p>{h}</p></blockquote>")),
                    4 => pc(format!("h3. {s}"), format!("<h3>{h}</h3>")),
                    5 => pc(format!("* {s}\n* {w}"), format!("<ul><li>{h}</li><li>{w}</li></ul>")),
                    6 => pc(format!("|{w} {s}|{w}|"), format!("<table><tr><td>{w} {h}</td><td>{w}</td></tr></table>")),
                    7 => pc(format!("- {w} := {w} {s}"), format!("<dl><dt>{w}</dt><dd>{w} {h}</dd></dl>")),
                    8 => pc(format!("; {w} {s}\n: {s}"), format!("<dl><dt>{w} {h}</dt><dd>{h}</dd></dl>")),
                    9 => pc(format!("|_. {s}|"), format!("<table><tr><th>{h}</th></tr></table>")),
                    _ => pc(format!("# {w}\n## {s}"), format!("<ol><li>{w}<ol><li>{h}</li></ol></li></ol>")),
                }
            });
        }
    }
}

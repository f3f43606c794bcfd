//! C23: raw HTML outside of restricted mode.
use crate::gen;
use crate::html;
use crate::model::*;
use crate::models::*;
use crate::mon::*;

struct R {
    p: Piece,
    /// tags and comments which must appear literally, in this order
    lit: Vec<String>,
}
fn r(p: Piece) -> R {
    R { p, lit: vec![] }
}
const BLOCKS: &[&str] = &[
    "div", "section", "article", "aside", "header", "footer", "main", "nav", "address", "details", "figure", "form", "fieldset", "menu", "DIV", "h1", "h4", "p", "blockquote", "hgroup", "figcaption", "template", "h2", "h3", "h5", "h6", "Footer", "dl",
];
const PHRASES: &[&str] = &["b", "em", "i", "strong", "span", "sup", "sub", "small", "kbd", "q", "abbr", "mark", "var", "samp", "cite", "ins", "del", "dfn", "time", "label", "SPAN"];

/// A start tag with quoted attributes; returns (as typed, name)
fn tag(g: &mut G, names: &[&str]) -> (String, String) {
    let n = (*g.r.pick(names)).to_owned();
    let k = if g.r.one_in(3) { 0 } else { g.r.range(1, 3) };
    let mut s = format!("<{n}");
    let mut used = vec![];
    for _ in 0..k {
        let a = *g.r.pick(&["class", "id", "title", "data-x", "lang", "style", "dir", "aria-label", "onclick"]);
        if used.contains(&a) {
            continue;
        }
        used.push(a);
        let v = match g.r.below(12) {
            0 => "it's".to_owned(),
            1 => "a -- b".into(),
            2 => "(c) (tm) [R]".into(),
            3 => "3x4 x 5".into(),
            4 => "and so on...".into(),
            5 => "R&amp;D &lt; &#39;x&#39;".into(),
            6 => "'q' 'r'".into(),
            7 => "color:red; width:5%".into(),
            8 => "http://a.b/c?d=e&amp;f=g#h".into(),
            9 => "a - b (1/2)".into(),
            10 => "ABC DEF(ghi)".into(),
            _ => g.words(1, 3),
        };
        g.f(&format!("attribute value {}", v.chars().filter(|c| !c.is_alphanumeric()).take(6).collect::<String>()));
        if !v.contains('\'') && g.r.one_in(4) {
            s += &format!(" {a}='{v}'");
            g.f("single quotes");
        } else {
            s += &format!(" {a}=\"{v}\"");
        }
    }
    s.push('>');
    (s, n)
}
fn phrase(g: &mut G, depth: usize) -> R {
    if g.r.one_in(7) {
        return comment(g);
    }
    if g.r.one_in(8) {
        let t = g.r.pick(&["<input type=\"text\" value=\"a -- b\">", "<wbr>", "<img src=\"/a--b.png\" alt=\"it's\">", "<input disabled=\"\" name='x'>", "<img src='x.png' alt='\"a\"' />", "<embed src=\"/x\">"]).to_string();
        g.f("void element");
        return R { p: pc(&t, &t), lit: vec![t] };
    }
    let (t, n) = tag(g, PHRASES);
    let mut c = if depth > 0 && g.r.one_in(3) {
        g.f("nested elements");
        phrase(g, depth - 1)
    } else if g.r.one_in(3) {
        g.f("markup within an element");
        let (w, v) = (g.words(1, 2), g.words(1, 2));
        let x = g.text(2, O { raw: false, deco: false, ..RICH });
        r(pc(format!("{w} {} {v}", x.s), format!("{w} {} {v}", x.h)))
    } else {
        let w = g.words(1, 2);
        r(pc(&w, &w))
    };
    c.lit.insert(0, t.clone());
    c.lit.push(format!("</{n}>"));
    c.p = pc(format!("{t}{}</{n}>", c.p.s), format!("{t}{}</{n}>", c.p.h));
    c
}
fn comment(g: &mut G) -> R {
    g.f("comment");
    let k = g.r.range(1, 5);
    let mut s = String::new();
    for _ in 0..k {
        s.push_str(*g.r.pick(&["foo ", "*b* ", "\"t\":/u ", "!i.png! ", "- x ", "(c) ", "it's ", "ABC ", "<b>", "</p>", "[1] ", "h1. x ", "... ", "& ", "\"q\" ", "% ", "3x4 "]));
    }
    let s = format!("<!--{s}-->");
    R { p: pc(&s, &s), lit: vec![s] }
}
fn inline(g: &mut G) -> R {
    let mut out = R { p: Piece::default(), lit: vec![] };
    let n = g.r.range(1, 4);
    let starts = g.r.one_in(3);
    for i in 0..n {
        let (w, v) = (g.words(1, 2), g.words(1, 2));
        let x = phrase(g, 2);
        out.lit.extend(x.lit);
        let (s, h) = (&x.p.s, &x.p.h);
        let (a, b) = match g.r.below(9) {
            0 if !s.starts_with("<!") => {
                g.f("element within a word");
                (format!("{w}{s}{v}"), format!("{w}{h}{v}"))
            }
            1 => (format!("{w} ({s}) {v}"), format!("{w} ({h}) {v}")),
            2 if !s.contains('*') => {
                g.f("element within a phrase");
                (format!("{w} *{w} {s} {v}* {v}"), format!("{w} <strong>{w} {h} {v}</strong> {v}"))
            }
            3 => (format!("{w} {s}, {v}"), format!("{w} {h}, {v}")),
            4 if starts && i == 0 => (format!("{s} {v}"), format!("{h} {v}")),
            _ => (format!("{w} {s} {v}"), format!("{w} {h} {v}")),
        };
        if i > 0 {
            out.p.s.push(' ');
            out.p.h.push(' ');
        }
        out.p.s += &a;
        out.p.h += &b;
    }
    out
}
fn block(g: &mut G) -> R {
    let k = g.r.below(17);
    g.f(&format!("block kind {k:02}"));
    match k {
        0..=2 => {
            // one block-level element
            let (t, n) = tag(g, BLOCKS);
            let (w, v) = (g.words(1, 2), g.words(1, 2));
            let x = g.text(2, O { raw: false, deco: false, ..RICH });
            let one = n == "p" || (n.starts_with('h') && n.len() == 2);
            let nl = *g.r.pick(if one { &["", "", " ", " "] } else { &["", " ", "\n", "\n\t"] });
            let y = if !one && g.r.one_in(3) { format!("\n{v}") } else { String::new() };
            R { p: pc(format!("{t}{nl}{w} {} {v}{y}{nl}</{n}>", x.s), format!("{t}{nl}{w} {} {v}{y}{nl}</{n}>", x.h)), lit: vec![t, format!("</{n}>")] }
        }
        3 | 4 => {
            // blocks within an element
            let (t, n) = tag(g, &BLOCKS[..14]);
            let m = g.r.range(1, 3);
            let v: Vec<Piece> = (0..m)
                .map(|_| match g.r.below(4) {
                    0 if !g.cfg.lite => g.heading(RICH),
                    1 => g.bq(RICH),
                    _ => g.para(RICH),
                })
                .collect();
            let d = crate::blocks::join(&v);
            g.f("blocks within an element");
            R { p: pc(format!("{t}\n\n{}\n\n</{n}>", d.s), format!("{t}\n\n{}\n\n</{n}>", d.h)), lit: vec![t, format!("</{n}>")] }
        }
        5 => comment(g),
        15 => {
            // a block-level element along with text is no paragraph either
            let (t, n) = tag(g, BLOCKS);
            let (w, v, u) = (g.words(1, 2), g.words(1, 2), g.words(1, 2));
            g.f("element and text");
            let (a, b) = *g.r.pick(&[(false, true), (true, false), (true, true)]);
            let s = format!("{}{t}{w}</{n}>{}", if a { format!("{v} ") } else { String::new() }, if b { format!(" {u}") } else { String::new() });
            R { p: pc(&s, &s), lit: vec![t, format!("</{n}>")] }
        }
        6 => {
            let t = g.r.pick(&["<hr>", "<hr />", "<hr class=\"a -- b\">", "<img src=\"/a.png\" alt=\"it's\">", "<hr><hr>", "<img src=\"/a--b.png\">", "<hr/>", "<HR>"]).to_string();
            g.f("divider");
            let e = t.clone();
            R { p: pc(&t, e), lit: vec![t] }
        }
        7 => {
            let (t, n) = tag(g, &["ul", "ol"]);
            let x = g.text(2, O { raw: false, deco: false, ..RICH });
            let w = g.word();
            g.f("raw list");
            R { p: pc(format!("{t}\n<li>{w} {} {w}</li>\n<li>{w}</li>\n</{n}>", x.s), format!("{t}\n<li>{w} {} {w}</li>\n<li>{w}</li>\n</{n}>", x.h)), lit: vec![t, "<li>".into(), "</li>".into(), format!("</{n}>")] }
        }
        8 => {
            let (t, n) = tag(g, &["table"]);
            let x = g.text(2, O { raw: false, deco: false, ..RICH });
            let w = g.word();
            g.f("raw table");
            R { p: pc(format!("{t}<tr><td>{w} {} {w}</td></tr></{n}>", x.s), format!("{t}<tr><td>{w} {} {w}</td></tr></{n}>", x.h)), lit: vec![t, format!("</{n}>")] }
        }
        9 => {
            // a phrase element alone is a paragraph
            let x = loop {
                let x = phrase(g, 1);
                if !x.p.s.starts_with("<!") && !x.p.s.starts_with("<img") {
                    break x;
                }
            };
            g.f("lone phrase element");
            R { p: pc(&x.p.s, format!("<p>{}</p>", x.p.h)), lit: x.lit }
        }
        _ => {
            let x = inline(g);
            let (s, h) = (&x.p.s, &x.p.h);
            let w = g.words(1, 2);
            let br = g.br();
            let p = match g.r.below(if g.cfg.lite { 4 } else { 9 }) {
                0 => pc(format!("{w}\n{s}"), format!("<p>{w}{br}{h}</p>")),
                1 => pc(format!("bq. {s}"), format!("<blockquote><p>{h}</p></blockquote>")),
                2 => pc(format!("p. {s} {w}"), format!("<p>{h} {w}</p>")),
                4 => pc(format!("h3. {s}"), format!("<h3>{h}</h3>")),
                5 => pc(format!("* {w}\n* {w} {s}"), format!("<ul><li>{w}</li><li>{w} {h}</li></ul>")),
                6 => pc(format!("|{w}|{w} {s}|"), format!("<table><tr><td>{w}</td><td>{w} {h}</td></tr></table>")),
                7 => pc(format!("# {w} {s}"), format!("<ol><li>{w} {h}</li></ol>")),
                _ => pc(format!("{w} {s}"), format!("<p>{w} {h}</p>")),
            };
            R { p, lit: x.lit }
        }
    }
}
/// Tags whose attributes need no quotes, or none at all: compared literally only
fn loose(ctx: &mut Ctx, cfg: &Cfg) {
    let mut g = G::new(ctx.rng.clone(), cfg);
    let t = (*g.r.pick(&["<input disabled>", "<input type=checkbox checked>", "<a name=x>", "<td width=5>", "<b class = \"x\">", "<video controls src=x.mp4>", "<br class=\"x\">", "<o:p>", "<?php echo 1 ?>", "<B CLASS=\"X\">", "<b >", "<svg viewBox=\"0 0 1 1\">"])).to_owned();
    let (w, v) = (g.words(1, 2), g.words(1, 2));
    ctx.rng = g.r.clone();
    let src = format!("{w} {t}{v}");
    ctx.feat("tags with unquoted attributes");
    let out = match ctx.parse(cfg, &src) {
        Ok(o) => o,
        Err(b) => return ctx.report(cfg, &src, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(&src);
    if !out.contains(&t) {
        ctx.report(cfg, &src, bad("raw tag changed", format!("no {t:?} in {out:?}")));
    }
}
pub fn c23(ctx: &mut Ctx, _i: u64) {
    let mut cfg = model_cfg(ctx);
    cfg.restricted = false;
    cfg.raw = false;
    if ctx.rng.one_in(20) {
        return loose(ctx, &cfg);
    }
    let mut g = G::new(ctx.rng.clone(), &cfg);
    let n = g.r.range(1, 4);
    let v: Vec<R> = (0..n).map(|_| block(&mut g)).collect();
    let d = crate::blocks::join(&v.iter().map(|x| x.p.clone()).collect::<Vec<_>>());
    ctx.rng = g.r.clone();
    for f in &g.feats {
        ctx.feat(f);
    }
    let out = match ctx.parse(&cfg, &d.s) {
        Ok(o) => o,
        Err(b) => return ctx.report(&cfg, &d.s, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(&d.s);
    if let Some(x) = html::diff(&d.h, &out) {
        return ctx.report(&cfg, &d.s, bad("raw HTML changed", x));
    }
    let mut rest = out.as_str();
    for l in v.iter().flat_map(|x| &x.lit) {
        ctx.evals += 1;
        match rest.find(l.as_str()) {
            Some(i) => rest = &rest[i + l.len()..],
            None => return ctx.report(&cfg, &d.s, bad("raw tag changed", format!("no {l:?} in {out:?}"))),
        }
    }
    ctx.sample(&cfg, &d.s, &out);
    let _ = gen::word;
}

//! C19: mode switches.
use crate::gen;
use crate::html::{self, Tok};
use crate::model::*;
use crate::models::*;
use crate::mon::*;

const BLOCK_ELEMENTS: &[&str] = &[
    "p", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "pre", "ul", "ol", "li", "dl", "dt", "dd", "table", "caption", "colgroup", "col", "thead", "tbody", "tfoot", "tr", "td", "th", "img", "a",
];
fn same(ctx: &mut Ctx, a: &Cfg, b: &Cfg, src: &str, what: &str) -> Result<(), Bad> {
    let x = ctx.parse(a, src)?;
    let y = ctx.parse(b, src)?;
    ctx.evals += 1;
    if x != y {
        return bad(what, format!("{x:?} became {y:?}"));
    }
    Ok(())
}
/// Text in which nothing but what is named gets interpreted
fn expect(ctx: &mut Ctx, cfg: &Cfg, p: &Piece, what: &str) {
    let out = match ctx.parse(cfg, &p.s) {
        Ok(o) => o,
        Err(b) => return ctx.report(cfg, &p.s, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(&p.s);
    if let Some(d) = html::diff(&p.h, &out) {
        ctx.report(cfg, &p.s, bad(what, d));
    } else {
        ctx.sample(cfg, &p.s, &out);
    }
}
/// A word or an emphasized phrase
fn bit(g: &mut G) -> Piece {
    match g.r.below(4) {
        0 => g.span(O { spans: 1, ..PLAIN }),
        1 => {
            let w = g.words(1, 2);
            pc(&w, &w)
        }
        2 => {
            let (a, b) = (g.word(), g.word());
            pc(format!("{a} -- {b}"), format!("{a} \u{2014} {b}"))
        }
        _ => {
            let w = g.word();
            pc(&w, &w)
        }
    }
}
/// What lite mode does not know
fn foreign(g: &mut G) -> Piece {
    let (w, v) = (g.words(1, 2), g.words(1, 2));
    let b = bit(g);
    let br = g.br();
    let k = g.r.below(13);
    g.f(&format!("not in lite mode {k}"));
    match k {
        0 => {
            let m = *g.r.pick(&["h1", "h2", "h3", "h4", "h5", "h6", "pre", "notextile", "fn1", "###", "table", "dl", "div"]);
            let a = *g.r.pick(&["", "(x)", "(x#y)", "{a:b}", "[fr]", "(x){a:b}", "="]);
            let d = if m == "h1" || g.r.one_in(2) { "." } else { ".." };
            pc(format!("{m}{a}{d} {}", b.s), format!("<p>{m}{a}{d} {}</p>", b.h))
        }
        1 => pc(format!("* {w}\n* {v}"), format!("<p>* {w}{br}* {v}</p>")),
        2 => pc(format!("# {w}\n## {v}\n# {w}"), format!("<p># {w}{br}## {v}{br}# {w}</p>")),
        3 => pc(format!("|{w}|{v}|\n|{v}|{w}|"), format!("<p>|{w}|{v}|\n|{v}|{w}|</p>")),
        4 => pc(format!("- {w} := {v}"), format!("<p>- {w} := {v}</p>")),
        5 => pc(format!("; {w}\n: {v}"), format!("<p>; {w}{br}: {v}</p>")),
        6 => pc(format!("{w} @{v}@ {w}"), format!("<p>{w} @{v}@ {w}</p>")),
        7 => pc(format!("{w} == *{v}* == {w}"), format!("<p>{w} == <strong>{v}</strong> == {w}</p>")),
        8 => pc(format!("@*{v}*@ {w}"), format!("<p>@*{v}*@ {w}</p>")),
        9 => pc(format!("|_. {w}| {} |", b.s), format!("<p>|_. {w}| {} |</p>", b.h)),
        10 if !b.s.contains(['*', '%', '+', '~', '^', '_']) => pc(format!("*(x) {}\n** {w}", b.s), format!("<p>*(x) {}{br}** {w}</p>", b.h)),
        11 => pc(format!("table(x). {w}\n|{v}|"), format!("<p>table(x). {w}\n|{v}|</p>")),
        _ => pc(format!("#5 {w}\n#_ {v}"), format!("<p>#5 {w}{br}#_ {v}</p>")),
    }
}
fn strip_rel(t: &[Tok], rel: &str) -> (Vec<Tok>, Vec<String>) {
    let mut wrong = vec![];
    let v = t
        .iter()
        .map(|x| match x {
            Tok::Start(n, a) => {
                let mut b = a.clone();
                if n == "a" {
                    let href = a.iter().find(|k| k.0 == "href").map(|k| k.1.clone()).unwrap_or_default();
                    let own = ["#fnxyz-", "#fnrevxyz-", "#notexyz-", "#noterefxyz-"].iter().any(|p| href.starts_with(p)) || href == "#note";
                    let has: Vec<&String> = a.iter().filter(|k| k.0 == "rel").map(|k| &k.1).collect();
                    if !own && has != vec![rel] {
                        wrong.push(format!("link to {href:?} has rel {has:?}"));
                    }
                    if own && !has.is_empty() {
                        wrong.push(format!("generated link {href:?} has rel"));
                    }
                    b.retain(|k| k.0 != "rel");
                }
                Tok::Start(n.clone(), b)
            }
            y => y.clone(),
        })
        .collect();
    (v, wrong)
}
/// Whether anything could be a block (or code) lite mode does not support, erring on the safe side
fn uses_blocks(src: &str) -> bool {
    src.contains(['@', '|', '<', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}'])
        || src.contains("==")
        || src.contains(":=")
        || src.split(|c: char| c.is_whitespace()).any(|t| {
            let t = t.trim_start_matches(['p', '(', ')', '.']);
            (t.starts_with(['*', '#', ';', ':', '-']) && (t.chars().all(|c| "*#;:-_".contains(c)) || t.contains(['(', ')', '{', '[', '.', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '_'])))
                || t.starts_with('h')
                || t.starts_with("fn")
                || t.starts_with("re")
                || t.starts_with("notextile")
                || t.starts_with("table")
        })
}
/// Quotes within quotes and brackets
fn quoted(r: &mut Rng) -> String {
    let n = r.range(1, 5);
    let mut s = String::new();
    for _ in 0..n {
        let (w, v) = (gen::words(r, 1, 2), gen::word(r));
        s += &match r.below(8) {
            0 => format!("{w} '\"' {v} "),
            1 => format!("{w} (\"{v}\") {w} "),
            2 => format!("{w} [\"] {v} "),
            3 => format!("{w} '\"{v}' {w} "),
            4 => format!("{w} \"\"\" {v} "),
            5 => format!("{w} {{\"{v}}} {w} "),
            6 => format!("{w} «\"{v}» {w} "),
            _ => format!("\"{w}\" '{v}' "),
        };
        if r.one_in(4) {
            s += *r.pick(&["\n", "\n\n", "*b* ", "_e_ "]);
        }
    }
    s
}
pub fn c19(ctx: &mut Ctx, _i: u64) {
    let mut cfg = model_cfg(ctx);
    let k = ctx.rng.below(15);
    match k {
        13 => {
            // with block tags off there is nothing left the other switches could change
            cfg.block_tags = false;
            ctx.feat("block tags off, other switches");
            let k = ctx.rng.range(1, 8);
            let src = match ctx.rng.below(3) {
                0 => gen::hostile(&mut ctx.rng),
                1 => gen::lines(&mut ctx.rng, k),
                _ => quoted(&mut ctx.rng),
            };
            cfg.lite = ctx.rng.one_in(2);
            cfg.images = ctx.rng.one_in(2);
            cfg.raw = ctx.rng.one_in(2);
            cfg.rel = if ctx.rng.one_in(2) { Some("nofollow".into()) } else { None };
            ctx.judge(&cfg, &src, |ctx, cfg, src| {
                ctx.nontrivial(src);
                same(ctx, &Cfg { lite: false, images: true, raw: false, rel: None, ..cfg.clone() }, cfg, src, "another switch changes the output without block tags")
            });
        }
        14 => {
            // nothing lite mode does not support
            ctx.feat("lite, nothing special, hostile");
            let k = ctx.rng.range(1, 8);
            let src = match ctx.rng.below(4) {
                0 => gen::hostile(&mut ctx.rng),
                3 => quoted(&mut ctx.rng),
                _ => gen::lines(&mut ctx.rng, k),
            };
            let src = src.replace(['@', '|', '<', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}'], "").replace("==", "");
            let src: Vec<String> = src
                .split('\n')
                .map(|l| {
                    let t = l.trim_start();
                    if t.starts_with(['*', '#', ';', ':', '-', 'h', 'f']) || t.starts_with("pre") || t.starts_with("notextile") || t.starts_with("table") { format!("x {t}") } else { l.to_owned() }
                })
                .collect();
            let src = src.join("\n");
            if src.contains("==") || src.contains(":=") {
                return;
            }
            cfg.lite = true;
            ctx.judge(&cfg, &src, |ctx, cfg, src| {
                if uses_blocks(src) {
                    return Ok(());
                }
                ctx.nontrivial(src);
                same(ctx, &Cfg { lite: false, ..cfg.clone() }, cfg, src, "lite mode changes a text without special blocks")
            });
        }
        0 | 1 => {
            // texts lite mode is meant for
            cfg.lite = true;
            ctx.feat("lite, nothing special");
            let mut g = G::new(ctx.rng.clone(), &cfg);
            let d = crate::blocks::join(&g.doc(4, O { code: false, ..RICH }));
            ctx.rng = g.r.clone();
            expect(ctx, &cfg, &d, "lite mode changes a text without special blocks");
            let mut s = d.s.clone();
            if ctx.rng.one_in(3) {
                ctx.feat("lite, raw blocks");
                let b = *ctx.rng.pick(&["<hr />", "<hr>", "<br>", "<br/>", "<img src=\"/a.png\" alt=\"\" />", "<img src=\"/a.png\"><br />", "<div>a *b*</div>", "<!-- c -->", "<b>x</b> _y_", "<div>", "</div>", "<p>a</p>", "<hr />\n<hr />", "<HR>", "<section>\n*a*\n</section>", "<script>x</script>"]);
                s = if ctx.rng.one_in(2) { format!("{b}\n\n{s}") } else { format!("{s}\n\n{b}") };
                if ctx.rng.one_in(4) {
                    s = b.to_owned();
                }
                cfg.raw = ctx.rng.one_in(3);
            }
            ctx.judge(&cfg, &s, |ctx, cfg, src| same(ctx, &Cfg { lite: false, ..cfg.clone() }, cfg, src, "lite mode changes a text without special blocks"));
        }
        2 | 3 => {
            cfg.lite = true;
            ctx.feat("lite, other blocks");
            let mut g = G::new(ctx.rng.clone(), &cfg);
            let n = g.r.range(1, 4);
            let v: Vec<Piece> = (0..n)
                .map(|_| if g.r.one_in(4) { g.para(RICH) } else { foreign(&mut g) })
                .collect();
            ctx.rng = g.r.clone();
            for f in &g.feats {
                ctx.feat(f);
            }
            expect(ctx, &cfg, &crate::blocks::join(&v), "lite mode");
        }
        4 => {
            // no elements lite mode does not have
            cfg.lite = true;
            cfg.restricted = true;
            ctx.feat("lite, hostile");
            let k = ctx.rng.range(1, 8);
            let src = if ctx.rng.one_in(2) { gen::hostile(&mut ctx.rng) } else { gen::lines(&mut ctx.rng, k) };
            ctx.judge(&cfg, &src, |ctx, cfg, src| {
                let out = ctx.parse(cfg, src)?;
                ctx.evals += 1;
                let (t, _) = html::browser(&out);
                for x in &t {
                    if let Tok::Start(n, _) = x {
                        if ["h1", "h2", "h3", "h4", "h5", "h6", "ul", "dl", "li", "dt", "dd", "table", "caption", "tr", "td", "th", "col", "colgroup", "tbody"].contains(&n.as_str()) && !src.contains("notelist") {
                            return bad("unexpected element in lite mode", format!("<{n}> in {out:?}"));
                        }
                    }
                }
                ctx.nontrivial(src);
                Ok(())
            });
        }
        5 | 6 => {
            cfg.block_tags = false;
            ctx.feat("block tags off, text");
            let mut g = G::new(ctx.rng.clone(), &cfg);
            let n = g.r.range(1, 4);
            let mut v = vec![];
            for _ in 0..n {
                let b = g.text(4, O { links: false, images: false, code: false, raw: true, ..RICH });
                let w = g.words(1, 2);
                let (p, h) = match g.r.below(8) {
                    0 => ("h2. ", "h2. "),
                    1 => ("p(x). ", "p(x). "),
                    2 => ("# ", "# "),
                    3 => ("|_. ", "|_. "),
                    4 => ("fn1. ", "fn1. "),
                    5 => ("bc. ", "bc. "),
                    _ => ("", ""),
                };
                g.f("block markers left alone");
                v.push(pc(format!("{p}{w} {}", b.s), format!("{h}{w} {}", b.h)));
            }
            ctx.rng = g.r.clone();
            for f in &g.feats {
                ctx.feat(f);
            }
            let sep = *ctx.rng.pick(&["\n", "\n\n"]);
            let d = pc(v.iter().map(|x| x.s.as_str()).collect::<Vec<_>>().join(sep), v.iter().map(|x| x.h.as_str()).collect::<Vec<_>>().join(sep));
            expect(ctx, &cfg, &d, "disabled block tags");
        }
        7 => {
            cfg.block_tags = false;
            ctx.feat("block tags off, hostile");
            let k = ctx.rng.range(1, 8);
            let mut src = if ctx.rng.one_in(2) { gen::hostile(&mut ctx.rng) } else { gen::lines(&mut ctx.rng, k) };
            if !cfg.restricted {
                src = src.replace('<', "");
            }
            ctx.judge(&cfg, &src, |ctx, cfg, src| {
                let out = ctx.parse(cfg, src)?;
                ctx.evals += 1;
                let (t, _) = html::browser(&out);
                for x in &t {
                    if let Tok::Start(n, _) = x {
                        if BLOCK_ELEMENTS.contains(&n.as_str()) {
                            return bad("block element in spite of disabled block tags", format!("<{n}> in {out:?}"));
                        }
                    }
                }
                ctx.nontrivial(src);
                Ok(())
            });
        }
        8 => {
            ctx.feat("images off, none used");
            cfg.images = true;
            let k = ctx.rng.range(1, 8);
            let src = if ctx.rng.one_in(2) { gen::hostile(&mut ctx.rng) } else { gen::lines(&mut ctx.rng, k) }.replace('!', "");
            let off = Cfg { images: false, ..cfg.clone() };
            ctx.judge(&off, &src, |ctx, off, src| {
                ctx.nontrivial(src);
                let on = Cfg { images: true, ..off.clone() };
                same(ctx, &on, off, src, "disabled images change a text without images")
            });
        }
        9 => {
            cfg.images = false;
            ctx.feat("images off, used");
            let mut g = G::new(ctx.rng.clone(), &cfg);
            let n = g.r.range(1, 3);
            let mut v = vec![];
            for _ in 0..n {
                let (w, b) = (g.words(1, 2), g.text(3, RICH));
                let (u, a) = (format!("/{}.png", gen::word(&mut g.r)), g.words(1, 2));
                let (s, h) = match g.r.below(6) {
                    0 => (format!("!{u}!"), format!("!{u}!")),
                    1 => (format!("!{u}({a})!"), format!("!{u}({a})!")),
                    2 => (format!("!>{u}!"), format!("!&gt;{u}!")),
                    3 => (format!("!{u}!:/{a}").replace(' ', ""), format!("!{u}!:/{a}").replace(' ', "")),
                    4 => (format!("!(x){u}!"), format!("!(x){u}!")),
                    _ => (format!("!{{a:b}}{u}!"), format!("!{{a:b}}{u}!")),
                };
                v.push(match g.r.below(3) {
                    0 => pc(&s, format!("<p>{h}</p>")),
                    1 => pc(format!("{w} {s} {w}"), format!("<p>{w} {h} {w}</p>")),
                    _ => pc(format!("{} {s} {w}", b.s), format!("<p>{} {h} {w}</p>", b.h)),
                });
            }
            ctx.rng = g.r.clone();
            expect(ctx, &cfg, &crate::blocks::join(&v), "disabled images");
        }
        10 => {
            ctx.feat("rel");
            let rel = (*ctx.rng.pick(&["nofollow", "noopener noreferrer", "x\"y", "a&b", "<i>", "it's"])).to_owned();
            cfg.rel = Some(rel);
            let k = ctx.rng.range(1, 8);
            let mut src = if ctx.rng.one_in(3) { gen::hostile(&mut ctx.rng) } else { gen::lines(&mut ctx.rng, k) };
            if !cfg.restricted {
                src = src.replace("<", "");
            }
            ctx.judge(&cfg, &src, |ctx, cfg, src| {
                let with = ctx.parse(cfg, src)?;
                let without = ctx.parse(&Cfg { rel: None, ..cfg.clone() }, src)?;
                ctx.evals += 1;
                let (a, _) = html::browser(&with);
                let (b, _) = html::browser(&without);
                if !cfg.restricted && src.contains("<") && a.iter().any(|x| matches!(x, Tok::Start(n, _) if n == "a")) && html::strict(&with).is_err() {
                    return Ok(());
                }
                if b.iter().any(|x| matches!(x, Tok::Start(_, a) if a.iter().any(|k| k.1.contains("<a") || k.1.contains("%3Ca")))) {
                    // a link as the address of an image
                    return Ok(());
                }
                let (c, wrong) = strip_rel(&a, cfg.rel.as_deref().unwrap());
                if c.iter().any(|x| matches!(x, Tok::Start(n, _) if n == "a")) {
                    ctx.feat("links with rel");
                    ctx.nontrivial(src);
                }
                if c != b {
                    return bad("rel changes something else", format!("{without:?} became {with:?}"));
                }
                if let Some(w) = wrong.first() {
                    return bad("rel", format!("{w} in {with:?}"));
                }
                Ok(())
            });
        }
        11 => {
            ctx.feat("raw blocks, none used");
            let k = ctx.rng.range(1, 8);
            let src = if ctx.rng.one_in(2) { gen::hostile(&mut ctx.rng) } else { gen::lines(&mut ctx.rng, k) }.replace('<', "");
            let on = Cfg { raw: true, ..cfg.clone() };
            ctx.judge(&on, &src, |ctx, on, src| {
                ctx.nontrivial(src);
                let off = Cfg { raw: false, ..on.clone() };
                same(ctx, &off, on, src, "raw blocks change a text without HTML")
            });
        }
        _ => {
            cfg.raw = true;
            cfg.restricted = false;
            ctx.feat("raw blocks");
            let mut g = G::new(ctx.rng.clone(), &cfg);
            let n = g.r.range(1, 3);
            let mut v = vec![];
            for _ in 0..n {
                let t = (*g.r.pick(&["custom", "x-foo", "CUSTOM", "center", "foo1", "x-a-b"])).to_owned();
                let a = *g.r.pick(&["", " x=\"1\"", " class=\"it's -- ABC\" id=\"y\"", " data-a='b'", " hidden=\"\""]);
                let (c, d) = (g.text(2, O { raw: false, ..RICH }), g.words(1, 2));
                let (c, nl) = (c.s.replace(['<', '>', '&'], ""), *g.r.pick(&["", " ", "\n"]));
                match g.r.below(4) {
                    0 => v.push(g.para(RICH)),
                    1 => v.push(pc(format!("<{t}{a}></{t}>"), format!("<{t}{a}></{t}>"))),
                    2 => v.push(pc(format!("<{t}{a}>{nl}h2. {c} -- (c) ABC{nl}</{t}>"), format!("<{t}{a}>{nl}h2. {c} -- (c) ABC{nl}</{t}>"))),
                    _ => v.push(pc(format!("<{t}{a}>{nl}{d} {c} {d}{nl}</{t}>"), format!("<{t}{a}>{nl}{d} {c} {d}{nl}</{t}>"))),
                }
            }
            ctx.rng = g.r.clone();
            expect(ctx, &cfg, &crate::blocks::join(&v), "raw blocks");
        }
    }
}

//! C08: verbatim content.
use crate::gen;
use crate::html::{self, Tok};
use crate::model::*;
use crate::models::*;
use crate::mon::*;

const BITS: &[&str] = &[
    "a", "foo", " ", " ", "  ", "<b>", "</b>", "<i class=\"x\">", "<br />", "<br/>", "<BR>", "<br  />", "<!-- c -->", "&amp;", "&lt;", "&", "&#8220;", "&quot;", "&AMP;", "&Lt;", "&GT;", "&#38;", "&#39;", "&#9;", "&nbsp;", "&Quot;", "&apos;", "&#x26;", "\"", "'", "*x*", "_y_", "**z**", "-d-", "+i+", "^t^", "~t~", "%s%", "??c??", "--", " - ", "...", "(c)", "(tm)",
    "[r]", "(1/2)", "ABC", "ABC(def)", "http://a.b/?c=d&e=f", "x < y", "x > y", "[1]", "[#n]", "\\", "\\n", "#", "{a:b}", "%", "é", "福", "🎉", "!a.png!", "!a.png(t)!:/u", "\"l\":/u", "\"l(t)\":http://x.y/z", "|", "|a|b|", "3x4", "3 x 4", "-1", "+", "it's", "$1", "$0",
    "${x}", "h1.", "p.", ":=", "=", ">", "<", "[al]http://x.y/", "[*b*]", "(", ")", "[", "]", "{", "}", "`", "~", "^", "/", ";", ":", "?", "!", ".", ",", "\u{a0}", "xyz", "2:shelve", "<script>alert(1)</script>", "</p>", "<div>", "href=\"a\"", "0", "42",
];
fn bits(r: &mut Rng, max: usize, bad: &[&str]) -> String {
    let n = r.range(1, max);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(BITS));
    }
    for _ in 0..4 {
        for b in bad {
            s = s.replace(b, "");
        }
    }
    let s = s.trim_matches(|c: char| c.is_whitespace()).to_owned();
    if s.is_empty() { "z".into() } else { s }
}
/// Content with blanks around it, at times
fn padded(r: &mut Rng, c: String) -> String {
    if !r.one_in(6) {
        return c;
    }
    let (a, b) = (r.below(4), r.below(4));
    format!("{}{c}{}", " ".repeat(a), " ".repeat(b))
}
fn lines(r: &mut Rng, max: usize, bad: &[&str], blank: bool) -> String {
    let n = r.range(1, max);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push('\n');
            if blank && r.one_in(4) {
                let k = if r.one_in(6) { r.range(3, 9) } else { r.range(1, 3) };
                s.push_str(&"\n".repeat(k));
            }
        }
        if i > 0 && r.one_in(3) {
            s.push_str(*r.pick(&["  ", "    ", "\t", " "]));
        }
        if i > 0 && r.one_in(6) {
            s.push_str(*r.pick(&["* ", "# ", "|a|b|", "; ", ": ", "- t := ", "table. ", "note#a. ", "notelist. ", "== ", "@", "<p>"]));
        }
        s.push_str(&bits(r, 6, bad));
        if r.one_in(10) {
            // blanks at the ends of lines belong to the content too
            s.push_str(*r.pick(&["  ", " ", "\t", "    "]));
        }
    }
    // what has been joined anew
    for _ in 0..4 {
        for b in bad {
            s = s.replace(b, "");
        }
    }
    s
}
/// Text of the first element of this name, as a browser shows it.
pub fn element_text(out: &str, tag: &str) -> Option<String> {
    let toks = html::strict(out).ok()?;
    let mut on = false;
    let mut s = String::new();
    for t in toks {
        match t {
            Tok::Start(n, _) if n == tag && !on => on = true,
            Tok::End(n) if n == tag && on => return Some(s),
            Tok::Text(t) if on => s.push_str(&t),
            Tok::Start(..) if on => return None,
            _ => {}
        }
    }
    None
}
/// Places for something inline: (before, after)
fn place(g: &mut G, lite: bool) -> (String, String, String, String) {
    let (a, b) = (g.words(1, 2), g.words(1, 2));
    let k = g.r.below(if lite { 3 } else { 14 });
    g.f(&format!("place {k}"));
    let (s1, h1, s2, h2) = match k {
        0 => (format!("{a} "), format!("<p>{a} "), format!(" {b}"), format!(" {b}</p>")),
        1 => (String::from("p. "), String::from("<p>"), format!(" {b}"), format!(" {b}</p>")),
        2 => (format!("bq. {a} "), format!("<blockquote><p>{a} "), String::new(), "</p></blockquote>".to_owned()),
        3 => (format!("h2. {a} "), format!("<h2>{a} "), format!(" {b}"), format!(" {b}</h2>")),
        4 => (format!("* {a} "), format!("<ul><li>{a} "), format!("\n* {b}"), format!("</li><li>{b}</li></ul>")),
        5 => (format!("|{a} "), format!("<table><tr><td>{a} "), format!(" {b}|"), format!(" {b}</td></tr></table>")),
        6 => (format!("{a} ("), format!("<p>{a} ("), format!(") {b}"), format!(") {b}</p>")),
        7 => (format!("{a}["), format!("<p>{a}"), format!("]{b}"), format!("{b}</p>")),
        8 => (format!("{a} *{b} "), format!("<p>{a} <strong>{b} "), format!(" {b}* {a}"), format!(" {b}</strong> {a}</p>")),
        9 => (format!("{a} \"{b} "), format!("<p>{a} <a href=\"/u\"{}>{b} ", at(&g.rel())), format!(" {b}\":/u {a}"), format!(" {b}</a> {a}</p>")),
        10 => (format!("- {a} := {b} "), format!("<dl><dt>{a}</dt><dd>{b} "), String::new(), "</dd></dl>".into()),
        11 => (format!("fn7. {a} "), format!("<p class=\"footnote\" id=\"FN\"><sup>7</sup> {a} "), format!(" {b}"), format!(" {b}</p>")),
        12 => (format!("{a}\n"), format!("<p>{a}{}", g.br()), format!("\n{b}"), format!("{}{b}</p>", g.br())),
        _ if !g.cfg.restricted => (format!("{a} <b>"), format!("<p>{a} <b>"), format!("</b> {a}"), format!("</b> {a}</p>")),
        _ => (format!("{a} _{a} "), format!("<p>{a} <em>{a} "), format!(" {b}_ {a}"), format!(" {b}</em> {a}</p>")),
    };
    // several of these are not possible at the very beginning
    (s1, h1, s2, h2)
}
fn blur_fn(out: &str) -> String {
    // the id of a footnote is of no interest here
    if let Some(i) = out.find("id=\"fn") {
        let e = out[i + 4..].find('"').unwrap() + i + 4;
        format!("{}id=\"FN{}", &out[..i], &out[e..])
    } else {
        out.to_owned()
    }
}

pub fn c08(ctx: &mut Ctx, _i: u64) {
    let mut cfg = model_cfg(ctx);
    cfg.raw = ctx.rng.one_in(4);
    let k = ctx.rng.below(9);
    if cfg.lite && !matches!(k, 4 | 5) {
        cfg.lite = false;
    }
    let mut g = G::new(ctx.rng.clone(), &cfg);
    let restricted = cfg.restricted;
    // (source, expected html, content of code/pre which has to be exactly this)
    let (src, want, exact): (String, String, Option<(&str, String)>);
    let lead = if g.r.one_in(10) { "\n" } else { "" };
    let mut tail = String::new();
    let mut tail_h = String::new();
    if g.r.one_in(2) {
        let w = g.words(1, 2);
        tail = format!("\n\np. {w}");
        tail_h = format!("<p>{w}</p>");
    }
    match k {
        0 => {
            // several pieces within one text
            let bads = ["@", "==", "<notextile>", "</notextile>", "<pre>", "</pre>", "<code>", "</code>", "\"", "!"];
            let n = g.r.range(2, 5);
            let w = g.word();
            let (mut s, mut h) = (w.clone(), format!("<p>{w}"));
            let mut first = None;
            for _ in 0..n {
                let c = bits(&mut g.r, 4, &bads);
                let (a, b) = *g.r.pick(&[(" ", ""), (" ", ","), (" (", ")"), (" ", "."), ("\n", ""), (" ", ":"), (" ", " - ")]);
                let hb = if b == " - " { " \u{2013} " } else { b };
                let ha = if a == "\n" { g.br() } else { a.to_owned() };
                let el = !restricted && g.r.one_in(3);
                let w = g.word();
                s += &if el { format!("{a}<code>{c}</code>{b} {w}") } else { format!("{a}@{c}@{b} {w}") };
                h += &format!("{ha}<code>{}</code>{hb} {w}", esc(&c));
                first.get_or_insert(c);
            }
            g.f("several pieces of code");
            src = s;
            want = h + "</p>";
            exact = first.map(|c| ("code", c));
        }
        1 => {
            // several pieces of code within one paragraph
            let (p1, h1, p2, h2) = place(&mut g, false);
            let c = bits(&mut g.r, 7, &["@", "==", "<notextile>", "</notextile>", "<pre>", "</pre>", "<code>", "</code>"]);
            let c = padded(&mut g.r, c);
            g.f("inline @");
            if c.contains('"') && p1.contains('"') {
                g.f("code with quotes in a link");
            }
            src = format!("{p1}@{c}@{p2}");
            want = format!("{h1}<code>{}</code>{h2}", esc(&c));
            exact = Some(("code", c));
        }
        2 => {
            let (p1, h1, p2, h2) = place(&mut g, false);
            let mut c = bits(&mut g.r, 7, &["==", "<notextile>", "</notextile>", "<pre>", "</pre>", "<code>", "</code>"]);
            c = padded(&mut g.r, c);
            if g.r.one_in(3) && !h1.starts_with("<table") && !p1.contains(['*', '"', '_']) {
                c = format!("{c}\n  {}", bits(&mut g.r, 4, &["==", "<notextile>", "</notextile>", "<pre>", "</pre>", "<code>", "</code>"]));
                g.f("multi-line <code>");
            }
            g.f("inline <code>");
            if restricted {
                // raw elements are not supported there
                src = format!("{p1}@{}@{p2}", c.replace('@', ""));
                let c = c.replace('@', "");
                want = format!("{h1}<code>{}</code>{h2}", esc(&c));
                exact = Some(("code", c));
            } else {
                src = format!("{p1}<code>{c}</code>{p2}");
                want = format!("{h1}<code>{}</code>{h2}", esc(&c));
                exact = Some(("code", c));
            }
        }
        3 if !restricted => {
            let c = lines(&mut g.r, 6, &["==", "@", "<notextile>", "</notextile>", "<pre>", "</pre>", "<code>", "</code>"], false);
            g.f("raw <pre>");
            src = format!("<pre>{c}</pre>{tail}");
            want = format!("<pre>{}</pre>{tail_h}", esc(&c));
            exact = Some(("pre", c));
        }
        4 => {
            let c = format!("{lead}{}", lines(&mut g.r, 6, &[], false));
            let ext = g.r.one_in(4);
            g.f("block bc");
            src = format!("bc.{} {c}{tail}", if ext { "." } else { "" });
            want = format!("<pre><code>{}</code></pre>{tail_h}", esc(&c));
            exact = Some(("code", c));
        }
        5 => {
            let c = format!("{lead}{}", lines(&mut g.r, 8, &[], true));
            let c = defuse(&c);
            g.f("extended bc");
            src = format!("bc.. {c}{tail}");
            want = format!("<pre><code>{}</code></pre>{tail_h}", esc(&c));
            exact = Some(("code", c));
        }
        6 => {
            let ext = g.r.one_in(2);
            let c = format!("{lead}{}", lines(&mut g.r, 8, &[], ext));
            let c = if ext { defuse(&c) } else { c };
            g.f(if ext { "extended pre" } else { "block pre" });
            src = format!("pre.{} {c}{tail}", if ext { "." } else { "" });
            want = format!("<pre>{}</pre>{tail_h}", esc(&c));
            exact = Some(("pre", c));
        }
        7 => {
            // blocks of notextile
            let ext = g.r.one_in(2);
            let c = lines(&mut g.r, 6, &["<notextile>", "</notextile>", "<br />"], ext);
            let c = if ext { defuse(&c) } else { c };
            g.f(if ext { "extended notextile" } else { "block notextile" });
            src = format!("notextile.{} {c}{tail}", if ext { "." } else { "" });
            ctx.rng = g.r.clone();
            finish(ctx, &cfg, &g, &src, &c, restricted);
            return;
        }
        _ => {
            // tags and marks of notextile
            let (p1, _h1, p2, _h2) = place(&mut g, false);
            let tag = !restricted && g.r.one_in(2);
            let c = bits(&mut g.r, 7, &["=", "<notextile>", "</notextile>", "|", "<br />"]);
            let c = padded(&mut g.r, c);
            g.f(if tag { "tag notextile" } else { "mark ==" });
            src = if tag { format!("{p1}<notextile>{c}</notextile>{p2}") } else { format!("{p1}=={c}=={p2}") };
            ctx.rng = g.r.clone();
            finish(ctx, &cfg, &g, &src, &c, restricted);
            return;
        }
    }
    ctx.rng = g.r.clone();
    for f in &g.feats {
        ctx.feat(f);
    }
    if restricted {
        ctx.feat("restricted");
    }
    let out = match ctx.parse(&cfg, &src) {
        Ok(o) => o,
        Err(b) => return ctx.report(&cfg, &src, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(&src);
    if let Some((tag, c)) = exact {
        let got = element_text(&out, tag);
        if got.as_deref() != Some(&c) {
            return ctx.report(&cfg, &src, bad("content not verbatim", format!("expected {:?} within <{}>, got {:?} in {:?}", c, tag, got, out)));
        }
        ctx.evals += 1;
    }
    if let Some(d) = html::diff(&want, &blur_fn(&out)) {
        return ctx.report(&cfg, &src, bad("wrong surroundings of verbatim content", d));
    }
    ctx.sample(&cfg, &src, &out);
}
/// Blocks within extended blocks must not begin with something ending these.
fn defuse(c: &str) -> String {
    let mut out: Vec<String> = vec![];
    for (i, b) in c.split("\n\n").enumerate() {
        let t = b.trim_start_matches('\n');
        if i > 0 && crate::blocks::is_explicit(t) {
            out.push(format!("{}={}", &b[..b.len() - t.len()], t));
        } else {
            out.push(b.to_owned());
        }
    }
    out.join("\n\n")
}
fn finish(ctx: &mut Ctx, cfg: &Cfg, g: &G, src: &str, c: &str, restricted: bool) {
    for f in &g.feats {
        ctx.feat(f);
    }
    if restricted {
        ctx.feat("restricted");
    }
    let out = match ctx.parse(cfg, src) {
        Ok(o) => o,
        Err(b) => return ctx.report(cfg, src, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(src);
    let seen = if restricted { html::decode(&out) } else { out.clone() };
    if !seen.contains(c) || (restricted && !seen_escaped(&out, c)) {
        return ctx.report(cfg, src, bad("notextile content changed", format!("expected {:?} in {:?}", c, out)));
    }
    ctx.sample(cfg, src, &out);
}
/// In restricted mode the content is text, nothing else.
fn seen_escaped(out: &str, c: &str) -> bool {
    let (toks, _) = html::browser(out);
    toks.iter().any(|t| matches!(t, Tok::Text(x) if x.contains(c)))
}

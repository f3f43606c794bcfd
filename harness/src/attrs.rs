//! C24: attribute values.
use crate::gen;
use crate::html::{self, Tok};
use crate::model::*;
use crate::models::*;
use crate::mon::*;

/// A value made of pieces none of which contains what `no` lists; starts and ends with a letter.
fn value(r: &mut Rng, no: &str, bits: &[&str]) -> String {
    let n = r.range(1, 6);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 && r.one_in(2) && !no.contains(' ') {
            s.push(' ');
        }
        match r.below(3) {
            0 => s.push_str(&gen::word(r)),
            _ => {
                let b = *r.pick(bits);
                if !b.chars().any(|c| no.contains(c)) {
                    s.push_str(b)
                }
            }
        }
    }
    if [" ''", " \"\"", " '\"", " \"'", " {\"", " [\"", " {}", " []"].iter().any(|x| s.contains(x)) {
        // quoted quotes have a notation of their own
        s.clear();
    }
    format!("{}{}{}", r.pick(&["a", "B", "é", "ж"]), s, r.pick(&["z", "Y", "福"]))
}
/// The same with punctuation at its end, at times
fn ended(r: &mut Rng, v: String) -> String {
    if r.one_in(3) { format!("{v}{}", r.pick(&[".", "?", "…", ":", ",", ";", "%", "-"])) } else { v }
}
const BITS: &[&str] = &[
    "\"", "'", "<", ">", "&", "&amp;", "&lt;", "&#39;", "&quot;", "\"q\"", "'q'", "\" onx=\"y", "' onx='y", "><b>", "</p>", "/>", "=", "$", "$1", "\\", "`", "{x}", "[y] ", "%", "#", ";", "--", "...", "é", "福", "a&b=c", "&copy", "<!--", "-->", "it's", "3x4",
    "ABC", "(", "\u{a0}", "]]>", "x:y", "|", "?", "+", "~", "^", "&;", "&#x26;", "%22", "%3C",
];
struct V {
    s: String,
    tag: &'static str,
    attr: &'static str,
    want: String,
}
fn position(r: &mut Rng, cfg: &Cfg) -> V {
    let w = gen::word(r);
    loop {
        match r.below(16) {
            0 | 1 => {
                // the title of a link; the text must not look like the end of it
                let mut v = value(r, "()\"", BITS);
                v = ended(r, v);
                if r.one_in(6) {
                    v = if r.one_in(2) { format!("{v} ") } else { format!(" {v}") };
                }
                if r.one_in(3) {
                    // quoted words
                    v = v.replacen(' ', " \"q\" ", 1);
                }
                if v.contains('|') {
                    continue;
                }
                // phrases could be formed out of these
                if ["--", "%", "^", "+", "~"].iter().any(|m| v.matches(m).count() > 1) {
                    continue;
                }
                return V { s: format!("{w} \"{w}({v})\":/{w} {w}"), tag: "a", attr: "title", want: v };
            }
            2 | 3 if cfg.images => {
                let v = value(r, "()!", BITS);
                let v = ended(r, v);
                let attr = if r.one_in(2) { "alt" } else { "title" };
                return V { s: format!("{w} !/{w}.png({v})! {w}"), tag: "img", attr, want: v };
            }
            4 => {
                // typographic replacements apply to the explanations of acronyms
                let v = value(r, "()\"'<>|@", BITS);
                if ["--", "...", "3x4", "ABC", "$", "%", "^", "+", "~", "&", "["].iter().any(|m| v.contains(m)) {
                    continue;
                }
                return V { s: format!("{w} QRS({v}) {w}"), tag: if cfg.xhtml { "acronym" } else { "abbr" }, attr: "title", want: v };
            }
            5 | 6 if !cfg.lite => {
                let v = value(r, "", BITS);
                let v = ended(r, v);
                if v.contains("|") {
                    continue;
                }
                return V { s: format!("table. {v}\n|{w}|"), tag: "table", attr: "summary", want: v };
            }
            7 | 8 if !cfg.restricted => {
                let v = value(r, "{}()[];\u{a0}", BITS).replace("[", "");
                let d = format!("font-family:{v}");
                let (s, tag) = match r.below(6) {
                    0 => (format!("p{{{d}}}. {w}"), "p"),
                    1 => (format!("bq{{{d}}}. {w}"), "blockquote"),
                    2 if !v.contains(['*', '|']) => (format!("{w} *{{{d}}}{w}* {w}"), "strong"),
                    3 if cfg.images && !v.contains('!') => (format!("{w} !{{{d}}}/{w}.png! {w}"), "img"),
                    4 if !cfg.lite && !v.contains('|') => (format!("|{w}|{{{d}}}. {w}|"), "td"),
                    5 if !cfg.lite => (format!("h2{{{d}}}. {w}"), "h2"),
                    _ => continue,
                };
                if tag == "blockquote" {
                    // repeated at its paragraphs
                }
                return V { s, tag, attr: "style", want: format!("{d};") };
            }
            9 => {
                // addresses with characters which need escaping
                let v = format!("/{}", value(r, " \"'<>()[]{}`^|\\%#*!?$\u{a0};~_-+=&.:,@éжBYaz福", &["?a=1&b=2", "&", "&amp;", "&lt;", "?x=y&copy=z", ";", ":", "@", "=", "+"]));
                if v.contains("--") {
                    continue;
                }
                let v = format!("/{w}?a=b&c={}", v.trim_matches(|c: char| !c.is_ascii_alphanumeric()).chars().filter(|c| c.is_ascii()).collect::<String>());
                return match r.below(4) {
                    0 if cfg.images => V { s: format!("{w} !{v}! {w}"), tag: "img", attr: "src", want: v },
                    1 => V { s: format!("bq.:{v} {w}"), tag: "blockquote", attr: "cite", want: v },
                    2 => V { s: format!("{w} *:{v} {w}* {w}"), tag: "strong", attr: "cite", want: v },
                    _ => V { s: format!("{w} \"{w}\":{v} {w}"), tag: "a", attr: "href", want: v },
                };
            }
            10 if !cfg.restricted => {
                // whole words of letters, digits and a few signs
                let v = format!("{}{}", gen::ident(r), r.pick(&["", "-x", "_y", ":z", ".q", "9", "-1_2", ":a.b"]));
                let (s, attr) = match r.below(3) {
                    0 => (format!("p({}). {w}", v.replace([':', '.'], "-")), "class"),
                    1 => (format!("p(#{v}). {w}"), "id"),
                    _ => (format!("p(ab-x#{v}). {w}"), "id"),
                };
                let want = if attr == "class" { v.replace([':', '.'], "-") } else { v };
                return V { s, tag: "p", attr, want };
            }
            11 => {
                let l = (*r.pick(&["en", "en-GB", "zh-Hans-CN", "de_AT", "x-klingon"])).to_owned();
                return V { s: format!("p[{l}]. {w}"), tag: "p", attr: "lang", want: l };
            }
            12 => {
                let rel = cfg.rel.clone();
                if let Some(v) = rel {
                    return V { s: format!("{w} \"{w}\":/{w}"), tag: "a", attr: "rel", want: v };
                }
                continue;
            }
            13 => {
                let v = value(r, "()\"", BITS);
                if v.contains('|') || ["--", "%", "^", "+", "~", "\""].iter().any(|m| v.matches(m).count() > 1) {
                    continue;
                }
                // through an alias
                return V { s: format!("{w} \"{w}({v})\":ali {w}\n\n[ali]/{w}"), tag: "a", attr: "title", want: v };
            }
            14 if cfg.images => {
                // an aligned image with a link
                let v = value(r, "()!", BITS);
                return V { s: format!("{w} !>/{w}.png({v})!:/{w}?a=1&b=2 {w}"), tag: "img", attr: "alt", want: v };
            }
            15 if cfg.images && !cfg.lite => {
                let v = value(r, "()!|", BITS);
                return V { s: format!("|!/{w}.png({v})!|{w}|"), tag: "img", attr: "alt", want: v };
            }
            _ => continue,
        }
    }
}
pub const NAMES: &[&str] = &["class", "id", "style", "lang", "href", "src", "alt", "title", "cite", "rel", "align", "start", "colspan", "rowspan", "span", "width", "height", "summary"];
/// Without any HTML of the author, whatever he writes, only Textile's attributes appear
fn vocabulary(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    let out = ctx.parse(cfg, src)?;
    ctx.evals += 1;
    let (t, _) = html::browser(&out);
    for x in &t {
        if let Tok::Start(n, a) = x {
            for (k, _) in a {
                if !NAMES.contains(&k.as_str()) {
                    return bad("a value ends its attribute early", format!("<{n} {k}> in {out:?}"));
                }
            }
            if !a.is_empty() {
                ctx.nontrivial(&out);
            }
        }
    }
    if let Err(e) = html::strict(&out) {
        return bad("a value ends its attribute or tag early", format!("{e} in {out:?}"));
    }
    Ok(())
}
/// Removes phrase marks from anything in brackets
fn unmark(s: &str) -> String {
    let mut depth = ' ';
    s.chars()
        .filter(|c| {
            match *c {
                '(' | '[' => depth = *c,
                ')' if depth == '(' => depth = ' ',
                ']' if depth == '[' => depth = ' ',
                '\n' => depth = ' ',
                _ => {}
            }
            depth == ' ' || !"_-*+%~^?".contains(*c)
        })
        .collect()
}
/// Values Textile does not accept are left out, the others next to them are not
fn left_out(ctx: &mut Ctx, mut cfg: Cfg) {
    cfg.restricted = false;
    cfg.images = true;
    let w = gen::word(&mut ctx.rng);
    let r = &mut ctx.rng;
    let (c, i, l) = (gen::ident(r), gen::ident(r), (*r.pick(&["en", "de-AT", "x_y"])).to_owned());
    let mut good = [true, true, true];
    let which = r.below(3);
    good[which] = false;
    let (mut cs, mut is, mut ls) = (c.clone(), i.clone(), l.clone());
    let bad_of = |r: &mut Rng, v: &str, set: &[&str]| {
        let b = *r.pick(set);
        match r.below(3) {
            0 => format!("{b}{v}"),
            1 => format!("{v}{b}"),
            _ => format!("{v}{b}{v}"),
        }
    };
    // no marks of phrases, as these are interpreted first
    match which {
        0 => cs = bad_of(r, &c, &["&", "\"", "'", "=", ",", ";", "$", "é", "&amp;", "`", "\\", "\"x=\"", ":"]),
        1 => is = bad_of(r, &i, &["&", "\"", "'", "=", ",", ";", "$", "é", "#", " ", "/", "\\", "\"x=\"", "#a"]),
        _ => ls = bad_of(r, &l, &["&", "\"", "'", "=", ",", ";", "$", "é", "#", " ", "/", "\\", "\"x=\"", ".", ":"]),
    }
    let a = match r.below(2) {
        0 => format!("({cs}#{is})[{ls}]"),
        _ => format!("[{ls}]({cs}#{is})"),
    };
    let (src, tag) = match r.below(if cfg.lite { 4 } else { 9 }) {
        0 => (format!("p{a}. {w}"), "p"),
        1 => (format!("bq{a}. {w}"), "blockquote"),
        2 => (format!("{w} _{a}{w}_ {w}"), "em"),
        3 => (format!("{w} %{a}{w}% {w}"), "span"),
        4 => (format!("h3{a}. {w}"), "h3"),
        5 => (format!("|{a}. {w}|"), "td"),
        6 => (format!("table{a}.\n|{w}|"), "table"),
        7 => (format!("*{a} {w}"), "ul"),
        _ => (format!("|{w}|\n{a}. |{w}|{w}|"), "tr"),
    };
    // an underscore can be a part of a phrase
    if src.matches('_').count() > 2 && tag == "em" || src.contains("\"") && tag == "span" && src.contains('\'') {
        return;
    }
    ctx.feat("value which is not accepted");
    let out = match ctx.parse(&cfg, &src) {
        Ok(o) => o,
        Err(b) => return ctx.report(&cfg, &src, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(&src);
    let (t, _) = html::browser(&out);
    let got = t.iter().rev().find_map(|x| match x {
        Tok::Start(n, a) if n == tag => Some(a.clone()),
        _ => None,
    });
    let mut want: Vec<(String, String)> = vec![];
    for (k, v, ok) in [("class", &c, good[0]), ("id", &i, good[1]), ("lang", &l, good[2])] {
        if ok {
            want.push((k.into(), v.clone()));
        }
    }
    let mut got = got.unwrap_or_default();
    got.sort();
    if got != want {
        ctx.report(&cfg, &src, bad("attributes with a value which is not accepted", format!("expected {want:?} got {got:?} in {out:?}")));
    }
}
pub fn c24(ctx: &mut Ctx, _i: u64) {
    let mut cfg = model_cfg(ctx);
    if ctx.rng.one_in(10) {
        return left_out(ctx, cfg);
    }
    if cfg.rel.is_some() {
        cfg.rel = Some(value(&mut ctx.rng, "", BITS));
    }
    if ctx.rng.one_in(4) {
        ctx.feat("hostile text without HTML");
        let k = ctx.rng.range(1, 6);
        let mut src = match ctx.rng.below(4) {
            3 => {
                // markup within what is going to be an attribute
                let r = &mut ctx.rng;
                let x: Vec<&str> = (0..r.range(1, 3)).map(|_| *r.pick(&["@c@", "\"l\":/u", "!/i.png!", "*s*", "_e_", "==n==", "[1]", "\"q\"", "ABC", "w", "é", "%(c)s%", "??z??", "[#n]", "!/i.png(t)!:/v", "'s'"])).collect();
                let x = x.join(*r.pick(&[" ", "", " w "]));
                let f = *r.pick(&["QRS(@)", "\"w(@)\":/u", "!/i.png(@)!", "table. @\n|a|", "\"w\":/u?@", "!/i@.png!", "bq.:/@ x", "*:/@ x*", "p(@). x", "p(#@). x", "p[@]. x", "*(@)x*", "[al@]/u \"w\":al@", "fn1(@). x", "note#a(@). x\n\nb[#a]\n\nnotelist(@).", "!/i.png!:/@", "bc(@). x"]);
                format!("w {}", f.replace('@', &x)).replacen("w p", "p", 1).replacen("w t", "t", 1).replacen("w b", "b", 1).replacen("w |", "|", 1).replacen("w fn", "fn", 1).replacen("w note", "note", 1)
            }
            0 => gen::hostile(&mut ctx.rng),
            1 => crate::props::evil_doc(&mut ctx.rng),
            _ => {
                let v = value(&mut ctx.rng, "", BITS);
                let l = gen::lines(&mut ctx.rng, k);
                let at: Vec<usize> = l.char_indices().map(|x| x.0).collect();
                let p = if at.is_empty() { 0 } else { *ctx.rng.pick(&at) };
                format!("{}{}{}", &l[..p], v, &l[p..])
            }
        };
        if !cfg.restricted {
            // known finding: phrase markup within styles
            src = unmark(&src.replace(['<', '{'], "")).replace("notextile", "no").replace("=", "");
        }
        ctx.judge(&cfg, &src, vocabulary);
        return;
    }
    let v = position(&mut ctx.rng, &cfg);
    ctx.feat(&format!("{} of {}", v.attr, v.tag));
    let out = match ctx.parse(&cfg, &v.s) {
        Ok(o) => o,
        Err(b) => return ctx.report(&cfg, &v.s, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(&v.s);
    if let Err(e) = html::strict(&out) {
        return ctx.report(&cfg, &v.s, bad("a value ends its attribute or tag early", format!("{e} in {out:?}")));
    }
    let (t, _) = html::browser(&out);
    let got: Vec<String> = t
        .iter()
        .filter_map(|x| match x {
            Tok::Start(n, a) if n == v.tag => a.iter().find(|k| k.0 == v.attr).map(|k| k.1.clone()),
            _ => None,
        })
        .collect();
    if got.is_empty() || got.iter().any(|g| *g != v.want) {
        return ctx.report(&cfg, &v.s, bad("attribute value changed", format!("{} of {}: expected {:?} got {:?} in {:?}", v.attr, v.tag, v.want, got, out)));
    }
    for c in ["\"", "'", "<", ">", "&"] {
        if v.want.contains(c) {
            ctx.feat(&format!("value with {c}"));
        }
    }
    ctx.sample(&cfg, &v.s, &out);
}

//! C13 links, C14 images.
use crate::gen;
use crate::html::{self, Tok};
use crate::model::*;
use crate::models::*;
use crate::mon::*;

fn seg(r: &mut Rng, fancy: bool) -> String {
    let i = gen::ident(r);
    if !fancy {
        return i;
    }
    match r.below(16) {
        0 => format!("{i}%20{i}"),
        1 => format!("{i}%26b"),
        2 => format!("{i}%2Fc"),
        3 => format!("~{i}"),
        4 => format!("{i}+{i}"),
        5 => format!("{i}@x"),
        6 => format!("{i};p=1"),
        7 => format!("{i}_({i})"),
        8 => format!("({i})"),
        9 => format!("{i},{i}"),
        10 => format!("{i}.{i}"),
        11 => format!("{i}:80"),
        12 => format!("{i}!{i}"),
        13 => format!("{i}$1"),
        14 => format!("{i}=1"),
        _ => format!("{i}-7_{i}"),
    }
}
fn query(r: &mut Rng, fancy: bool) -> String {
    let n = r.range(1, 4);
    let mut v = vec![];
    for _ in 0..n {
        let (k, x) = (gen::ident(r), gen::ident(r));
        v.push(if !fancy {
            format!("{k}={x}")
        } else {
            match r.below(15) {
                11 => format!("{k}=?{x}"),
                12 => format!("{k}=http://a.b/?{x}"),
                13 => format!("{k}={x};y=2"),
                0 => format!("{k}=%26{x}"),
                1 => format!("{k}[]={x}"),
                2 => format!("{k}={x}%3D"),
                3 => format!("{k}={x}/y"),
                4 => format!("{k}=a:b"),
                5 => format!("{k}={x}+z"),
                6 => k,
                7 => format!("{k}={x},q"),
                8 => format!("amp={x}"),
                9 => format!("{k}=({x})"),
                10 => format!("lt={x}&gt=2"),
                _ => format!("{k}={x}%22"),
            }
        });
    }
    v.join("&")
}
/// A URL made of ASCII, nothing at its end that would not belong to it.
pub fn fancy_url(r: &mut Rng) -> String {
    let fancy = r.one_in(2);
    let n = r.range(1, 3);
    let first = gen::ident(r);
    let p = (0..n).map(|_| seg(r, fancy)).collect::<Vec<_>>().join("/");
    let mut u = match r.below(12) {
        0 | 1 => format!("/{p}"),
        2 => format!("{first}/{p}"),
        3 => format!("../{p}"),
        4 => format!("./{p}"),
        5 => format!("//cdn.example.org/{p}"),
        6 => format!("HTTP://Example.COM/{p}"),
        7 => format!("https://user@example.org:8443/{p}"),
        8 => return format!("mailto:{first}@example.com"),
        9 => format!("ftp://ftp.example.org/{p}"),
        10 => format!("#{first}"),
        _ => format!("http://www.example.com/{p}"),
    };
    if !u.starts_with('#') {
        if r.one_in(3) {
            u = format!("{u}?{}", query(r, fancy));
        }
        if r.one_in(4) {
            u = format!("{u}#{}", gen::ident(r));
            if fancy && r.one_in(3) {
                u.push_str(*r.pick(&["?x", "/y", ":z", "?a=1&b", "!q", ",w", ";v=1", "=t"]));
            }
        }
    }
    if u.ends_with(['.', ',', ';', ':', '!', '?']) {
        u.push('a');
    }
    u
}
/// What the parser has to make of a URL: absolute ones normalized as by browsers, relative ones as they are.
pub fn href_of(u: &str) -> String {
    match url::Url::parse(u) {
        Ok(x) => x.to_string(),
        Err(_) => u.to_owned(),
    }
}
fn readable(u: &str) -> String {
    if url::Url::parse(u).is_err() {
        return u.to_owned();
    }
    for p in ["://", ":"] {
        if let Some(i) = u.find(p) {
            return u[i + p.len()..].to_owned();
        }
    }
    u.to_owned()
}
fn hrefs(out: &str) -> Vec<(String, String)> {
    let (t, _) = html::browser(out);
    t.iter()
        .filter_map(|x| match x {
            Tok::Start(n, a) if n == "a" || n == "img" => a.iter().find(|k| k.0 == "href" || k.0 == "src").map(|k| (n.clone(), k.1.clone())),
            _ => None,
        })
        .collect()
}

struct L {
    p: Piece,
    href: Vec<(String, String)>,
}
/// The quoted part: text, attributes, title
fn quoted(g: &mut G, attrs_done: &mut Attrs) -> (String, String, Vec<(String, String)>) {
    let (s, a) = if g.r.one_in(3) { g.cls(6, &[], &[]) } else { (String::new(), vec![]) };
    attrs_done.extend(a);
    let mut imgs = vec![];
    let k = g.r.below(17);
    g.f(&format!("link text {k}"));
    let (w, v, u) = (g.word(), g.word(), g.word());
    let (ts, th) = match k {
        0 => (format!("*{w}*"), format!("<strong>{w}</strong>")),
        1 => (format!("{w} _{v}_ {u}"), format!("{w} <em>{v}</em> {u}")),
        2 => (format!("{w}'s {v}"), format!("{w}\u{2019}s {v}")),
        3 if !s.contains('(') => (format!("{w} ({v}) {u}"), format!("{w} ({v}) {u}")),
        4 if g.cfg.images => {
            let f = format!("/{}.png", gen::ident(&mut g.r));
            imgs.push(("img".to_owned(), f.clone()));
            (format!("!{f}!"), format!("<img alt=\"\" src=\"{f}\">"))
        }
        5 if g.cfg.images && s.is_empty() => {
            let f = format!("{}.gif", gen::ident(&mut g.r));
            imgs.push(("img".to_owned(), f.clone()));
            (format!("!{f}({v})!"), format!("<img alt=\"{v}\" title=\"{v}\" src=\"{f}\">"))
        }
        6 => (format!("{w} \"{v}\" {u}"), format!("{w} \u{201c}{v}\u{201d} {u}")),
        7 => (format!("{w}\n{v}"), format!("{w}{}{v}", g.br())),
        8 if !g.cfg.lite => (format!("{w} @<{v}>@ {u}"), format!("{w} <code>&lt;{v}&gt;</code> {u}")),
        9 => (format!("{w}: {v}, {u}."), format!("{w}: {v}, {u}.")),
        10 => (format!("{w} -- {v}"), format!("{w} \u{2014} {v}")),
        11 => (format!("{w} & {v}"), format!("{w} &amp; {v}")),
        12 if !g.cfg.restricted => (format!("<b>{w}</b> {v}"), format!("<b>{w}</b> {v}")),
        13 if !g.cfg.restricted && s.is_empty() => {
            let f = format!("/{}.png", gen::ident(&mut g.r));
            imgs.push(("img".to_owned(), f.clone()));
            let e = *g.r.pick(&["", " alt=\"b\"", " alt=\"b\" title=\"c\""]);
            let t = format!("<img src=\"{f}\"{e} />");
            let (a, b) = *g.r.pick(&[("", ""), ("v ", ""), ("v ", " w")]);
            (format!("{a}{t}{b}"), format!("{a}{t}{b}"))
        }
        15 if s.is_empty() => (format!("\"{w} {v}\""), format!("\u{201c}{w} {v}\u{201d}")),
        _ => { let t = g.words(1, 4); (t.clone(), t) }
    };
    let mut title = String::new();
    if g.r.one_in(3) && !ts.ends_with(['!', '"']) {
        let t = g.words(1, 3);
        title = format!("{}({t})", if g.r.one_in(4) { " " } else { "" });
        attrs_done.push(("title".into(), t));
        g.f("link title");
    }
    let gap = if s.is_empty() || ts.starts_with('<') { 0 } else { *g.r.pick(&[0, 0, 0, 1, 1, 2, 4]) };
    (format!("\"{s}{}{ts}{title}\"", " ".repeat(gap)), th, imgs)
}
fn one_link(g: &mut G, url: &str, href: &str) -> L {
    let mut a: Attrs = vec![];
    let (s, h, imgs) = quoted(g, &mut a);
    a.push(("href".into(), href.to_owned()));
    a.extend(g.rel());
    let mut hr = vec![("a".to_owned(), href.to_owned())];
    hr.extend(imgs);
    L { p: pc(format!("{s}:{url}"), format!("<a{}>{h}</a>", at(&a))), href: hr }
}
/// What may surround a link; its source has to end with its URL.
fn wrap(g: &mut G, l: L, k: usize) -> L {
    let (w, v) = (g.word(), g.word());
    let (s, h) = (l.p.s.clone(), l.p.h.clone());
    let open_q = s.contains(['(', '[', '{', '\'']);
    // a URL may have brackets of its own as long as they are balanced
    let open_p = {
        let (t, u) = s.rsplit_once("\":").unwrap_or((&s, ""));
        t.contains(['(', '[', '{', '\'']) || u.contains(['[', '{', '\'']) || u.matches('(').count() != u.matches(')').count()
    };
    if !open_p && open_q {
        g.f("balanced brackets within a URL");
    }
    g.f(&format!("around a link {k}"));
    let p = match k {
        0 => pc(format!("{s}."), format!("{h}.")),
        1 => pc(format!("{s},"), format!("{h},")),
        2 => pc(format!("{s};"), format!("{h};")),
        3 => pc(format!("{s}:"), format!("{h}:")),
        4 => pc(format!("{s}?"), format!("{h}?")),
        5 if !s.contains('!') || !g.cfg.images => pc(format!("{s}!"), format!("{h}!")),
        6 if !open_p => pc(format!("({s})"), format!("({h})")),
        7 if !open_p => pc(format!("({s})."), format!("({h}).")),
        8 if !open_p => pc(format!("({w} {s})"), format!("({w} {h})")),
        9 if !open_q => pc(format!("[{s}]"), h),
        10 if !open_q => pc(format!("{w}[{s}]{v}"), format!("{w}{h}{v}")),
        11 => pc(format!("{s}..."), format!("{h}\u{2026}")),
        12 => pc(format!("{s}?!"), format!("{h}?!")),
        13 if !s.contains('*') => pc(format!("*{s}*"), format!("<strong>{h}</strong>")),
        14 if !s.contains('^') => pc(format!("^{s}^"), format!("<sup>{h}</sup>")),
        15 if !open_q => pc(format!("'{s}'"), format!("\u{2018}{h}\u{2019}")),
        16 if !g.cfg.restricted => {
            let t = *g.r.pick(&["b", "em", "span", "strong", "small", "button", "cite"]);
            pc(format!("<{t}>{s}</{t}>"), format!("<{t}>{h}</{t}>"))
        }
        17 if !open_p => pc(format!("{w} ({s}), {v}"), format!("{w} ({h}), {v}")),
        18 => pc(format!("_{w} {s} {v}_"), format!("<em>{w} {h} {v}</em>")),
        19 => pc(format!("{w}: {s}"), format!("{w}: {h}")),
        20 if !s.contains(['\n', '[']) && !open_q => {
            g.counter += 1;
            let n = g.counter;
            pc(format!("[{s}][{n}]"), format!("{h}<sup class=\"footnote\" id=\"FN\"><a href=\"#FN\">{n}</a></sup>"))
        }
        21 if !s.contains(['\n', '[']) && !open_q => {
            // the text in the next brackets is not a part of the URL
            let t = if g.r.one_in(2) { format!("{w}{v}") } else { w.clone() };
            let e = *g.r.pick(&["", "]", " x]"]);
            pc(format!("[{s}][{t}{e} {v}"), format!("{h}[{t}{e} {v}"))
        }
        22 if !s.contains(['\n', '[']) && !open_q => {
            let m = *g.r.pick(&["*", "_"]);
            let t = if m == "*" { "strong" } else { "em" };
            if s.contains(m) { l.p.clone() } else { pc(format!("[{s}][{m}{w}{m}]{v}"), format!("{h}<{t}>{w}</{t}>{v}")) }
        }
        _ => l.p.clone(),
    };
    L { p, href: l.href }
}
fn blur(out: &str) -> String {
    // ids of footnotes are the business of another property
    let mut o = String::new();
    let mut rest = out;
    while let Some(i) = rest.find("fn") {
        let pre_id = rest[..i].ends_with("id=\"");
        let pre_href = rest[..i].ends_with("href=\"#");
        if (pre_id || pre_href) && (rest[i..].starts_with("fnxyz-") || rest[i..].starts_with("fnrevxyz-")) {
            o.push_str(&rest[..i]);
            o.push_str("FN");
            let e = rest[i..].find('"').unwrap();
            rest = &rest[i + e..];
        } else {
            o.push_str(&rest[..i + 2]);
            rest = &rest[i + 2..];
        }
    }
    o + rest
}
pub fn c13(ctx: &mut Ctx, _i: u64) {
    let mut cfg = model_cfg(ctx);
    cfg.lite = ctx.rng.one_in(8);
    let mut g = G::new(ctx.rng.clone(), &cfg);
    let n = g.r.range(1, 3);
    let (mut s, mut h) = (String::new(), String::new());
    let mut want: Vec<(String, String)> = vec![];
    let mut defs_before: Vec<String> = vec![];
    let mut defs_after: Vec<String> = vec![];
    let mut inline_defs: Vec<String> = vec![];
    for k in 0..n {
        if k > 0 {
            let w = g.words(1, 2);
            s += &format!(" {w} ");
            h += &format!(" {w} ");
        }
        let kind = g.r.below(10);
        let l = if kind < 5 {
            let u = fancy_url(&mut g.r);
            let hr = href_of(&u);
            g.f(&format!("url {}", u.split(['/', ':', '#']).next().unwrap().chars().take(6).collect::<String>()).replace(|c: char| c.is_ascii_lowercase() && !u.contains("://"), "a"));
            one_link(&mut g, &u, &hr)
        } else if kind < 8 {
            let name = format!("{}{}", *g.r.pick(&["al", "foo-", "x_", "N", "ref."]), g.counter);
            g.counter += 1;
            let u = fancy_url(&mut g.r);
            let u = if u.starts_with('/') || url::Url::parse(&u).is_ok() { u } else { format!("/{u}") };
            // a scheme in capitals isn't one of a definition
            let u = u.replace("HTTP://Example.COM", "http://example.com");
            let def = format!("[{name}]{u}");
            match g.r.below(4) {
                0 | 1 => defs_before.push(def),
                2 => inline_defs.push(def),
                _ => defs_after.push(def),
            }
            g.f("link alias");
            let hr = href_of(&u);
            one_link(&mut g, &name, &hr)
        } else if kind == 8 {
            let u = fancy_url(&mut g.r);
            let hr = href_of(&u);
            g.f("self-referencing link");
            let mut a: Attrs = vec![("href".to_owned(), hr.clone())];
            a.extend(g.rel());
            // the text is subject to ordinary markup
            let t = readable(&u);
            if t.contains(['~', '+', '_', '-', '(', '$', ':', '@', '%', '!', ',']) || u != hr {
                let u = format!("{}{}{}", *g.r.pick(&["http://example.com/", "http://example.com/", "http://example.com:8080/", "https://a.example.com/?u=http://b.c/", "ftp://example.com/a:b/", "/", "../", "/a/b/"]), gen::ident(&mut g.r).replace(['-', '_'], "a"), *g.r.pick(&["", "", "/", "/c/", "//"]));
                let t = readable(&u);
                let mut a: Attrs = vec![("href".to_owned(), u.clone())];
                a.extend(g.rel());
                L { p: pc(format!("\"$\":{u}"), format!("<a{}>{t}</a>", at(&a))), href: vec![("a".into(), u)] }
            } else {
                L { p: pc(format!("\"$\":{u}"), format!("<a{}>{}</a>", at(&a), esc(&t))), href: vec![("a".into(), hr)] }
            }
        } else {
            // defined before, so the target is known
            let name = format!("self{}", g.counter);
            g.counter += 1;
            let u = format!("http://example.com/{}/b", gen::ident(&mut g.r).replace(['-', '_'], "a"));
            defs_before.push(format!("[{name}]{u}"));
            g.f("self-referencing alias");
            let mut a: Attrs = vec![("href".to_owned(), u.clone())];
            a.extend(g.rel());
            L { p: pc(format!("\"$\":{name}"), format!("<a{}>{}</a>", at(&a), readable(&u))), href: vec![("a".into(), u)] }
        };
        let k = g.r.below(28);
        let l = wrap(&mut g, l, k);
        s += &l.p.s;
        h += &l.p.h;
        want.extend(l.href);
    }
    // blocks
    let w = g.words(1, 2);
    let kk = g.r.below(if cfg.lite { 4 } else { 10 });
    let multi = s.contains('\n');
    g.f(&format!("block {kk}"));
    let br = g.br();
    let (mut src, mut html_) = match kk {
        0 => (format!("{w} {s} {w}"), format!("<p>{w} {h} {w}</p>")),
        1 => (s.clone(), format!("<p>{h}</p>")),
        2 => (format!("bq. {s}"), format!("<blockquote><p>{h}</p></blockquote>")),
        3 => (format!("{w}\n{s}\n{w}"), format!("<p>{w}{br}{h}{br}{w}</p>")),
        4 if !multi => (format!("h3. {s}"), format!("<h3>{h}</h3>")),
        5 if !multi => (format!("* {w} {s}\n* {w}"), format!("<ul><li>{w} {h}</li><li>{w}</li></ul>")),
        6 if !multi => (format!("|{w} {s}|{w}|"), format!("<table><tr><td>{w} {h}</td><td>{w}</td></tr></table>")),
        7 if !multi && !s.starts_with('(') => (format!("|{s}|\n|{w}|"), format!("<table><tr><td>{h}</td></tr><tr><td>{w}</td></tr></table>")),
        8 if !multi => (format!("- {w} := {w} {s}"), format!("<dl><dt>{w}</dt><dd>{w} {h}</dd></dl>")),
        _ => (format!("p. {s}"), format!("<p>{h}</p>")),
    };
    if !inline_defs.is_empty() {
        let w = g.words(1, 2);
        g.f("alias defined within a paragraph");
        src = format!("{src}\n\np. {w} {}", inline_defs.join(" "));
        html_ += &format!("<p>{w}</p>");
    }
    if !defs_before.is_empty() {
        g.f("alias defined before");
        src = format!("{}\n\n{src}", defs_before.join("\n\n"));
    }
    if !defs_after.is_empty() {
        g.f("alias defined after");
        src = format!("{src}\n\n{}", defs_after.join("\n\n"));
    }
    ctx.rng = g.r.clone();
    for f in &g.feats {
        ctx.feat(f);
    }
    if cfg.restricted {
        ctx.feat("restricted");
    }
    let out = match ctx.parse(&cfg, &src) {
        Ok(o) => o,
        Err(b) => return ctx.report(&cfg, &src, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(&src);
    let out2 = blur(&out);
    let got: Vec<_> = hrefs(&out2).into_iter().filter(|x| x.1 != "#FN").collect();
    if got != want {
        return ctx.report(&cfg, &src, bad("wrong targets", format!("expected {want:?} got {got:?} in {out:?}")));
    }
    if let Some(d) = html::diff(&html_, &out2) {
        return ctx.report(&cfg, &src, bad("wrong link", d));
    }
    ctx.sample(&cfg, &src, &out);
}

// ---------------------------------------------------------------- C14 images
fn img_url(r: &mut Rng) -> String {
    loop {
        let u = fancy_url(r);
        if u.contains(['(', '!', '#', '@', '[']) || u.starts_with("mailto") {
            continue;
        }
        // may not end like punctuation, nor begin like attributes
        return u;
    }
}
const ALT: &[&str] = &["a", "two words", "it's", "\"q\"", "&", "<b>", "a < b", "--", "...", "*s*", "_e_", "3x4", "ABC", "é", "福", "#", "[x]", "{y}", "=", "%", "100%", "?", ":", ";", ",", ".", "/", "\\", "(tm", "http://x.y/", "$1", "$0", "+", "^", "~", "-", "@"];
pub fn alt(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let mut v: Vec<String> = vec![gen::word(r)];
    for _ in 0..n {
        v.push(r.pick(ALT).to_string());
        if r.one_in(3) {
            v.push(gen::word(r));
        }
    }
    v.join(" ")
}
fn one_image(g: &mut G, plain_alt: bool) -> (Piece, Vec<(String, String)>) {
    let mut a: Attrs = vec![];
    let mut al = "";
    if g.r.one_in(3) {
        let (m, v) = *g.r.pick(&[("<", "left"), (">", "right"), ("=", "center")]);
        // with images disabled "<..." would be a tag
        let (m, v) = if plain_alt && !g.cfg.restricted { ("=", "center") } else { (m, v) };
        al = m;
        g.f(&format!("image {v} {}", if g.cfg.align_class() { "class" } else { "attribute" }));
        if g.cfg.align_class() {
            a.push(("class".into(), format!("align-{v}")));
        } else {
            a.push(("align".into(), v.to_owned()));
        }
    }
    let (s, b) = if g.r.one_in(3) { g.cls(6, &[], &[]) } else { (String::new(), vec![]) };
    for (k, v) in b {
        if k == "class" && a.first().map(|x| x.0 == "class").unwrap_or(false) {
            a[0].1 = format!("{} {}", v, a[0].1);
        } else {
            a.push((k, v));
        }
    }
    let dot = if !s.is_empty() && g.r.one_in(6) { ". " } else { "" };
    let u = img_url(&mut g.r);
    let src = href_of(&u);
    a.push(("src".into(), src.clone()));
    let mut alt_s = String::new();
    if g.r.one_in(2) {
        let mut v = if plain_alt || g.r.one_in(2) { g.words(1, 3) } else { alt(&mut g.r) };
        if !plain_alt && v.contains(['"', '@']) {
            // quotes might be taken for a link and at signs for code
            v = v.replace("\":", "").replace('@', "");
        }
        alt_s = format!("{}({v})", if g.r.one_in(5) { " " } else { "" });
        a.push(("alt".into(), v.clone()));
        a.push(("title".into(), v));
        g.f("image alt");
    } else {
        a.push(("alt".into(), String::new()));
    }
    let img = format!("<img{} />", at(&a));
    let text = format!("!{al}{s}{dot}{u}{alt_s}!");
    let mut list = vec![];
    if g.r.one_in(3) {
        let mut l = fancy_url(&mut g.r);
        while l.ends_with(')') || l.contains(['[', ']']) {
            l = fancy_url(&mut g.r);
        }
        let hl = href_of(&l);
        let mut la = vec![("href".to_owned(), hl.clone())];
        la.extend(g.rel());
        g.f("image link");
        list.push(("a".to_owned(), hl));
        list.push(("img".to_owned(), src));
        return (pc(format!("{text}:{l}"), format!("<a{}>{img}</a>", at(&la))), list);
    }
    list.push(("img".to_owned(), src));
    (pc(text, img), list)
}
pub fn c14(ctx: &mut Ctx, i: u64) {
    let mut cfg = model_cfg(ctx);
    cfg.images = true;
    let off = i % 5 == 0;
    let mut g = G::new(ctx.rng.clone(), &cfg);
    let n = g.r.range(1, 3);
    let (mut s, mut h) = (String::new(), String::new());
    let mut want = vec![];
    for k in 0..n {
        if k > 0 {
            let w = g.words(1, 2);
            s += &format!(" {w} ");
            h += &format!(" {w} ");
        }
        let (p, l) = one_image(&mut g, off);
        want.extend(l);
        let (w, v) = (g.word(), g.word());
        let kk = g.r.below(12);
        g.f(&format!("around an image {kk}"));
        let linked = p.s.contains("!:");
        let amb = p.s.contains(['[', '(', '{', '"']);
        let p = match kk {
            0 => pc(format!("{}.", p.s), format!("{}.", p.h)),
            1 => pc(format!("{},", p.s), format!("{},", p.h)),
            2 if !amb => pc(format!("({})", p.s), format!("({})", p.h)),
            3 if !p.s.contains('[') => pc(format!("[{}]", p.s), p.h),
            4 if !p.s.contains('[') && !linked => pc(format!("{w}[{}]{v}", p.s), format!("{w}{}{v}", p.h)),
            8 if !amb && !linked => pc(format!("{w}{{{}}}{v}", p.s), format!("{w}{}{v}", p.h)),
            9 if !amb && !linked => pc(format!("{{{}}}", p.s), p.h),
            5 if !linked && !amb => pc(format!("\"{}\":/u", p.s), format!("<a href=\"/u\"{}>{}</a>", at(&g.rel()), p.h)),
            6 => pc(format!("*{w} {} {v}*", p.s).replace("**", "*"), format!("<strong>{w} {} {v}</strong>", p.h)),
            7 if !amb => pc(format!("({w} {}).", p.s), format!("({w} {}).", p.h)),
            _ => p,
        };
        if kk == 5 && !linked && !amb {
            let at = want.len() - 1;
            want.insert(at, ("a".into(), "/u".into()));
        }
        if kk == 6 && p.s.matches('*').count() != 2 {
            // marks within attributes would make it ambiguous
            return;
        }
        s += &p.s;
        h += &p.h;
    }
    let w = g.words(1, 2);
    let kk = g.r.below(if cfg.lite { 4 } else { 10 });
    g.f(&format!("block {kk}"));
    let br = g.br();
    let (src, html_) = match kk {
        0 => (format!("{w} {s} {w}"), format!("<p>{w} {h} {w}</p>")),
        1 => (format!("{w} {s}"), format!("<p>{w} {h}</p>")),
        2 => (format!("bq. {s}"), format!("<blockquote><p>{h}</p></blockquote>")),
        3 => (format!("{w}\n{s}\n{w}"), format!("<p>{w}{br}{h}{br}{w}</p>")),
        4 => (format!("h3. {s}"), format!("<h3>{h}</h3>")),
        5 => (format!("* {w} {s}\n* {w}"), format!("<ul><li>{w} {h}</li><li>{w}</li></ul>")),
        6 => (format!("|{w} {s}|{w}|"), format!("<table><tr><td>{w} {h}</td><td>{w}</td></tr></table>")),
        7 => (format!("|_. {s}|\n|{w}|"), format!("<table><tr><th>{h}</th></tr><tr><td>{w}</td></tr></table>")),
        8 => (format!("- {w} := {w} {s}"), format!("<dl><dt>{w}</dt><dd>{w} {h}</dd></dl>")),
        _ => (format!("p. {s}"), format!("<p>{h}</p>")),
    };
    ctx.rng = g.r.clone();
    for f in &g.feats {
        ctx.feat(f);
    }
    if cfg.restricted {
        ctx.feat("restricted");
    }
    if off {
        cfg.images = false;
    }
    let out = match ctx.parse(&cfg, &src) {
        Ok(o) => o,
        Err(b) => return ctx.report(&cfg, &src, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(&src);
    let got = hrefs(&out);
    if off {
        ctx.feat("images disabled");
        if got.iter().any(|x| x.0 == "img") {
            return ctx.report(&cfg, &src, bad("image generated though images are disabled", format!("{out:?}")));
        }
        // the source stays readable: the URL of every image can be found in the text
        let (t, _) = html::browser(&out);
        let text = letters(&html::text_of(&t).replace('\u{1f}', ""));
        for (k, u) in &want {
            if k == "img" && !text.contains(&letters(&u.to_ascii_lowercase())) && !text.contains(&letters(u)) {
                return ctx.report(&cfg, &src, bad("source of a disabled image lost", format!("{u:?} not in {out:?}")));
            }
        }
        return;
    }
    if got != want {
        return ctx.report(&cfg, &src, bad("wrong images", format!("expected {want:?} got {got:?} in {out:?}")));
    }
    if let Some(d) = html::diff(&html_, &out) {
        return ctx.report(&cfg, &src, bad("wrong image", d));
    }
    ctx.sample(&cfg, &src, &out);
}
fn letters(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}

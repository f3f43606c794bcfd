//! Properties decided by relating several executions of the parser, or by monitors over its output.
use crate::gen;
use crate::html::{self, Tok};
use crate::mon::*;
use rustextile::{HtmlKind, Textile};

// ---------------------------------------------------------------- C03 URL schemes
pub const SAFE: [&str; 4] = ["http", "https", "ftp", "mailto"];
pub const MORE: [&str; 5] = ["file", "tel", "callto", "sftp", "data"];
const EVIL: &[&str] = &[
    "javascript", "vbscript", "livescript", "about", "blob", "ws", "wss", "view-source", "jar", "mocha", "x-javascript", "chrome", "ms-its", "mhtml", "gopher", "irc", "ssh", "feed",
    "ed2k", "httpx", "http-s", "xhttp", "ftps", "mail", "intent", "smb", "ldap", "resource", "filesystem", "datax", "telnet", "sftpx",
];
/// The scheme a browser would act upon.
pub fn browser_scheme(v: &str) -> Option<String> {
    let s: String = v.trim_matches(|c: char| c <= ' ').chars().filter(|c| !matches!(c, '\t' | '\n' | '\r')).collect();
    let e = s.find(':')?;
    let sc = &s[..e];
    if sc.starts_with(|c: char| c.is_ascii_alphabetic()) && sc.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c)) {
        Some(sc.to_ascii_lowercase())
    } else {
        None
    }
}
fn scheme_ok(v: &str, restricted: bool) -> bool {
    match browser_scheme(v) {
        None => true,
        Some(s) => SAFE.contains(&s.as_str()) || (!restricted && MORE.contains(&s.as_str())),
    }
}
/// A scheme which looks like an allowed one
fn near_scheme(r: &mut Rng) -> String {
    let s = if r.one_in(3) { *r.pick(&MORE) } else { *r.pick(&SAFE) };
    match r.below(6) {
        0 => format!("{}{s}", *r.pick(&["x", "git+", "svn+", "x-", "a.", "h", "s", "java"])),
        1 => format!("{s}{}", *r.pick(&["s", "x", "2", "+x", "-x", ".x", "+unix", "p"])),
        2 => s[1..].to_owned(),
        3 => s[..s.len() - 1].to_owned(),
        4 => {
            let p = r.range(1, s.len() - 1);
            format!("{}{}{}", &s[..p], *r.pick(&["x", "0", "-", "+", "."]), &s[p + 1..])
        }
        _ => format!("{s}{}{}", *r.pick(&["", "+", "-", "."]), *r.pick(&SAFE)),
    }
}
fn url_body(r: &mut Rng, scheme: &str) -> String {
    match scheme {
        "mailto" => "me@example.com".into(),
        "tel" | "callto" => "5551234".into(),
        "data" => "text/plain,abc".into(),
        "http" | "https" | "ftp" | "sftp" => format!("//example.com/{}", gen::ident(r)),
        "file" => format!("///{}", gen::ident(r)),
        _ => match r.below(4) {
            0 => "alert(1)".into(),
            1 => format!("//example.com/{}", gen::ident(r)),
            2 => "//%0aalert(1)".into(),
            _ => gen::ident(r),
        },
    }
}
fn disguise(r: &mut Rng, s: &str) -> String {
    let chars: Vec<char> = s.chars().collect();
    match r.below(12) {
        0 => chars.iter().map(|c| if r.one_in(2) { c.to_ascii_uppercase() } else { *c }).collect(),
        1 => chars.iter().map(|c| if r.one_in(3) { format!("&#{};", *c as u32) } else { c.to_string() }).collect(),
        2 => chars.iter().map(|c| if r.one_in(3) { format!("&#x{:x};", *c as u32) } else { c.to_string() }).collect(),
        3 => chars.iter().map(|c| if r.one_in(3) { format!("%{:02x}", *c as u32) } else { c.to_string() }).collect(),
        4 => {
            let p = r.below(chars.len() + 1);
            let x = *r.pick(&["\u{1}", "\u{8}", "\0", "\u{b}", "\u{ad}", "\u{200b}", "\u{feff}", "\t", "\n", "\u{a0}", "\\", "/", "\"", "'", "<", ">", "==", "@", "&", "&Tab;", "&NewLine;", "&#9;", "&colon;", "_", "*", "(", ")", "[", "]"]);
            let mut o: String = chars[..p].iter().collect();
            o += x;
            o.extend(&chars[p..]);
            o
        }
        5 => format!("{}{s}", *r.pick(&["\u{1}", "\u{1f}", "&#1;", "&#32;", "./", "//", "\\", "http:", "?", "#", "/", "amp;", "&amp;"])),
        _ => s.to_owned(),
    }
}
fn url_form(r: &mut Rng, u: &str, i: usize, images: bool) -> (String, String) {
    let w = gen::word(r);
    let _ = images;
    match r.below(11) {
        0 | 1 => (format!("\"{w}\":{u}"), String::new()),
        2 => (format!("[\"{w}\":{u}]"), String::new()),
        3 => (format!("\"$\":{u}"), String::new()),
        4 => (format!("!{u}!"), String::new()),
        5 => (format!("!{u}({w})!"), String::new()),
        6 => (format!("!/{w}.png!:{u}"), String::new()),
        7 => (format!("!{u}!:{u}"), String::new()),
        8 => (format!("\"!{u}!\":{u}"), String::new()),
        9 => (format!("\"(cls){w}(title)\":{u}"), String::new()),
        _ => (format!("\"{w}\":al{i}"), format!("[al{i}]{u}")),
    }
}
fn c03_hrefs(ctx: &mut Ctx, cfg: &Cfg, out: &str) -> Result<(), Bad> {
    for t in html::browser(out).0 {
        if let Tok::Start(n, a) = t {
            for (k, v) in a {
                if (n == "a" && k == "href") || (n == "img" && k == "src") {
                    ctx.evals += 1;
                    ctx.feat(&format!("{n} {k}"));
                    if !scheme_ok(&v, cfg.restricted) {
                        return bad("URL scheme is not allowed", format!("<{n} {k}={v:?}>\n  output: {out}"));
                    }
                }
            }
        }
    }
    Ok(())
}
fn c03_check(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    if !cfg.restricted && (src.contains('<') || src.contains("==") || src.contains("notextile")) {
        return Ok(()); // raw HTML is the author's own
    }
    let out = ctx.parse(cfg, src)?;
    ctx.nontrivial(src);
    c03_hrefs(ctx, cfg, &out)?;
    ctx.sample(cfg, src, &out);
    Ok(())
}
pub fn c03(ctx: &mut Ctx, i: u64) {
    let mut cfg = Cfg::random(&mut ctx.rng);
    if i % 3 == 0 {
        // one construct, a plain URL: known in advance what has to happen
        cfg.images = true;
        cfg.block_tags = true;
        let all: Vec<&str> = SAFE.iter().chain(MORE.iter()).chain(EVIL.iter()).copied().collect();
        let s = match ctx.rng.below(5) {
            0 | 1 => all[ctx.rng.below(9)].to_owned(),
            2 => near_scheme(&mut ctx.rng),
            _ => (*ctx.rng.pick(&all)).to_owned(),
        };
        let s = s.as_str();
        let spelled = if ctx.rng.one_in(4) { s.to_uppercase() } else { s.to_owned() };
        let mut u = format!("{spelled}:{}", url_body(&mut ctx.rng, s).replace("%0a", "h/"));
        if ctx.rng.one_in(12) {
            u = format!("/{}", gen::ident(&mut ctx.rng));
        }
        let relative = u.starts_with('/');
        let form = ctx.rng.below(5);
        if form >= 2 && u.contains('(') {
            u = u.replace('(', "x").replace(')', "x");
        }
        let (src, want_a, want_img) = match form {
            0 => (format!("foo \"bar\":{u} baz"), 1, 0),
            1 => (format!("foo \"bar\":al baz\n\n[al]{u}"), 1, 0),
            2 => (format!("foo !{u}! baz"), 0, 1),
            3 => (format!("foo !/a.png!:{u} baz"), 1, 1),
            _ => (format!("foo [\"$\":{u}] baz"), 1, 0),
        };
        let allowed = relative || SAFE.contains(&s) || (!cfg.restricted && MORE.contains(&s));
        ctx.feat(&format!("{} scheme {}", if allowed { "allowed" } else { "forbidden" }, if relative { "(relative)" } else { s }));
        let r = match ctx.parse(&cfg, &src) {
            Err(b) => Err(b),
            Ok(out) => {
                let toks = html::browser(&out).0;
                let count = |n: &str| toks.iter().filter(|t| matches!(t, Tok::Start(m, _) if m == n)).count();
                let (a, im) = (count("a"), count("img"));
                ctx.nontrivial(&src);
                match c03_hrefs(ctx, &cfg, &out) {
                    Err(e) => Err(e),
                    Ok(()) if allowed && (a, im) != (want_a, want_img) => bad("link with an allowed scheme was not generated", format!("{src:?} -> {out}")),
                    // a definition of an alias which is refused is plain text, its use is a relative link
                    Ok(()) if !allowed && form == 1 => {
                        if html::text_of(&toks).replace('\u{1f}', "").contains(&format!("[al]{u}")) { Ok(()) } else { bad("the text of a refused alias is gone", out) }
                    }
                    Ok(()) if !allowed && (a, im) != (0, 0) => bad("link with a forbidden scheme was generated", format!("{src:?} -> {out}")),
                    Ok(()) if !allowed && !html::text_of(&toks).contains(u.split(['(', '-']).next().unwrap()) => bad("the text of a refused link is gone", format!("{src:?} -> {out}")),
                    Ok(()) => Ok(()),
                }
            }
        };
        ctx.report(&cfg, &src, r);
        return;
    }
    let src = if ctx.rng.one_in(4) {
        // schemes in hostile surroundings
        let mut s = gen::hostile(&mut ctx.rng);
        for _ in 0..ctx.rng.range(1, 3) {
            let near = near_scheme(&mut ctx.rng);
            let sc = if ctx.rng.one_in(3) { near.as_str() } else { *ctx.rng.pick(EVIL) };
            let b = url_body(&mut ctx.rng, sc);
            let u = disguise(&mut ctx.rng, &format!("{sc}:{b}"));
            let (f, d) = url_form(&mut ctx.rng, &u, 1, true);
            let mut p = ctx.rng.below(s.len() + 1);
            while !s.is_char_boundary(p) {
                p -= 1;
            }
            s.insert_str(p, &f);
            if !d.is_empty() {
                s = format!("{s}\n\n{d}\n\n");
            }
        }
        if !cfg.restricted { s.replace('<', "").replace("==", "=").replace("notextile", "n") } else { s }
    } else {
        let n = ctx.rng.range(1, 4);
        let mut s = String::new();
        let mut defs = String::new();
        for k in 0..n {
            let sc = if ctx.rng.one_in(3) { *ctx.rng.pick(&["javascript", "data", "vbscript", "file"]) } else { *ctx.rng.pick(EVIL) };
            let b = url_body(&mut ctx.rng, sc);
            let u = disguise(&mut ctx.rng, &format!("{sc}:{b}"));
            let (f, d) = url_form(&mut ctx.rng, &u, k, true);
            s += &f;
            s += *ctx.rng.pick(&[" ", " ", "\n", "\n\n", "\n* ", "|"]);
            if !d.is_empty() {
                defs += &d;
                defs += "\n";
            }
        }
        if ctx.rng.one_in(2) { format!("{s}\n\n{defs}") } else { format!("{defs}\n{s}") }
    };
    ctx.judge(&cfg, &src, c03_check);
}

// ---------------------------------------------------------------- C04 sanitizing
const AM_TAGS: &[&str] = &[
    "a", "abbr", "acronym", "area", "article", "aside", "b", "bdi", "bdo", "blockquote", "br", "caption", "center", "cite", "code", "col", "colgroup", "data", "dd", "del", "details", "dfn", "div", "dl",
    "dt", "em", "figcaption", "figure", "footer", "h1", "h2", "h3", "h4", "h5", "h6", "header", "hgroup", "hr", "i", "img", "ins", "kbd", "li", "map", "mark", "nav", "ol", "p", "pre", "q", "rp", "rt", "rtc",
    "ruby", "s", "samp", "small", "span", "strike", "strong", "sub", "summary", "sup", "table", "tbody", "td", "th", "thead", "time", "tr", "tt", "u", "ul", "var", "wbr", "tfoot",
];
const AM_SCHEMES: &[&str] = &[
    "bitcoin", "ftp", "ftps", "geo", "http", "https", "im", "irc", "ircs", "magnet", "mailto", "mms", "mx", "news", "nntp", "openpgp4fpr", "sip", "sms", "smsto", "ssh", "tel", "url", "webcal", "wtai", "xmpp",
];
fn br_norm(s: &str) -> String {
    s.replace("<br />", "<br>").replace('\n', "")
}
fn clean(s: &str) -> String {
    rustextile::ammonia::Builder::default().link_rel(None).clean(s).to_string()
}
/// The same up to white space, which is trimmed off the end of the output after sanitizing
fn same_clean(cleaner: fn(&str) -> String, plain: &str, got: &str) -> bool {
    let got = br_norm(got);
    [plain.to_owned(), format!("{plain}\n")].iter().any(|p| br_norm(&cleaner(p)) == got)
}
fn clean2(s: &str) -> String {
    let mut b = rustextile::ammonia::Builder::default();
    b.link_rel(Some("noopener")).add_generic_attributes(&["id", "class"]).rm_tags(&["b", "img"]);
    b.clean(s).to_string()
}
fn c04_check(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    let mut plain = cfg.clone();
    plain.sanitize = false;
    let mut san = cfg.clone();
    san.sanitize = true;
    let out0 = ctx.parse(&plain, src)?;
    let out1 = ctx.parse(&san, src)?;
    if src.trim().is_empty() {
        return Ok(());
    }
    ctx.evals += 1;
    let want = clean(&out0);
    if !same_clean(clean, &out0, &out1) {
        return bad("not what the sanitizer makes of the plain output", format!("plain: {out0}\n  expected: {want}\n  sanitized: {out1}"));
    }
    for t in html::browser(&out1).0 {
        match t {
            Tok::Start(n, a) => {
                ctx.evals += 1;
                if !AM_TAGS.contains(&n.as_str()) {
                    return bad("element outside of the policy", format!("<{n}>\n  output: {out1}"));
                }
                for (k, v) in a {
                    if k.starts_with("on") || k == "style" || k == "id" || k == "class" && n != "x" {
                        return bad("attribute outside of the policy", format!("<{n} {k}={v:?}>\n  output: {out1}"));
                    }
                    if k == "href" || k == "src" {
                        if let Some(s) = browser_scheme(&v) {
                            if !AM_SCHEMES.contains(&s.as_str()) {
                                return bad("scheme outside of the policy", format!("<{n} {k}={v:?}>\n  output: {out1}"));
                            }
                        }
                    }
                }
            }
            Tok::Comment(_) => return bad("comment in sanitized output", out1.clone()),
            _ => {}
        }
    }
    if want != out0 {
        ctx.nontrivial(src);
        ctx.feat("something was removed");
    }
    ctx.sample(&san, src, &out1);
    Ok(())
}
fn c04_adjusted(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    let mut plain = cfg.clone();
    plain.sanitize = false;
    let out0 = ctx.parse(&plain, src)?;
    if src.trim().is_empty() {
        return Ok(());
    }
    let conf = |t: Textile| t.adjust_sanitizer(|s| s.link_rel(Some("noopener")).add_generic_attributes(&["id", "class"]).rm_tags(&["b", "img"]));
    // the order of the calls must not matter
    let t = if src.len() % 2 == 0 { conf(plain.build()) } else { plain.apply_but_sanitize(conf(Textile::default())) };
    let out1 = ctx.run_on(&t, cfg, src)?;
    ctx.evals += 1;
    let want = clean2(&out0);
    if !same_clean(clean2, &out0, &out1) {
        return bad("the user's configuration of the sanitizer is not respected", format!("plain: {out0}\n  expected: {want}\n  sanitized: {out1}"));
    }
    ctx.feat("adjusted sanitizer");
    // off again
    let t = t.set_sanitize(false);
    let out2 = ctx.run_on(&t, cfg, src)?;
    if out2 != out0 {
        return bad("switching the sanitizer off does not restore the output", format!("{out0}\n  vs {out2}"));
    }
    // plain sanitizing replaces the adjusted one
    let t = t.set_sanitize(true);
    let out3 = ctx.run_on(&t, cfg, src)?;
    if !same_clean(clean, &out0, &out3) {
        return bad("not what the sanitizer makes of the plain output", format!("plain: {out0}\n  sanitized: {out3}"));
    }
    // and the last configuration is the one in force
    let t = conf(t.adjust_sanitizer(|s| s.rm_tags(&["p", "strong"])));
    let out4 = ctx.run_on(&t, cfg, src)?;
    if !same_clean(clean2, &out0, &out4) {
        return bad("the last configuration of the sanitizer is not respected", format!("plain: {out0}\n  expected: {want}\n  sanitized: {out4}"));
    }
    Ok(())
}
pub fn c04(ctx: &mut Ctx, _i: u64) {
    let mut cfg = Cfg::random(&mut ctx.rng);
    cfg.restricted = ctx.rng.one_in(4);
    let src = match ctx.rng.below(3) {
        0 => gen::hostile(&mut ctx.rng),
        1 => crate::props::evil_doc(&mut ctx.rng),
        _ => {
            let k = ctx.rng.range(1, 6);
            let l = gen::lines(&mut ctx.rng, k);
            let e = *ctx.rng.pick(crate::props::EVIL);
            let marks: Vec<usize> = l.char_indices().map(|x| x.0).collect();
            let p = if marks.is_empty() { 0 } else { *ctx.rng.pick(&marks) };
            format!("{}{}{}", &l[..p], e, &l[p..])
        }
    };
    if ctx.rng.one_in(8) {
        ctx.judge(&cfg, &src, c04_adjusted);
    } else {
        ctx.judge(&cfg, &src, c04_check);
    }
}

// ---------------------------------------------------------------- C05 placeholders
const KINDS: [&str; 6] = [":shelve", ":url", ":ospan ", ":cspan", "linkStartMarker:\"", ":glyph:"];
fn leak(out: &str, uid: &str) -> Option<String> {
    let full = format!("textileRef:{uid}:");
    if out.contains(&full) {
        return Some(full);
    }
    None
}
fn c05_clean(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    // nothing in the text resembles a placeholder
    if src.contains("textileRef") {
        return Ok(());
    }
    let out = ctx.parse(cfg, src)?;
    ctx.evals += 1;
    ctx.nontrivial(src);
    for k in ["textileRef"] {
        if out.contains(k) {
            return bad("placeholder in the output", out);
        }
    }
    for k in KINDS {
        let k = k.trim().trim_end_matches('"');
        if out.contains(k) && !src.contains(k) {
            return bad("placeholder in the output", out);
        }
    }
    // another uid
    let mut other = cfg.clone();
    other.uid = match ctx.rng.below(8) {
        0 => "qwrt".into(),
        // special in regular expressions or their replacements
        4 => (*ctx.rng.pick(&["q.w", "q$1", "$2q", "$0", "q$", "q\\d"])).into(),
        1 => format!("{:x}", 0xabc0000000u64 + ctx.rng.next() % 0xffff),
        2 => "Zz".into(),
        _ => "a-b".into(),
    };
    if src.contains(&other.uid) || src.contains(&cfg.uid) {
        return Ok(());
    }
    let out2 = if ctx.rng.one_in(8) {
        // given to a parser which has been used already
        let t = cfg.build();
        ctx.run_on(&t, cfg, src)?;
        ctx.feat("uid of a used parser changed");
        let t = t.set_uid(&other.uid);
        ctx.run_on(&t, &other, src)?
    } else {
        ctx.parse(&other, src)?
    };
    ctx.evals += 1;
    let a = out.replace(&format!("{}-", cfg.uid), "\u{1}-");
    let b = out2.replace(&format!("{}-", other.uid), "\u{1}-");
    if a != b {
        return bad("the uid changes more than ids", format!("{out}\n  with {:?}: {out2}", other.uid));
    }
    if a != out {
        ctx.feat("ids renamed");
    }
    Ok(())
}
/// Words of the form of `mark(n)`
pub fn mark(n: usize) -> String {
    let mut s = String::from("qj");
    let mut k = n;
    for _ in 0..3 {
        s.push((b'a' + (k % 20) as u8) as char);
        k /= 20;
    }
    s.push_str("vq");
    s
}
pub fn marks_in(s: &str) -> Vec<String> {
    let mut v = vec![];
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i + 7 <= b.len() {
        if b[i] == 'q' && b[i + 1] == 'j' && b[i + 5] == 'v' && b[i + 6] == 'q' {
            v.push(b[i..i + 7].iter().collect());
            i += 7;
        } else {
            i += 1;
        }
    }
    v
}
fn c05_forged(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    let out = ctx.parse(cfg, src)?;
    ctx.evals += 1;
    ctx.nontrivial(src);
    ctx.feat("forged placeholders");
    if let Some(x) = leak(&out, &cfg.uid) {
        return bad("placeholder in the output", format!("{x} in {out}"));
    }
    // nothing stored away can be shown twice by naming its placeholder
    let text = html::text_of(&html::browser(&out).0);
    let seen = marks_in(&text);
    for (i, m) in seen.iter().enumerate() {
        if seen[..i].contains(m) && marks_in(src).iter().filter(|x| *x == m).count() < 2 {
            return bad("a forged placeholder shows stored text", format!("{m} twice in {out}"));
        }
    }
    Ok(())
}
fn forged(r: &mut Rng, uid: &str) -> String {
    let u = format!("textileRef:{uid}:");
    let k = *r.pick(&KINDS);
    let n = r.range(0, 9);
    let body = match k {
        ":glyph:" => k.to_owned(),
        "linkStartMarker:\"" => format!("{k}x\":/y "),
        _ => format!("{n}{k}"),
    };
    match r.below(8) {
        0 => {
            // assembled when an inner one is removed
            let p = r.range(1, u.len() - 1);
            format!("{}{u}{}{body}", &u[..p], &u[p..])
        }
        1 => {
            let p = r.range(1, u.len() - 1);
            let q = r.range(1, u.len() - 1);
            format!("{}{}{u}{}{}{body}", &u[..p], &u[..q], &u[q..], &u[p..])
        }
        2 => format!(" {u}{body} "),
        3 => format!("{u}{u}{body}"),
        _ => format!("{u}{body}"),
    }
}
/// Each of many fragments put aside comes back at its own place.
fn c05_many(ctx: &mut Ctx, mut cfg: Cfg) {
    cfg.lite = false;
    cfg.block_tags = true;
    cfg.images = true;
    cfg.rel = None;
    let n = *ctx.rng.pick(&[12, 60, 110, 140, 270, 300, 520]);
    let block = ctx.rng.one_in(2);
    let (mut s, mut h) = (String::new(), String::new());
    let (mut ps, mut ph) = (String::new(), String::new());
    for j in 0..n {
        let (a, b) = match ctx.rng.below(6) {
            0 => (format!("@c{j}@"), format!("<code>c{j}</code>")),
            1 => (format!("\"l{j}\":/u{j}"), format!("<a href=\"/u{j}\">l{j}</a>")),
            2 => (format!("*s{j}*"), format!("<strong>s{j}</strong>")),
            3 => (format!("==n{j}=="), format!("n{j}")),
            4 => (format!("!/i{j}.png(t{j})!"), format!("<img alt=\"t{j}\" src=\"/i{j}.png\" title=\"t{j}\" />")),
            _ => (format!("_e{j}_"), format!("<em>e{j}</em>")),
        };
        if !ps.is_empty() {
            ps.push(' ');
            ph.push(' ');
        }
        ps += &a;
        ph += &b;
        if j + 1 == n || (block && ctx.rng.one_in(4)) {
            if !s.is_empty() {
                s += "\n\n";
                h += "\n\n";
            }
            s += &format!("p. {ps}");
            h += &format!("<p>{ph}</p>");
            ps.clear();
            ph.clear();
        }
    }
    ctx.feat("many placeholders");
    let out = match ctx.parse(&cfg, &s) {
        Ok(o) => o,
        Err(b) => return ctx.report(&cfg, &s, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(&s);
    if let Some(d) = html::diff(&h, &out) {
        ctx.report(&cfg, &s, bad("fragments of a large document got mixed up", d));
    }
}
fn nested_pieces(r: &mut Rng) -> String {
    let w = gen::word(r);
    let mut s = r.pick(&["@c@", "==n==", "<code>c</code>", "<notextile>n</notextile>", "!i.png(==n==)!", "@c@ ==n== @d@", "!i.png(a)!:/v"]).to_string();
    for _ in 0..r.range(2, 5) {
        s = match r.below(12) {
            0 | 1 => format!("\"l {s} {w}\":/u"),
            2 => format!("{w} (\"q {s}) {w}"),
            3 => format!("{w} [\"q {s} {w}] {w}"),
            4 => format!("{w} '\"q {s}' {w}"),
            5 => format!("<code>{s}</code>"),
            6 => format!("=={s}=="),
            7 => format!("*{s}* <b title=\"{w}\">{s}</b>"),
            8 => format!("<notextile>{s}</notextile> {s}"),
            9 => format!("!i.png({s})!:/u"),
            10 => format!("%{{color:red}}{s}%[1]"),
            _ => format!("<a href=\"/x\">{s}</a>"),
        };
    }
    match r.below(8) {
        0 => format!("|{s}|{w}|"),
        1 => format!("note#n. {s}\n\n{w}[#n]\n\nnotelist."),
        2 => format!("fn1. {s}\n\n{w}[1]"),
        3 => format!("* {s}\n** {s}"),
        4 => format!("- {w} := {s}"),
        5 => format!("bq.. {s}\n\n{s}\n\np. {w}"),
        _ => s,
    }
}
pub fn c05(ctx: &mut Ctx, _i: u64) {
    let mut cfg = Cfg::random(&mut ctx.rng);
    cfg.uid = (*ctx.rng.pick(&["xyz", "xyz", "abc", "1f3a", "k"])).to_owned();
    if ctx.rng.one_in(100) {
        c05_many(ctx, cfg);
    } else if ctx.rng.one_in(20) {
        // pieces within pieces within pieces
        ctx.feat("nested pieces");
        cfg.uid = "xyz".into();
        let src = nested_pieces(&mut ctx.rng);
        ctx.judge(&cfg, &src, c05_clean);
    } else if ctx.rng.one_in(2) {
        let src = if ctx.rng.one_in(4) { ctx.rng.pick(gen::corpus()).1.clone() } else { gen::hostile(&mut ctx.rng) };
        cfg.uid = "xyz".into();
        let src = src.replace("textileRef", "tr").replace("linkStartMarker:", "").replace(":glyph:", "").replace(":shelve", "").replace(":url", "");
        ctx.judge(&cfg, &src, c05_clean);
    } else {
        let n = ctx.rng.range(1, 5);
        let mut s = String::new();
        for k in 0..n {
            let f = forged(&mut ctx.rng, &cfg.uid);
            let m = mark(k);
            let w = gen::word(&mut ctx.rng);
            s += &match ctx.rng.below(14) {
                0 => format!("@{m}@ {f}"),
                1 => format!("\"{w} {f}\":/u *{m}*"),
                2 => format!("\"{m}\":/{w}{f}"),
                3 => format!("!/{w}{f}.png! =={m}=="),
                4 => format!("!/{w}.png(a {f} b)! @{m}@"),
                5 => format!("*{m} {f}* _{w}_"),
                6 => format!("@{f}@ @{m}@"),
                7 => format!("=={f}== @{m}@"),
                8 => format!("\n\nbc. {m} {f}\n\n"),
                9 => format!("\n\n|{f}|@{m}@|\n\n"),
                10 => format!("<pre>{f} {m}</pre>"),
                11 => format!("*({f}){w}* @{m}@"),
                12 => format!("ABC({f}) @{m}@"),
                _ => format!("{f} {w} =={m}=="),
            };
            s.push(' ');
        }
        ctx.judge(&cfg, &s, c05_forged);
    }
}

// ---------------------------------------------------------------- C06 purity
pub fn c06_input(r: &mut Rng) -> String {
    match r.below(5) {
        0 => r.pick(gen::corpus()).1.chars().take(600).collect(),
        1 => "a[#n] b[#m!] c[1] d[2]\n\nnote#n. *x*\n\nnote#m. y\n\nnotelist. \n\nfn1. z\n\nfn2^. q\n\n# a\n# b\n\n#_ c\n\n[al]http://a.b/\n\n\"l\":al".to_owned(),
        _ => gen::hostile(r),
    }
}
/// Every setting makes a difference for this text.
const PROBE: &str = "h2(c). A _b_\nc ABC(title) \"l\":/u <b onclick=\"x\">d</b>\n\n<x-y>raw *e*</x-y>\n\n!<(k)/i.png(f)!:/v and !=/j.png!\n\n# a\n# b\n\n#_ c\n## d\n##_ e\n\n|_. h|=. i|\n\nbc. f < g\n\nx[1] y[#n] z[#m]\n\nfn1^. one\n\nnote#n. two\n\nnotelist.\n\n<script>alert(1)</script> @co@ ==no==\n\n- t := d\n\n!http://127.0.0.1:9/i.png!\n\n*a _b -c +d ^e %f ~g~ f% e^ d+ c- b_ a* it's \"q\" -- ... 3x4 (c) (1/2)\n\n[al]http://a.b/c?d=e&f\n\n\"al\":al and \"$\":http://a.b/ and \"t(ti)\":mailto:a@b.c\n\nbq.. one\n\ntwo\n\np(x#y){color:red}[en]>. three\n\nclear<.\n\ntable(t). sum\n|=(q). cap|\n|:\\\\2. 30|20|\n|^.\n|_. a|b|\n|-(r).\n|\\\\2(c)/2^>. d|\n\n* a\n** b\n*** c\n**** d\n***** e\n\n;(k) t\n: d\n\n###. note\n\npre. x  y\n\nnotextile. <i>z</i>\n\n%{color:red}k% @l@[2] <!-- m -->\n\nfn2. n\n\nnote#m(z). w\n\nnotelist(j):a!.";
pub fn c06(ctx: &mut Ctx, i: u64) {
    // a pool of few texts makes repetitions likely
    let n = ctx.rng.range(2, 4);
    let mut texts: Vec<String> = (0..n).map(|_| c06_input(&mut ctx.rng)).collect();
    if ctx.rng.one_in(2) {
        texts[0] = PROBE.to_owned();
        texts.truncate(2);
    }
    let k = ctx.rng.range(1, 2);
    let threads = if i % 16 == 0 { ctx.rng.range(2, 4) } else { 0 };
    // (settings in force, text, output)
    let mut log: Vec<(Cfg, usize, String)> = vec![];
    for _ in 0..k {
        let mut cfg = Cfg::random(&mut ctx.rng);
        if ctx.rng.one_in(3) {
            cfg.align = None;
        }
        let mut t = cfg.build();
        let steps = ctx.rng.range(2, 6);
        for _ in 0..steps {
            // change some settings, in a random order, each possibly through detours
            let m = ctx.rng.below(4);
            for _ in 0..m {
                let detour = ctx.rng.one_in(2);
                let b = ctx.rng.one_in(2);
                t = match ctx.rng.below(10) {
                    9 => t.set_getting_image_size(true).set_getting_image_size(false),
                    0 => {
                        cfg.restricted = b;
                        (if detour { t.set_restricted(!b) } else { t }).set_restricted(b)
                    }
                    1 => {
                        cfg.lite = b;
                        (if detour { t.set_lite(!b) } else { t }).set_lite(b)
                    }
                    2 => {
                        cfg.xhtml = b;
                        (if detour { t.set_html_kind(if b { HtmlKind::HTML5 } else { HtmlKind::XHTML }) } else { t }).set_html_kind(cfg.kind())
                    }
                    3 => {
                        cfg.images = b;
                        (if detour { t.set_images(!b) } else { t }).set_images(b)
                    }
                    4 => {
                        cfg.block_tags = b || ctx.rng.one_in(2);
                        (if detour { t.set_block_tags(!cfg.block_tags) } else { t }).set_block_tags(cfg.block_tags)
                    }
                    5 => {
                        cfg.raw = b;
                        (if detour { t.set_raw_blocks(!b) } else { t }).set_raw_blocks(b)
                    }
                    6 => {
                        cfg.rel = if b { Some("nofollow".into()) } else { None };
                        (if detour { t.set_rel(Some("x")) } else { t }).set_rel(cfg.rel.as_deref())
                    }
                    7 => {
                        cfg.align = Some(b);
                        (if detour { t.set_align_class(!b) } else { t }).set_align_class(b)
                    }
                    _ => {
                        cfg.uid = (*ctx.rng.pick(&["xyz", "abc", "0f"])).to_owned();
                        (if detour { t.set_uid("other") } else { t }).set_uid(&cfg.uid)
                    }
                };
                ctx.feat("setting changed");
            }
            if ctx.rng.one_in(6) {
                cfg.sanitize = !cfg.sanitize;
                t = match ctx.rng.below(3) {
                    0 => t.set_sanitize(!cfg.sanitize).set_sanitize(cfg.sanitize),
                    1 => t.adjust_sanitizer(|s| s.rm_tags(&["p", "a"])).set_sanitize(cfg.sanitize),
                    _ => t.set_sanitize(cfg.sanitize),
                };
                ctx.feat("sanitizing switched");
            }
            let j = ctx.rng.below(texts.len());
            match ctx.run_on(&t, &cfg, &texts[j]) {
                Ok(o) => log.push((cfg.clone(), j, o)),
                Err(b) => {
                    ctx.report(&cfg, &texts[j], Err(b));
                    return;
                }
            }
        }
    }
    if threads > 0 {
        let mut hs = vec![];
        for k in 0..threads {
            let texts = texts.clone();
            let cfg = Cfg::random(&mut ctx.rng);
            let seed = ctx.rng.next();
            hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let mut r = Rng::new(seed, k as u64);
                let t = cfg.build();
                let mut l = vec![];
                for _ in 0..4 {
                    let j = r.below(texts.len());
                    let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.parse(&texts[j]))).unwrap_or_else(|_| "PANIC".into());
                    l.push((cfg.clone(), j, o));
                }
                l
            }).unwrap());
        }
        for h in hs {
            log.extend(h.join().unwrap());
        }
        ctx.feat("concurrent threads");
    }
    for (cfg, j, out) in log {
        ctx.evals += 1;
        let r = match reference(&cfg, &texts[j]) {
            Some(want) if want == out => Ok(()),
            Some(want) => bad("the output depends on the history", format!("in a new process: {want}\n  after other work: {out}")),
            None => Ok(()),
        };
        if let Err(b) = r {
            ctx.fail(&b.what, &cfg, &texts[j], b.detail);
            return;
        }
        ctx.feat("outputs compared with a new process");
        ctx.nontrivial(&format!("{:?}{}", cfg, texts[j]));
        ctx.sample(&cfg, &texts[j], &out);
    }
}

/// Asks a process which has parsed nothing else.
pub fn reference(cfg: &Cfg, src: &str) -> Option<String> {
    use std::cell::RefCell;
    use std::io::{BufRead, Write};
    thread_local! {
        static Z: RefCell<Option<(std::process::Child, std::io::BufReader<std::process::ChildStdout>)>> = RefCell::new(None);
    }
    Z.with(|z| {
        let mut z = z.borrow_mut();
        if z.is_none() {
            let mut c = std::process::Command::new(std::env::current_exe().unwrap()).arg("zygote").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().unwrap();
            let o = c.stdout.take().unwrap();
            *z = Some((c, std::io::BufReader::new(o)));
        }
        let (c, o) = z.as_mut().unwrap();
        let q = serde_json::json!({"config": cfg.json(), "input": src}).to_string();
        writeln!(c.stdin.as_mut().unwrap(), "{q}").unwrap();
        let mut l = String::new();
        o.read_line(&mut l).unwrap();
        let v: serde_json::Value = serde_json::from_str(&l).expect("reference process");
        v["output"].as_str().map(|s| s.to_owned())
    })
}
/// Serves every request from a fork of itself that never parsed anything but one document with all regular
/// expressions in it (compiling them again each time would take too long).
pub fn zygote() {
    use std::io::{BufRead, Write};
    install_panic_hook();
    for f in gen::corpus().iter() {
        let _ = std::panic::catch_unwind(|| Textile::default().set_uid("zyg").parse(&f.1));
    }
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = match l { Ok(l) => l, Err(_) => return };
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                let v: serde_json::Value = serde_json::from_str(&l).unwrap();
                let cfg = Cfg::from_json(&v["config"]);
                let src = v["input"].as_str().unwrap().to_owned();
                let o = std::panic::catch_unwind(|| cfg.build().parse(&src)).unwrap_or_else(|_| "PANIC".into());
                let s = serde_json::json!({"output": o}).to_string() + "\n";
                let mut f = std::io::stdout();
                let _ = f.write_all(s.as_bytes());
                let _ = f.flush();
                libc::_exit(0);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if st != 0 {
                println!("{{}}");
            }
        }
    }
}

// ---------------------------------------------------------------- C07 conservation of text
/// Marks that never hide text by definition
const MARKS: &[&str] = &[
    "*", "**", "_", "__", "-", "+", "%", "~", "^", "??", "@", "\"", "'", "==", "--", "...", " - ", "(", ")", "[", "]", "{", "}", "|", "\n", "\n", "\n\n", "\n* ", "\n# ", "\n** ", "\n#* ", "\n*** ", "\n### ", "\n*", "\n#", "\n; ", "\n: ", "\n\nh1. ",
    "\n\nbq. ", "\n\nbq.. ", "\n\np. ", "\n\nbc. ", "\n\npre. ", "\n\nfn1. ", "\n\np(cl). ", "\n\nh2{color:red}. ", "\n\np=. ", "\n|", "|\n|", "|_. ", "|\\2. ", "|^. ", "\n\n|", "|\n\n", "\n|^.\n|", "\n|-.\n|", "\n|~.\n|", "&", "< ", ">", "&amp;", "(c)", "(tm)", "[1]",
    "1x2", "3\"", "é", "福", "ABC ", "\":/u ", "\":http://a.b/c ", ".", ",", ";", ":", "! ", "?", "\\", "/", "=", "#", "$", "\n\n#_ ", "\n#5 ", "[1/2]", "\t", "*(cl)", "_[fr]", "%{color:red}", "\n\nbq.:/u ", "\n- ", "\n=:", "[\"", "\":/v] ", "([", "])",
];
const HTML_MARKS: &[&str] = &["<b>", "</b>", "<br>", "<div>", "</div>", "<p>", "</p>", "<em class=\"x\">", "</em>", "<!-- x -->", "<hr>", "<span>", "</span>", "<table>", "</table>"];
pub fn c07_check(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    if tame(src, cfg.restricted) != src {
        return Ok(());
    }
    let out = ctx.parse(cfg, src)?;
    let want = marks_in(src);
    let toks = html::browser(&out).0;
    let text = html::text_of(&toks);
    let got = marks_in(&text);
    ctx.evals += want.len() as u64;
    ctx.nontrivial(src);
    // the number of elements generated tells that the marks meant something
    let el = toks.iter().filter(|t| matches!(t, Tok::Start(n, _) if n != "p" && n != "br")).count();
    if el > 0 {
        ctx.feat("marked up");
    }
    if got != want {
        let lost: Vec<&String> = want.iter().filter(|w| !got.contains(w)).collect();
        let mut dup: Vec<&String> = got.iter().enumerate().filter(|(i, w)| got[..*i].contains(w)).map(|x| x.1).collect();
        dup.dedup();
        let what = if !lost.is_empty() { "text got lost" } else if !dup.is_empty() { "text got duplicated" } else { "text got reordered" };
        return bad(what, format!("lost {lost:?} duplicated {dup:?}\n  output: {out}"));
    }
    ctx.sample(cfg, src, &out);
    Ok(())
}
pub fn c07(ctx: &mut Ctx, i: u64) {
    let mut cfg = Cfg::random(&mut ctx.rng);
    cfg.images = true;
    if i % 3 == 0 {
        // well-formed documents of all kinds
        cfg.raw = false;
        cfg.block_tags = true;
        let mut g = crate::model::G::new(ctx.rng.clone(), &cfg);
        g.mark = Some(0);
        let n = crate::models::size(&mut g, 5, 60);
        let p = crate::blocks::join(&g.doc(n, crate::model::RICH));
        ctx.rng = g.r.clone();
        if n > 5 {
            ctx.feat("large document");
        }
        let (cfg2, src) = (cfg.clone(), p.s.clone());
        let out = match ctx.parse(&cfg2, &src) {
            Ok(o) => o,
            Err(b) => return ctx.report(&cfg2, &src, Err(b)),
        };
        let want = marks_in(&html::text_of(&html::browser(&p.h).0));
        let got = marks_in(&html::text_of(&html::browser(&out).0));
        ctx.evals += want.len() as u64;
        ctx.nontrivial(&src);
        ctx.feat("well-formed document");
        if want != got {
            ctx.report(&cfg2, &src, bad("text of a well-formed document got lost, duplicated or reordered", format!("expected {want:?}\n  got {got:?}\n  output: {out}")));
        }
        return;
    }
    let n = ctx.rng.range(2, 14);
    let k = ctx.rng.range(2, 8);
    let fav: Vec<&str> = (0..k).map(|_| *ctx.rng.pick(MARKS)).collect();
    let mut s = String::new();
    for j in 0..n {
        let m = ctx.rng.below(3);
        for _ in 0..m {
            if ctx.rng.one_in(15) {
                s.push_str(*ctx.rng.pick(HTML_MARKS));
            } else if ctx.rng.one_in(2) {
                s.push_str(*ctx.rng.pick(&fav));
            } else {
                s.push_str(*ctx.rng.pick(MARKS));
            }
        }
        if ctx.rng.one_in(3) {
            s.push(' ');
        }
        s.push_str(&mark(j));
        if ctx.rng.one_in(2) {
            s.push(' ');
        }
    }
    for _ in 0..ctx.rng.below(3) {
        s.push_str(*ctx.rng.pick(MARKS));
    }
    let s = tame(&s, cfg.restricted);
    ctx.judge(&cfg, &s, c07_check);
}
/// Takes away what hides text by definition: attributes, URLs, titles, images, comments...
fn tame(s: &str, _restricted: bool) -> String {
    let mut o: Vec<char> = vec![];
    let s = s.replace("[#", "[ #").replace('!', "! ").replace("!  ", "! ").replace(")\":", ") \":");
    let c: Vec<char> = s.chars().collect();
    for (i, x) in c.iter().enumerate() {
        let prev = o.last().copied().unwrap_or('\n');
        let is_word = *x == 'q' && c.get(i + 1) == Some(&'j');
        // attributes
        let rest: String = c[i..(i + 4).min(c.len())].iter().collect();
        if "([{".contains(*x) && "*_-+^~%?@\"[|!#;:.".contains(prev) && !["(cl)", "[fr]", "{col", "[1/2"].contains(&rest.as_str()) {
            o.push(' ');
        }
        if is_word && "([{!:<&/#$\\=".contains(prev) {
            o.push(' ');
        }
        o.push(*x);
    }
    o.into_iter().collect()
}

// ---------------------------------------------------------------- C18 kinds of HTML
fn c18_norm(out: &str) -> Vec<Tok> {
    let t = html::browser(&out.replace("<br />", "<br>").replace("<acronym", "<abbr").replace("</acronym>", "</abbr>")).0;
    t.into_iter()
        .map(|t| match t {
            Tok::Start(n, a) => {
                let n = if n == "acronym" { "abbr".to_owned() } else { n };
                Tok::Start(n, a)
            }
            Tok::End(n) => Tok::End(if n == "acronym" { "abbr".to_owned() } else { n }),
            t => t,
        })
        .collect()
}
/// Alignment of an image, however expressed, as an attribute of its own
fn c18_align(t: Vec<Tok>) -> Vec<Tok> {
    t.into_iter()
        .map(|t| match t {
            Tok::Start(n, a) if n == "img" => {
                let mut al = String::new();
                let mut b: Vec<(String, String)> = vec![];
                for (k, v) in a {
                    if k == "align" {
                        al = v;
                        continue;
                    }
                    if k == "class" {
                        let rest: Vec<&str> = v.split(' ').filter(|c| match c.strip_prefix("align-") {
                            Some(x @ ("left" | "right" | "center")) => {
                                al = x.to_owned();
                                false
                            }
                            _ => true,
                        }).collect();
                        if !rest.is_empty() {
                            b.push((k, rest.join(" ")));
                        }
                        continue;
                    }
                    b.push((k, v));
                }
                if !al.is_empty() {
                    b.push(("align".into(), al));
                }
                b.sort();
                Tok::Start(n, b)
            }
            t => t,
        })
        .collect()
}
fn c18_check(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    if !cfg.restricted && cfg.align.is_none() && src.contains("<!") {
        return Ok(()); // the author may have turned an image into a comment
    }
    let mut h = cfg.clone();
    h.xhtml = false;
    let mut x = cfg.clone();
    x.xhtml = true;
    let oh = ctx.parse(&h, src)?;
    let ox = ctx.parse(&x, src)?;
    ctx.evals += 1;
    let (mut a, mut b) = (c18_norm(&oh), c18_norm(&ox));
    if cfg.align.is_none() {
        a = c18_align(a);
        b = c18_align(b);
    }
    if a != b {
        let i = a.iter().zip(b.iter()).take_while(|(p, q)| p == q).count();
        return bad("XHTML and HTML5 differ", format!("{:?} vs {:?}\n  HTML5: {oh}\n  XHTML: {ox}", a.get(i), b.get(i)));
    }
    if oh != ox {
        ctx.nontrivial(src);
        ctx.feat("outputs differ in the documented way");
    }
    // each kind uses its own spelling, unless typed so by the author
    if !src.contains("<br") {
        if oh.contains("<br />") {
            return bad("XHTML line break in HTML5", oh);
        }
        if ox.contains("<br>") {
            return bad("HTML5 line break in XHTML", ox);
        }
        if ox.contains("<br />") {
            ctx.feat("line breaks");
        }
    }
    if !src.contains("<abbr") && !src.contains("<acr") {
        if oh.contains("<acronym") {
            return bad("<acronym> in HTML5", oh);
        }
        if ox.contains("<abbr") {
            return bad("<abbr> in XHTML", ox);
        }
        if ox.contains("<acronym") {
            ctx.feat("acronyms");
        }
    }
    ctx.sample(&x, src, &ox);
    Ok(())
}
pub fn c18(ctx: &mut Ctx, i: u64) {
    let cfg = Cfg::random(&mut ctx.rng);
    let src = if i % 2 == 0 {
        let mut c = cfg.clone();
        c.block_tags = true;
        let mut g = crate::model::G::new(ctx.rng.clone(), &c);
        let p = crate::blocks::join(&g.doc(4, crate::model::RICH));
        ctx.rng = g.r.clone();
        p.s
    } else {
        gen::hostile(&mut ctx.rng)
    };
    ctx.judge(&cfg, &src, c18_check);
}

// ---------------------------------------------------------------- C20 line endings
fn c20_check(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    let src = src.replace('\r', "");
    let src = src.trim_end();
    if src.trim().is_empty() {
        return Ok(());
    }
    let want = ctx.parse(cfg, src)?;
    // deterministic for the sake of reduction
    let mut r = Rng::new(fnv(cfg.json().to_string().as_bytes()), ctx.case);
    for k in 0..4 {
        let mut s = String::new();
        match k {
            0 => s = src.replace('\n', "\r\n"),
            1 => s = src.replace('\n', "\r"),
            2 => {
                // a lone LF after a CR would be one line break
                let c: Vec<char> = src.chars().collect();
                let mut last_cr = false;
                for (i, x) in c.iter().enumerate() {
                    if *x == '\n' {
                        let e = *r.pick(&["\n", "\r\n", "\r"]);
                        let e = if e == "\n" && last_cr { "\r\n" } else { e };
                        s += e;
                        last_cr = e == "\r" && c.get(i + 1) == Some(&'\n');
                    } else {
                        s.push(*x);
                        last_cr = false;
                    }
                }
            }
            _ => {
                // spaces on blank lines, blank lines around
                let ls: Vec<&str> = src.split('\n').collect();
                let n = ls.len();
                for (i, l) in ls.iter().enumerate() {
                    if l.is_empty() && i + 1 < n && r.one_in(2) {
                        s += *r.pick(&[" ", "\t", "  ", " \t "]);
                    } else {
                        s += l;
                    }
                    if i + 1 < n {
                        s.push('\n');
                    }
                }
                s = format!("{}{s}{}", *r.pick(&["", "\n", "\n\n\n", " \n", "\t\n \n"]), *r.pick(&["", "\n", "\n\n", "\n \n"]));
            }
        }
        let out = ctx.parse(cfg, &s)?;
        ctx.evals += 1;
        if out != want {
            return bad(["CR LF matters", "CR matters", "mixed line endings matter", "blank line contents matter"][k], format!("{src:?} gives {want}\n  {s:?} gives {out}"));
        }
        ctx.feat(["CR LF", "CR", "mixed line endings", "blank lines with spaces"][k]);
    }
    if src.contains('\n') {
        ctx.nontrivial(src);
    }
    ctx.sample(cfg, src, &want);
    Ok(())
}
pub fn c20(ctx: &mut Ctx, i: u64) {
    let mut cfg = Cfg::random(&mut ctx.rng);
    if i % 3 == 0 {
        // any number of blank lines between blocks
        cfg.block_tags = true;
        cfg.raw = false;
        let mut g = crate::model::G::new(ctx.rng.clone(), &cfg);
        let n = g.r.range(2, 4);
        let mut cnt = Default::default();
        let v: Vec<crate::model::Piece> = (0..n).map(|_| g.any_block(crate::model::RICH, &mut cnt)).collect();
        ctx.rng = g.r.clone();
        let one = crate::blocks::join(&v).s;
        let mut many = String::new();
        for (i, p) in v.iter().enumerate() {
            if i > 0 {
                many += *ctx.rng.pick(&["\n\n\n", "\n\n\n\n\n", "\n \n\n", "\r\n\r\n\r\n", "\n\t\n \n", "\r\r\r\r"]);
            }
            many += &p.s;
        }
        let r = (|| {
            let a = ctx.parse(&cfg, &one)?;
            let b = ctx.parse(&cfg, &many)?;
            ctx.evals += 1;
            ctx.feat("several blank lines");
            ctx.nontrivial(&many);
            let (na, nb) = (html::norm(html::browser(&a).0), html::norm(html::browser(&b).0));
            if na != nb {
                return bad("the number of blank lines matters", format!("{one:?} gives {a}\n  {many:?} gives {b}"));
            }
            Ok(())
        })();
        ctx.report(&cfg, &many, r);
        return;
    }
    let mut src = gen::hostile(&mut ctx.rng);
    if i % 256 == 1 {
        // a long document
        ctx.feat("long");
        let more: Vec<String> = (0..40).map(|k| format!("{} line {k}", gen::words(&mut ctx.rng, 4, 12))).collect();
        src = format!("{src}\n{}", more.join(*ctx.rng.pick(&["\n", "\n", "\n\n"])));
    }
    ctx.judge(&cfg, &src, c20_check);
}

// ---------------------------------------------------------------- C21 independence of blocks
fn local(s: &str) -> String {
    // everything that reaches further by definition
    let mut s = s.replace('\r', "");
    for (a, b) in [
        ("..", "."), ("fn", "f"), ("[#", "["), ("note", "n"), ("#_", "#"), ("==", "="), ("<!--", ""), ("-->", ""), ("<pre>", ""), ("</pre>", ""), ("<code>", ""), ("</code>", ""), ("<notextile>", ""), ("</notextile>", ""), ("textileRef", ""),
        ("[al]", "al"), ("[u]", "u"), ("[1]", "1"), ("[2]", "2"), ("[1!]", "1"),
    ] {
        while s.contains(a) {
            s = s.replace(a, b);
        }
    }
    s
}
fn c21_check(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    let (a, b) = match src.split_once('\u{1d}') {
        Some(x) => x,
        None => return Ok(()),
    };
    let (a, b) = (local(a), local(b));
    let (a, b) = (a.trim_start_matches('\n').trim_end(), b.trim_start_matches('\n').trim_end());
    if a.trim().is_empty() || b.trim().is_empty() || has_ref(a) || has_ref(b) {
        return Ok(());
    }
    let oa = ctx.parse(cfg, a)?;
    let ob = ctx.parse(cfg, b)?;
    let both = ctx.parse(cfg, &format!("{a}\n\n{b}"))?;
    ctx.evals += 1;
    ctx.nontrivial(src);
    // whitespace between the blocks does not matter
    let want = collapse_ws(&format!("{oa}\n\n{ob}"));
    let got = collapse_ws(&both);
    if want != got {
        return bad("one block affects another", format!("{a:?} gives {oa}\n  {b:?} gives {ob}\n  together: {both}"));
    }
    if oa.contains('<') && ob.contains('<') {
        ctx.feat("both marked up");
    }
    ctx.sample(cfg, &format!("{a}\n\n{b}"), &both);
    Ok(())
}
/// footnotes or notes in any spelling
fn has_ref(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    // "[123" is a footnote, "[abc]x" may be an alias
    for i in 0..c.len() {
        if c[i] == '[' && c.get(i + 1).map(|x| x.is_numeric() || *x == '#').unwrap_or(false) {
            return true;
        }
        if c[i] == ']' && c.get(i + 1).map(|x| !x.is_whitespace()).unwrap_or(false) {
            // definition of an alias at the beginning of a line
            let l = s.split('\n').any(|l| l.trim_start().starts_with('['));
            if l {
                return true;
            }
        }
    }
    false
}
fn collapse_ws(s: &str) -> String {
    s.replace("<br />", "<br>").replace("<br>", "<br> ").split_ascii_whitespace().collect::<Vec<_>>().join(" ")
}
pub fn c21(ctx: &mut Ctx, i: u64) {
    let mut cfg = Cfg::random(&mut ctx.rng);
    cfg.block_tags = true;
    let one = |r: &mut Rng, cfg: &Cfg, k: usize| -> String {
        if k == 0 {
            let mut g = crate::model::G::new(r.clone(), cfg);
            let mut cnt = Default::default();
            let p = g.any_block(crate::model::RICH, &mut cnt);
            *r = g.r.clone();
            p.s
        } else {
            gen::hostile(r)
        }
    };
    let (x, y) = match i % 3 { 0 => (1, 0), 1 => (0, 1), _ => (1, 1) };
    let a = one(&mut ctx.rng, &cfg, x);
    let b = one(&mut ctx.rng, &cfg, y);
    let src = format!("{}\u{1d}{}", a.replace('\u{1d}', ""), b.replace('\u{1d}', ""));
    ctx.judge(&cfg, &src, c21_check);
}

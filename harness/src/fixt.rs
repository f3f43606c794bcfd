//! The project's documented examples as a reference workload. Of each example only those aspects are
//! compared which are the subject of the property being checked.
use crate::html::{self, Tok};
use crate::mon::*;
use serde_json::Value;
use std::sync::OnceLock;

pub struct Fixture {
    pub name: String,
    pub input: String,
    pub expect: String,
    pub cfg: Cfg,
    pub setup: bool,
    pub html: bool,
}
pub fn all() -> &'static Vec<Fixture> {
    static F: OnceLock<Vec<Fixture>> = OnceLock::new();
    F.get_or_init(|| {
        let v: Value = serde_json::from_str(include_str!("../../corpus/fixtures.json")).unwrap();
        v.as_array()
            .unwrap()
            .iter()
            .filter(|f| f["setup"]["setGettingImageSize"].is_null())
            .map(|f| Fixture {
                name: f["name"].as_str().unwrap().to_owned(),
                input: f["input"].as_str().unwrap().to_owned(),
                expect: f["expect"].as_str().unwrap().to_owned(),
                cfg: crate::props::fixture_cfg(&f["setup"]),
                setup: !f["setup"].as_object().unwrap().is_empty(),
                html: !f["setup"]["setHtmlType"].is_null(),
            })
            .collect()
    })
}
fn alnum(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).collect()
}
fn show_tag(n: &str, a: &[(String, String)]) -> String {
    let mut a: Vec<String> = a.iter().map(|(k, v)| format!("{k}={v:?}")).collect();
    a.sort();
    format!("<{n} {}>", a.join(" "))
}
/// Tokens of the given elements with the letters in between (only those within `inside`, if any is given)
fn part(t: &[Tok], names: &[&str], inside: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut depth = 0i32;
    let mut text = String::new();
    let mut any = false;
    for x in t {
        match x {
            Tok::Start(n, a) => {
                if inside.contains(&n.as_str()) && !html::is_void(n) {
                    depth += 1;
                }
                if names.contains(&n.as_str()) {
                    any = true;
                    v.push(std::mem::take(&mut text));
                    v.push(show_tag(n, a));
                }
            }
            Tok::End(n) => {
                if inside.contains(&n.as_str()) {
                    depth -= 1;
                }
                if names.contains(&n.as_str()) {
                    v.push(std::mem::take(&mut text));
                    v.push(format!("</{n}>"));
                }
            }
            Tok::Text(s) if inside.is_empty() || depth > 0 => text.push_str(&alnum(s)),
            _ => {}
        }
    }
    if inside.is_empty() {
        v.push(text);
    }
    v.retain(|s| !s.is_empty());
    if any { v } else { vec![] }
}
fn whole(t: &[Tok]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for x in t {
        match x {
            Tok::Start(n, a) => v.push(show_tag(n, a)),
            Tok::End(n) => v.push(format!("</{n}>")),
            Tok::Comment(c) => v.push(format!("<!--{c}-->")),
            Tok::Text(s) => {
                let s = s.split_whitespace().collect::<Vec<_>>().join(" ");
                if !s.is_empty() {
                    v.push(s)
                }
            }
        }
    }
    v
}
fn glyph_free(input: &str) -> bool {
    !input.contains(['"', '\''])
}
pub const SPANS: &[&str] = &["b", "strong", "cite", "del", "i", "em", "span", "ins", "sub", "sup"];
fn project(id: &str, f: &Fixture, t: &[Tok]) -> Vec<String> {
    let inp = &f.input;
    let tables = ["table", "caption", "colgroup", "col", "thead", "tbody", "tfoot", "tr", "td", "th"];
    let lists = ["ul", "ol", "li", "dl", "dt", "dd"];
    match id {
        "C02" if f.cfg.restricted => whole(t),
        "C03" => t
            .iter()
            .filter_map(|x| match x {
                Tok::Start(_, a) => Some(a.iter().filter(|k| k.0 == "href" || k.0 == "src").map(|k| k.1.clone()).collect::<Vec<_>>().join(" ")),
                _ => None,
            })
            .filter(|s| !s.is_empty())
            .collect(),
        "C07" => vec![t.iter().map(|x| if let Tok::Text(s) = x { alnum(s) } else { String::new() }).collect()],
        "C08" if inp.contains("==") || inp.contains("notextile") => whole(t),
        "C08" => part(t, &["code", "pre"], &["code", "pre"]),
        "C09" => part(t, &["p", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "pre", "br"], &[]),
        "C10" => part(t, &lists, &lists),
        "C11" => part(t, &tables, &tables),
        "C12" => part(t, SPANS, &[]),
        "C13" => part(t, &["a"], &["a"]),
        "C14" => part(t, &["img"], &["img"]),
        "C15" if inp.contains("fn") => part(t, &["a", "sup", "p"], &[]),
        "C16" if inp.contains("[#") || inp.contains("note") => whole(t),
        "C17" if !inp.contains('<') => {
            let mut v: Vec<String> = vec![String::new()];
            for x in t {
                match x {
                    Tok::Text(s) => v.last_mut().unwrap().push_str(&s.split_whitespace().collect::<Vec<_>>().join(" ")),
                    Tok::Start(n, a) if n == "abbr" || n == "acronym" || a.iter().any(|k| k.1 == "caps") => v.push(show_tag(n, a)),
                    _ => {}
                }
            }
            v
        }
        "C18" if f.html => whole(t),
        "C19" if f.setup => whole(t),
        "C23" if inp.contains('<') && !f.cfg.restricted => {
            if glyph_free(inp) {
                whole(t)
            } else {
                let mut v = vec![];
                for x in t {
                    match x {
                        Tok::Start(n, a) => v.push(show_tag(n, a)),
                        Tok::End(n) => v.push(format!("</{n}>")),
                        Tok::Comment(c) => v.push(format!("<!--{c}-->")),
                        Tok::Text(s) => v.push(alnum(s)),
                    }
                }
                v.retain(|s| !s.is_empty());
                v
            }
        }
        "C24" => t
            .iter()
            .filter_map(|x| match x {
                Tok::Start(n, a) if !a.is_empty() => Some(show_tag(n, a)),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}
pub const BASE: u64 = 1 << 40;
pub fn run(ctx: &mut Ctx, id: &str, k: usize) {
    let f = &all()[k];
    ctx.case = BASE + k as u64;
    let (et, _) = html::browser(&f.expect);
    let want = project(id, f, &et);
    if want.is_empty() || want.iter().all(|s| s.is_empty()) {
        return;
    }
    let out = match ctx.parse(&f.cfg, &f.input) {
        Ok(o) => o,
        Err(b) => return ctx.report(&f.cfg, &f.input, Err(b)),
    };
    ctx.evals += 1;
    ctx.feat("documented examples compared");
    let (t, _) = html::browser(&out);
    let got = project(id, f, &t);
    if want != got {
        let i = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
        let e = "(end)".to_owned();
        ctx.report(&f.cfg, &f.input, bad(
            "documented example converted differently",
            format!("{}: expected {:?} got {:?}\n  output: {:?}", f.name, want.get(i).unwrap_or(&e), got.get(i).unwrap_or(&e), out),
        ));
    }
}

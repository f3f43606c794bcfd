//! C15 footnotes, C16 notes.
use crate::gen;
use crate::html::{self, Tok};
use crate::model::*;
use crate::models::*;
use crate::mon::*;
use std::collections::{BTreeMap, HashMap, HashSet};

/// Generated ids renamed in the order of their appearance.
fn canon(s: &str) -> String {
    let mut o = String::new();
    let mut map: HashMap<String, usize> = HashMap::new();
    let mut rest = s;
    while let Some(i) = rest.find("xyz-") {
        o.push_str(&rest[..i]);
        let e = rest[i + 4..].find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len() - i - 4);
        let n = map.len() + 1;
        let k = *map.entry(rest[i + 4..i + 4 + e].to_owned()).or_insert(n);
        o.push_str(&format!("ID{k}"));
        rest = &rest[i + 4 + e..];
    }
    o + rest
}
/// Ids are unique, links of the given prefixes lead somewhere.
fn links_ok(out: &str, dangling_ok: impl Fn(&str) -> bool) -> Result<(), String> {
    let (t, _) = html::browser(out);
    let mut ids = HashSet::new();
    let mut hrefs = vec![];
    for x in &t {
        if let Tok::Start(_, a) = x {
            for (k, v) in a {
                if k == "id" && !ids.insert(v.clone()) {
                    return Err(format!("id {v:?} occurs twice"));
                }
                if k == "href" && v.starts_with('#') {
                    hrefs.push(v[1..].to_owned());
                }
            }
        }
    }
    for h in hrefs {
        if !ids.contains(&h) && !dangling_ok(&h) {
            return Err(format!("dangling link to {h:?}"));
        }
    }
    Ok(())
}
/// A block holding the given inline text at its end or in its middle
fn host(g: &mut G, p: &Piece, lite: bool) -> Piece {
    let w = g.words(1, 2);
    let k = g.r.below(if lite { 4 } else { 11 });
    g.f(&format!("host {k}"));
    let (s, h) = (&p.s, &p.h);
    let br = g.br();
    match k {
        0 => pc(format!("{s} {w}"), format!("<p>{h} {w}</p>")),
        1 => pc(format!("{w}\n{s}"), format!("<p>{w}{br}{h}</p>")),
        2 => pc(format!("bq. {s}"), format!("<blockquote><p>{h}</p></blockquote>")),
        3 => pc(format!("p. {w} {s}"), format!("<p>{w} {h}</p>")),
        4 => pc(format!("h2. {s}"), format!("<h2>{h}</h2>")),
        5 => pc(format!("* {s}\n* {w}"), format!("<ul><li>{h}</li><li>{w}</li></ul>")),
        6 => pc(format!("# {w}\n## {s}"), format!("<ol><li>{w}<ol><li>{h}</li></ol></li></ol>")),
        7 => pc(format!("|{w}|{s}|"), format!("<table><tr><td>{w}</td><td>{h}</td></tr></table>")),
        8 => pc(format!("- {w} := {s}"), format!("<dl><dt>{w}</dt><dd>{h}</dd></dl>")),
        9 => pc(format!("|_. {s}|\n|{w}|"), format!("<table><tr><th>{h}</th></tr><tr><td>{w}</td></tr></table>")),
        _ => pc(s.clone(), format!("<p>{h}</p>")),
    }
}
pub fn c15(ctx: &mut Ctx, _i: u64) {
    let mut cfg = model_cfg(ctx);
    cfg.lite = false;
    let mut g = G::new(ctx.rng.clone(), &cfg);
    let nums: Vec<usize> = {
        let n = if g.r.one_in(40) { g.r.range(7, 40) } else { g.r.range(1, 6) };
        let mut v: Vec<usize> = (0..n).map(|i| if g.r.one_in(5) { 100 + i * 7 } else { i + 1 }).collect();
        if g.r.one_in(2) {
            g.r.shuffle(&mut v);
        }
        v
    };
    // how they are written: numbers with leading zeros or in other scripts are labels of their own
    let zeros = g.r.one_in(12);
    if zeros {
        g.f("numbers which only differ in leading zeros");
    }
    let labels: HashMap<usize, String> = nums
        .iter()
        .enumerate()
        .map(|(i, n)| {
            if zeros {
                return (*n, format!("{}{}", "0".repeat(i % 3), i / 3 + 1));
            }
            let l = match g.r.below(24) {
                0 => format!("0{n}"),
                1 => format!("00{n}"),
                2 => format!("{n}0000000000000000000000"),
                3 => n.to_string().chars().map(|c| char::from_u32(0x660 + c as u32 - 48).unwrap()).collect(),
                _ => n.to_string(),
            };
            (*n, l)
        })
        .collect();
    let mut blocks: Vec<Piece> = vec![];
    let mut seen: HashSet<usize> = HashSet::new();
    let mut todo: Vec<usize> = vec![];
    let mut defined: HashSet<usize> = HashSet::new();
    let nb = g.r.range(1, 4);
    for b in 0..nb {
        let mut p = Piece::default();
        let k = g.r.range(1, 4);
        for j in 0..k {
            let w = g.words(1, 2);
            let n = *g.r.pick(&nums);
            let nolink = g.r.one_in(4);
            let id = if seen.insert(n) { format!(" id=\"fnrevxyz-{n}\"") } else { String::new() };
            if id.is_empty() {
                g.f("repeated reference");
            } else {
                todo.push(n);
            }
            let l = &labels[&n];
            let body = if nolink { l.clone() } else { format!("<a href=\"#fnxyz-{n}\">{l}</a>") };
            g.f(if nolink { "reference without link" } else { "reference" });
            let (pre_s, pre_h) = match g.r.below(6) {
                0 => (format!("*{w}*"), format!("<strong>{w}</strong>")),
                1 => (format!("{w}."), format!("{w}.")),
                2 => (format!("\"{w}\""), format!("\u{201c}{w}\u{201d}")),
                _ => (w.clone(), w.clone()),
            };
            let end = *g.r.pick(&["", "", ",", ".", ";"]);
            if j > 0 {
                p.s.push(' ');
                p.h.push(' ');
            }
            p.s += &format!("{pre_s}[{l}{}]{end}", if nolink { "!" } else { "" });
            p.h += &format!("{pre_h}<sup class=\"footnote\"{id}>{body}</sup>{end}");
        }
        blocks.push(host(&mut g, &p, false));
        // some footnotes follow at once, the rest at the end
        let last = b + 1 == nb;
        let mut rest = vec![];
        let mut now = std::mem::take(&mut todo);
        if g.r.one_in(2) {
            g.r.shuffle(&mut now);
        }
        for n in now {
            if last || g.r.one_in(3) {
                if last && g.r.one_in(8) {
                    g.f("reference without footnote");
                    continue;
                }
                defined.insert(n);
                let back = g.r.one_in(2);
                let (s, mut a) = if g.r.one_in(3) { g.cls(6, &[], &[]) } else { (String::new(), vec![]) };
                let own_id = a.iter().any(|x| x.0 == "id");
                if !a.iter().any(|x| x.0 == "class") {
                    a.push(("class".into(), "footnote".into()));
                }
                let mut sup = String::new();
                if own_id {
                    g.f("footnote with its own id");
                    sup = format!(" id=\"fnxyz-{n}\"");
                    // ids of authors must differ
                    for x in a.iter_mut() {
                        if x.0 == "id" {
                            x.1 = x.1.clone();
                        }
                    }
                } else {
                    a.push(("id".into(), format!("fnxyz-{n}")));
                }
                let t = g.text(4, O { glyphs: false, ..RICH });
                let l = &labels[&n];
                let num = if back { format!("<a href=\"#fnrevxyz-{n}\">{l}</a>") } else { l.clone() };
                g.f(if back { "footnote with backlink" } else { "footnote" });
                let mark = if back { if s.is_empty() || g.r.one_in(2) { format!("fn{l}{s}^. ") } else { format!("fn{l}^{s}. ") } } else { format!("fn{l}{s}. ") };
                blocks.push(pc(format!("{mark}{}", t.s), format!("<p{}><sup{sup}>{num}</sup> {}</p>", at(&a), t.h)));
            } else {
                rest.push(n);
            }
        }
        todo = rest;
    }
    let doc = crate::blocks::join(&blocks);
    ctx.rng = g.r.clone();
    for f in &g.feats {
        ctx.feat(f);
    }
    if cfg.restricted {
        ctx.feat("restricted");
    }
    let out = match ctx.parse(&cfg, &doc.s) {
        Ok(o) => o,
        Err(b) => return ctx.report(&cfg, &doc.s, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(&doc.s);
    if let Some(d) = html::diff(&canon(&doc.h), &canon(&out)) {
        return ctx.report(&cfg, &doc.s, bad("wrong footnotes", d));
    }
    let all = defined.len() == seen.len();
    let twice = has_twice(&doc.h);
    if !twice {
        ctx.evals += 1;
        if let Err(e) = links_ok(&out, |h| !(h.starts_with("fnxyz-") || h.starts_with("fnrevxyz-")) || !all) {
            return ctx.report(&cfg, &doc.s, bad("footnotes not linked", format!("{e} in {out:?}")));
        }
    }
    ctx.sample(&cfg, &doc.s, &out);
}
/// The author has chosen one id twice.
fn has_twice(h: &str) -> bool {
    let (t, _) = html::browser(h);
    let mut ids = HashSet::new();
    t.iter().any(|x| matches!(x, Tok::Start(_, a) if a.iter().any(|k| k.0 == "id" && !ids.insert(k.1.clone()))))
}

struct Note {
    label: String,
    mark: &'static str,
    atts: (String, Attrs),
    text: Piece,
    defined: bool,
}
pub fn c16(ctx: &mut Ctx, _i: u64) {
    let mut cfg = model_cfg(ctx);
    cfg.lite = false;
    let mut g = G::new(ctx.rng.clone(), &cfg);
    let hundred = g.r.one_in(400);
    let n = if hundred { g.r.range(101, 130) } else if g.r.one_in(6) { g.r.range(9, 14) } else { g.r.range(1, 5) };
    let mut notes: Vec<Note> = vec![];
    for i in 0..n {
        let label = match g.r.below(5) {
            0 => format!("{}", i + 1),
            1 => format!("é{i}"),
            2 => format!("{}-{i}", gen::ident(&mut g.r)),
            3 => format!("{}:{i}", gen::word(&mut g.r)),
            _ => format!("{}{i}", gen::word(&mut g.r)),
        };
        let mark = *g.r.pick(&["", "", "", "*", "^", "!"]);
        let atts = if g.r.one_in(3) { g.cls(6, &[], &[]) } else { (String::new(), vec![]) };
        let text = g.text(4, O { glyphs: false, ..RICH });
        let defined = !g.r.one_in(8);
        // only a name without blanks can be defined
        let label = if !defined && g.r.one_in(3) { format!("{label} {}", gen::word(&mut g.r)) } else { label };
        notes.push(Note { label, mark, atts, text, defined });
    }
    let many = n > 8;
    // references
    let mut seq: BTreeMap<usize, usize> = BTreeMap::new(); // note -> number
    let mut refs: HashMap<usize, Vec<usize>> = HashMap::new(); // note -> ids of references
    let mut next = 0usize;
    let mut rid = 1000usize;
    let mut blocks: Vec<Piece> = vec![];
    let nb = if hundred { n } else if many { g.r.range(4, 8) } else { g.r.range(1, 4) };
    let none = g.r.one_in(15);
    for b in 0..nb {
        let mut p = Piece::default();
        let k = if none { 0 } else { g.r.range(1, 4) };
        if none {
            g.f("no references at all");
            let w = g.word();
            p = pc(&w, &w);
        }
        for j in 0..k {
            let i = if hundred && j == 0 { b } else { g.r.below(n) };
            let num = *seq.entry(i).or_insert_with(|| {
                next += 1;
                next
            });
            rid += 1;
            let list = refs.entry(i).or_default();
            let again = !list.is_empty();
            list.push(rid);
            let nolink = g.r.one_in(4);
            let (s, a) = if g.r.one_in(4) { g.cls(6, &[], &[]) } else { (String::new(), vec![]) };
            let w = g.words(1, 2);
            let sp = format!("<span id=\"noterefxyz-{rid}\">{num}</span>");
            // the marker of repetition gets resolved below
            let body = if nolink { sp } else if again { format!("<a href=\"#note{{again}}xyz-{}\">{sp}</a>", i) } else { format!("<a href=\"#notexyz-{}\">{sp}</a>", i) };
            g.f(if again { "repeated note reference" } else { "note reference" });
            if nolink {
                g.f("note reference without link");
            }
            let end = *g.r.pick(&["", "", ",", "."]);
            if j > 0 {
                p.s.push(' ');
                p.h.push(' ');
            }
            let gap = if g.r.one_in(5) { " " } else { "" };
            p.s += &format!("{w}{gap}[{s}#{}{}]{end}", notes[i].label, if nolink { "!" } else { "" });
            p.h += &format!("{w}{gap}<sup{}>{body}</sup>{end}", at(&a));
        }
        blocks.push(host(&mut g, &p, false));
    }
    if many {
        g.f("ten notes or more");
    }
    // list
    let start = g.r.pick(&["", "", "", ":a", ":1", ":§", ":†", ":A"]).to_string();
    let gl = *g.r.pick(&["", "", "^", "!"]);
    let plus = g.r.one_in(2);
    let (mut ls, mut la) = if g.r.one_in(4) { g.cls(6, &[], &[]) } else { (String::new(), vec![]) };
    if ["(o)", "(c)", "(r)", "(tm)"].iter().any(|x| ls.to_lowercase().contains(x)) {
        // these are symbols
        ls.clear();
        la.clear();
    }
    let mut items = String::new();
    let mut order: Vec<(usize, usize)> = seq.iter().map(|(a, b)| (*b, *a)).collect();
    order.sort();
    let first = start.chars().nth(1).unwrap_or('a');
    let inc = "§†".find(first).is_none();
    let mut unresolved = false;
    for (_, i) in &order {
        let nt = &notes[*i];
        let kind = if nt.mark.is_empty() || !nt.defined { gl } else { nt.mark };
        let ids: Vec<usize> = match kind {
            "!" => vec![],
            "^" => refs[i][..1].to_vec(),
            _ => refs[i].clone(),
        };
        let links: Vec<String> = ids
            .iter()
            .enumerate()
            .map(|(k, r)| format!("<sup><a href=\"#noterefxyz-{r}\">{}</a></sup>", esc(&if inc && kind != "^" { char::from_u32(first as u32 + k as u32).unwrap() } else { first }.to_string())))
            .collect();
        g.f(&format!("backlinks {kind:?}"));
        if nt.defined {
            items += &format!("<li{}>{}<span id=\"notexyz-{i}\"> </span>{}</li>", at(&nt.atts.1), links.join(" "), nt.text.h);
        } else {
            unresolved = true;
            g.f("undefined note");
            items += &format!("<li>{} Undefined Note [#{}].</li>", links.join(" "), nt.label);
        }
    }
    // the unreferenced ones are to be defined in the order of their labels
    let mut free: Vec<usize> = (0..n).filter(|i| !seq.contains_key(i) && notes[*i].defined).collect();
    free.sort_by_key(|i| notes[*i].label.clone());
    if plus {
        g.f("unreferenced notes wanted");
        for i in &free {
            g.f("unreferenced note listed");
            items += &format!("<li{}>{}</li>", at(&notes[*i].atts.1), notes[*i].text.h);
        }
    }
    let has_list = !g.r.one_in(6);
    // definitions, anywhere
    let mut defs: Vec<usize> = (0..n).filter(|i| seq.contains_key(i) && notes[*i].defined).collect();
    g.r.shuffle(&mut defs);
    let mut all_defs = defs;
    all_defs.extend(&free);
    let list_block = pc(
        format!("notelist{ls}{start}{gl}{}.", if plus { "+" } else { "" }),
        if items.is_empty() { String::new() } else { format!("<ol{}>{items}</ol>", at(&la)) },
    );
    let mut place = blocks.len();
    if has_list {
        // not necessarily at the end
        place = if g.r.one_in(3) { g.r.below(blocks.len() + 1) } else { blocks.len() };
        blocks.insert(place, list_block);
    }
    let mut last = 0;
    for (k, i) in all_defs.iter().enumerate() {
        let nt = &notes[*i];
        let dot = if g.r.one_in(6) { "" } else { "." };
        let p = pc(format!("note#{}{}{}{dot} {}", nt.label, nt.mark, nt.atts.0, nt.text.s), "");
        let pos = match g.r.below(3) {
            0 => g.r.below(blocks.len() + 1),
            1 => 0,
            _ => blocks.len(),
        };
        // keep the unreferenced ones in order
        let pos = if k >= all_defs.len() - free.len() { pos.max(last) } else { pos };
        blocks.insert(pos, p);
        if k >= all_defs.len() - free.len() {
            last = pos + 1;
        }
        if pos <= place {
            g.f("defined before the list");
            place += 1;
        } else {
            g.f("defined after the list");
        }
    }
    let doc = crate::blocks::join(&blocks);
    ctx.rng = g.r.clone();
    for f in &g.feats {
        ctx.feat(f);
    }
    if cfg.restricted {
        ctx.feat("restricted");
    }
    let out = match ctx.parse(&cfg, &doc.s) {
        Ok(o) => o,
        Err(b) => return ctx.report(&cfg, &doc.s, Err(b)),
    };
    ctx.evals += 1;
    ctx.nontrivial(&doc.s);
    let right = doc.h.replace("{again}", "");
    let known = {
        // known finding: links of repeated references lead nowhere
        let mut o = String::new();
        let mut rest = doc.h.as_str();
        while let Some(i) = rest.find("{again}") {
            o.push_str(&rest[..i]);
            let e = rest[i..].find('"').unwrap();
            rest = &rest[i + e..];
        }
        o + rest
    };
    let d = html::diff(&canon(&right), &canon(&out));
    if let Some(d) = d {
        if html::diff(&canon(&known), &canon(&out)).is_some() {
            return ctx.report(&cfg, &doc.s, bad("wrong notes", d));
        }
        ctx.feat("known finding observed: repeated note reference without target");
    }
    if !has_twice(&right) {
        ctx.evals += 1;
        if let Err(e) = links_ok(&out, |h| !(h.starts_with("notexyz-") || h.starts_with("noterefxyz-")) || !has_list || unresolved) {
            return ctx.report(&cfg, &doc.s, bad("notes not linked", format!("{e} in {out:?}")));
        }
    }
    ctx.sample(&cfg, &doc.s, &out);
}

//! Properties decided by the constructive model.
use crate::blocks::*;
use crate::html;
use crate::model::*;
use crate::mon::*;

pub fn model_cfg(ctx: &mut Ctx) -> Cfg {
    let mut c = Cfg::random(&mut ctx.rng);
    c.block_tags = true;
    c.raw = false;
    c
}
/// Now and then a large document: counters, caches and placeholders behave differently then
pub fn size(g: &mut G, usual: usize, large: usize) -> usize {
    if g.r.one_in(150) {
        g.f("large document");
        large
    } else {
        usual
    }
}
/// Generates a document with its meaning and compares it with what the parser makes of it.
pub fn run_model(ctx: &mut Ctx, cfg: &Cfg, what: &str, build: impl FnOnce(&mut G) -> Piece) -> Option<String> {
    let mut g = G::new(ctx.rng.clone(), cfg);
    let p = build(&mut g);
    ctx.rng = g.r.clone();
    for f in &g.feats {
        ctx.feat(f);
    }
    if cfg.restricted {
        ctx.feat("restricted");
    }
    let out = match ctx.parse(cfg, &p.s) {
        Ok(o) => o,
        Err(b) => {
            ctx.report(cfg, &p.s, Err(b));
            return None;
        }
    };
    ctx.evals += 1;
    ctx.nontrivial(&p.s);
    if let Some(d) = html::diff(&p.h, &out) {
        ctx.report(cfg, &p.s, bad(what, d));
    } else {
        ctx.sample(cfg, &p.s, &out);
    }
    Some(out)
}

pub fn c09(ctx: &mut Ctx, _i: u64) {
    let cfg = model_cfg(ctx);
    run_model(ctx, &cfg, "wrong blocks", |g| {
        let o = O { glyphs: false, ..RICH };
        let n = size(g, 5, 60);
        let d = g.doc(n, o);
        join(&d)
    });
}
/// Lists of any shape: whatever markers follow each other, all items are there, in order and well-nested
fn items_check(ctx: &mut Ctx, cfg: &Cfg, src: &str) -> Result<(), Bad> {
    let out = ctx.parse(cfg, src)?;
    ctx.evals += 1;
    ctx.nontrivial(src);
    let toks = match html::strict(&out) {
        Ok(t) => t,
        Err(e) => return bad("malformed list", format!("{e} in {out:?}")),
    };
    if let Err(e) = html::balanced(&toks) {
        return bad("list elements not properly nested", format!("{e} in {out:?}"));
    }
    let want = crate::meta::marks_in(src);
    let got = crate::meta::marks_in(&html::text_of(&toks));
    if want != got {
        return bad("items lost, duplicated or reordered", format!("expected {want:?}\n  got {got:?} in {out:?}"));
    }
    // each item is of the kind its marker says, in a list of that kind
    let mut open: Vec<&str> = vec![];
    for t in &toks {
        if let html::Tok::Text(x) = t {
            for m in crate::meta::marks_in(x) {
                let line = src.lines().find(|l| l.contains(&m)).unwrap_or("");
                let mk: String = line.chars().take_while(|c| "#*;:".contains(*c)).collect();
                let item = if mk.contains(';') { "dt" } else if mk.contains(':') { "dd" } else { "li" };
                let lead: String = mk.chars().take_while(|c| "#*".contains(*c)).collect();
                let list = match lead.chars().last() {
                    Some('#') => "ol",
                    Some(_) => "ul",
                    None => "dl",
                };
                if open.last() != Some(&item) || open.len() < 2 || open[open.len() - 2] != list {
                    return bad("an item of the wrong kind", format!("{m} in {open:?}, expected {list}, {item}\n  {out}"));
                }
            }
        }
        match t {
            html::Tok::Start(n, _) if !html::is_void(n) => open.push(n),
            html::Tok::End(_) => { open.pop(); }
            _ => {}
        }
    }
    // items in no list
    let mut open: Vec<&str> = vec![];
    for t in &toks {
        match t {
            html::Tok::Start(n, _) if n == "li" || n == "dd" || n == "dt" => {
                if !open.iter().any(|x| *x == "ul" || *x == "ol" || *x == "dl") {
                    return bad("an item outside of any list", out);
                }
                ctx.feat("item of a list of any shape");
            }
            _ => {}
        }
        match t {
            html::Tok::Start(n, _) if !html::is_void(n) => open.push(n),
            html::Tok::End(_) => { open.pop(); }
            _ => {}
        }
    }
    Ok(())
}
fn any_list(r: &mut Rng) -> String {
    let n = r.range(2, 9);
    let mut v = vec![];
    for j in 0..n {
        let k = if j == 0 { 1 } else { r.range(1, 4) };
        let mut m: String = (0..k).map(|_| *r.pick(&["#", "*", "#", "*", ";", ":"])).collect();
        if m.ends_with('#') && r.one_in(4) {
            m += *r.pick(&["_", "3", "12"]);
        }
        if r.one_in(6) {
            m += "(c)";
        }
        v.push(if r.one_in(6) { format!("{m} ") } else { format!("{m} {}", crate::meta::mark(j)) });
    }
    v.join("\n")
}
pub fn c10(ctx: &mut Ctx, i: u64) {
    let mut cfg = model_cfg(ctx);
    cfg.lite = false;
    if i % 4 == 0 {
        let s = any_list(&mut ctx.rng);
        return ctx.judge(&cfg, &s, items_check);
    }
    run_model(ctx, &cfg, "wrong list", |g| {
        let mut cnt = Default::default();
        let n = g.r.range(1, 4);
        let n = size(g, n, 25);
        let v: Vec<Piece> = (0..n)
            .map(|_| match g.r.below(8) {
                0 => g.deflist(RICH),
                1 => g.redcloth(RICH),
                2 => g.para(PLAIN),
                _ => g.list(RICH, &mut cnt),
            })
            .collect();
        join(&v)
    });
}
pub fn c11(ctx: &mut Ctx, _i: u64) {
    let mut cfg = model_cfg(ctx);
    cfg.lite = false;
    run_model(ctx, &cfg, "wrong table", |g| {
        let n = g.r.range(1, 2);
        let n = size(g, n, 12);
        let v: Vec<Piece> = (0..n).map(|_| g.table(RICH)).collect();
        join(&v)
    });
}

//! Supervisor and workers.
use crate::mon::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::process::{Command, Stdio};
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: fn(&mut Ctx, u64),
    /// minimal number of hits per feature for the run to count (guards against a vacuous workload)
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub stack_mb: usize,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn worker_body(p: &'static Prop, seed: u64, thorough: bool, k: u64, w: u64, n: u64, deadline: u64, dir: String) {
    let mut ctx = Ctx::new(seed, thorough, Cur::create(&format!("{dir}/cur.{k}")));
    let t0 = Instant::now();
    let mut done = 0u64;
    let mut i = k;
    let mut complete = true;
    for j in (k as usize..crate::fixt::all().len()).step_by(w as usize) {
        crate::fixt::run(&mut ctx, p.id, j);
    }
    while i < n {
        if t0.elapsed().as_secs() > deadline {
            complete = false;
            break;
        }
        ctx.begin(i);
        (p.case)(&mut ctx, i);
        done += 1;
        if ctx.fails.len() >= 8 {
            break;
        }
        i += w;
    }
    let v = json!({
        "done": done, "complete": complete, "parses": ctx.parses, "evals": ctx.evals, "feats": ctx.feats,
        "distinct": ctx.distinct.iter().collect::<Vec<_>>(), "samples": ctx.samples, "max_ms": ctx.max_ms,
        "fails": ctx.fails.iter().map(|f| f.json()).collect::<Vec<_>>(),
    });
    std::fs::write(format!("{dir}/out.{k}.tmp"), v.to_string()).unwrap();
    std::fs::rename(format!("{dir}/out.{k}.tmp"), format!("{dir}/out.{k}")).unwrap();
}

pub fn worker(p: &'static Prop, a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let thorough = a[1] == "thorough";
    let k: u64 = a[2].parse().unwrap();
    let w: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    let deadline: u64 = a[5].parse().unwrap();
    let dir = a[6].clone();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    install_panic_hook();
    start_watchdog();
    std::thread::Builder::new()
        .stack_size(p.stack_mb << 20)
        .spawn(move || worker_body(p, seed, thorough, k, w, n, deadline, dir))
        .unwrap()
        .join()
        .unwrap();
}

fn known(id: &str) -> Vec<Value> {
    let path = format!("{}/known_findings.json", verif_dir());
    let v: Value = match std::fs::read_to_string(&path) {
        Ok(s) => serde_json::from_str(&s).expect("known_findings.json"),
        Err(_) => return vec![],
    };
    v["findings"].as_array().cloned().unwrap_or_default().into_iter().filter(|f| f["property"] == id).collect()
}

pub fn check(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut n = if thorough { p.thorough } else { p.quick };
    if let Ok(s) = std::env::var("RT_CASES") {
        n = s.parse().unwrap();
    }
    let deadline: u64 = if thorough { 5400 } else { 420 };
    let workers: u64 = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(2, 16) as u64;
    let dir = format!("/tmp/rtmon.{}.{}", p.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for k in 0..workers {
        let c = Command::new(&exe)
            .args(["worker", p.id, &seed.to_string(), &tier, &k.to_string(), &workers.to_string(), &n.to_string(), &deadline.to_string(), &dir])
            .env("RUST_BACKTRACE", "0")
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        kids.push(c);
    }
    let mut fails: Vec<Value> = vec![];
    let mut feats: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let (mut done, mut parses, mut evals, mut max_ms) = (0u64, 0u64, 0u64, 0u64);
    let mut complete = true;
    let mut samples: Vec<Value> = vec![];
    let mut broken = false;
    for (k, c) in kids.into_iter().enumerate() {
        let o = c.wait_with_output().unwrap();
        let path = format!("{dir}/out.{k}");
        if o.status.success() && std::path::Path::new(&path).exists() {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
            done += v["done"].as_u64().unwrap();
            parses += v["parses"].as_u64().unwrap();
            evals += v["evals"].as_u64().unwrap();
            max_ms = max_ms.max(v["max_ms"].as_u64().unwrap());
            complete &= v["complete"].as_bool().unwrap();
            for (f, c) in v["feats"].as_object().unwrap() {
                *feats.entry(f.clone()).or_insert(0) += c.as_u64().unwrap();
            }
            for d in v["distinct"].as_array().unwrap() {
                distinct.insert(d.as_u64().unwrap());
            }
            if samples.len() < 4 {
                samples.extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
            }
            fails.extend(v["fails"].as_array().unwrap().iter().cloned());
        } else {
            let what = match o.status.code() {
                Some(42) => format!("no result within {} s of CPU time", PARSE_LIMIT_MS.load(std::sync::atomic::Ordering::SeqCst) / 1000),
                _ => format!("process died: {}", o.status),
            };
            match Cur::read(&format!("{dir}/cur.{k}")) {
                Some((case, cfg, src)) if !cfg.is_empty() => fails.push(json!({"case": case, "what": what,
                    "config": serde_json::from_str::<Value>(&cfg).unwrap_or(Value::Null), "input": src,
                    "detail": String::from_utf8_lossy(&o.stderr).chars().take(2000).collect::<String>()})),
                _ => {
                    eprintln!("worker {k} failed before any case: {} {}", o.status, String::from_utf8_lossy(&o.stderr));
                    broken = true;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // the shortest input first: it is the one worth reading
    fails.sort_by_key(|f| (f["input"].as_str().map(|s| s.len()).unwrap_or(0), f["case"].as_u64().unwrap_or(0)));

    // Recorded defects of the project: re-observed on every run, never suppressed by anything but
    // their own exact input.
    let kf = known(p.id);
    let mut kf_lines = vec![];
    for f in &kf {
        if crate::props::known_still_fails(f) {
            kf_lines.push(format!("KNOWN-FINDING: property={} {}", p.id, f["what"].as_str().unwrap_or("")));
        }
    }
    fails.retain(|v| !kf.iter().any(|f| f["input"] == v["input"] && f["config"] == v["config"]));

    let missing: Vec<&str> = p.need.iter().filter(|f| !feats.contains_key(**f)).copied().collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": p.rule, "samples": samples,
            "cases": done, "cases_planned": n, "all_cases_run": complete, "parser_runs_observed": parses,
            "slowest_parse_cpu_ms": max_ms, "events": feats, "workers": workers,
        },
        "assumptions": p.assumptions, "wall_s": wall, "violations": fails.len(),
        "known_findings_observed": kf_lines,
    });
    let evdir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&evdir).unwrap();
    std::fs::write(format!("{evdir}/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for l in &kf_lines {
        println!("{l}");
    }
    println!("{}: {} cases, {} parser runs, {} oracle evaluations, {} distinct, {:.1} s", p.id, done, parses, evals, distinct.len(), wall);
    if !fails.is_empty() {
        let rdir = format!("{}/replays", verif_dir());
        std::fs::create_dir_all(&rdir).unwrap();
        let mut seen = HashSet::new();
        for f in &fails {
            let what = f["what"].as_str().unwrap_or("").to_owned();
            if !seen.insert(what.clone()) || seen.len() > 5 {
                continue;
            }
            let path = format!("{rdir}/{}-{}-{}.json", p.id, seed, f["case"]);
            let mut r = f.clone();
            r["property"] = json!(p.id);
            r["seed"] = json!(seed);
            r["tier"] = json!(tier);
            std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  {}: {}", what, f["detail"].as_str().unwrap_or("").chars().take(1500).collect::<String>());
            println!("  input: {:?}", f["input"].as_str().unwrap_or("").chars().take(600).collect::<String>());
        }
        return 1;
    }
    if broken {
        return 2;
    }
    if !missing.is_empty() {
        eprintln!("{}: the workload never exercised {:?}", p.id, missing);
        return 2;
    }
    0
}

/// Re-executes the case of a replay file.
pub fn replay(p: &'static Prop, v: &Value) -> i32 {
    install_panic_hook();
    let mut ctx = Ctx::new(v["seed"].as_u64().unwrap(), v["tier"] == "thorough", Cur::none());
    let i = v["case"].as_u64().unwrap();
    if i >= crate::fixt::BASE {
        crate::fixt::run(&mut ctx, p.id, (i - crate::fixt::BASE) as usize);
    } else {
        ctx.begin(i);
        (p.case)(&mut ctx, i);
    }
    for f in &ctx.fails {
        println!("{}", serde_json::to_string_pretty(&f.json()).unwrap());
    }
    if ctx.fails.is_empty() {
        println!("not reproduced");
        0
    } else {
        1
    }
}

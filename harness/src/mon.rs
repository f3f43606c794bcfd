//! Case execution, crash attribution, coverage accounting.
use rustextile::{HtmlKind, Textile};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Self {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5851F42D4C957F2D);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true once in n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub restricted: bool,
    pub lite: bool,
    pub xhtml: bool,
    pub images: bool,
    pub block_tags: bool,
    pub raw: bool,
    pub rel: Option<String>,
    pub align: Option<bool>,
    pub sanitize: bool,
    pub uid: String,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            restricted: false,
            lite: false,
            xhtml: false,
            images: true,
            block_tags: true,
            raw: false,
            rel: None,
            align: None,
            sanitize: false,
            uid: "xyz".into(),
        }
    }
}

impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        Cfg {
            restricted: r.one_in(2),
            lite: r.one_in(5),
            xhtml: r.one_in(2),
            images: !r.one_in(5),
            block_tags: !r.one_in(8),
            raw: r.one_in(4),
            rel: if r.one_in(3) { Some("nofollow".into()) } else { None },
            align: match r.below(4) {
                0 => Some(true),
                1 => Some(false),
                _ => None,
            },
            sanitize: false,
            uid: "xyz".into(),
        }
    }
    pub fn kind(&self) -> HtmlKind {
        if self.xhtml { HtmlKind::XHTML } else { HtmlKind::HTML5 }
    }
    pub fn br(&self) -> &'static str {
        if self.xhtml { "<br />" } else { "<br>" }
    }
    pub fn align_class(&self) -> bool {
        self.align.unwrap_or(!self.xhtml)
    }
    pub fn build(&self) -> Textile {
        self.apply(Textile::default())
    }
    pub fn apply(&self, t: Textile) -> Textile {
        let t = t
            .set_uid(&self.uid)
            .set_restricted(self.restricted)
            .set_lite(self.lite)
            .set_html_kind(self.kind())
            .set_images(self.images)
            .set_block_tags(self.block_tags)
            .set_raw_blocks(self.raw)
            .set_rel(self.rel.as_deref());
        let t = if self.sanitize { t.set_sanitize(true) } else { t.set_sanitize(false) };
        match self.align {
            Some(v) => t.set_align_class(v),
            None => t,
        }
    }
    /// Everything but the sanitizer
    pub fn apply_but_sanitize(&self, t: Textile) -> Textile {
        let t = t
            .set_uid(&self.uid)
            .set_restricted(self.restricted)
            .set_lite(self.lite)
            .set_html_kind(self.kind())
            .set_images(self.images)
            .set_block_tags(self.block_tags)
            .set_raw_blocks(self.raw)
            .set_rel(self.rel.as_deref());
        match self.align {
            Some(v) => t.set_align_class(v),
            None => t,
        }
    }
    pub fn json(&self) -> Value {
        json!({"restricted": self.restricted, "lite": self.lite, "xhtml": self.xhtml, "images": self.images,
            "block_tags": self.block_tags, "raw_blocks": self.raw, "rel": self.rel, "align_class": self.align,
            "sanitize": self.sanitize, "uid": self.uid})
    }
    pub fn from_json(v: &Value) -> Cfg {
        let b = |k: &str, d: bool| v[k].as_bool().unwrap_or(d);
        Cfg {
            restricted: b("restricted", false),
            lite: b("lite", false),
            xhtml: b("xhtml", false),
            images: b("images", true),
            block_tags: b("block_tags", true),
            raw: b("raw_blocks", false),
            rel: v["rel"].as_str().map(|s| s.to_owned()),
            align: v["align_class"].as_bool(),
            sanitize: b("sanitize", false),
            uid: v["uid"].as_str().unwrap_or("xyz").to_owned(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub case: u64,
    pub what: String,
    pub cfg: Value,
    pub src: String,
    pub detail: String,
}
impl Fail {
    pub fn json(&self) -> Value {
        json!({"case": self.case, "what": self.what, "config": self.cfg, "input": self.src, "detail": self.detail})
    }
}

/// Shared memory region describing the case in progress, which survives the
/// death of the worker.
pub struct Cur {
    ptr: *mut u8,
    len: usize,
}
pub const CUR_LEN: usize = 1 << 20;
impl Cur {
    pub fn create(path: &str) -> Cur {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
        f.set_len(CUR_LEN as u64).unwrap();
        let ptr = unsafe {
            libc::mmap(std::ptr::null_mut(), CUR_LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(ptr != libc::MAP_FAILED);
        Cur { ptr: ptr as *mut u8, len: CUR_LEN }
    }
    pub fn none() -> Cur {
        Cur { ptr: std::ptr::null_mut(), len: 0 }
    }
    pub fn set(&self, case: u64, cfg: &str, src: &str) {
        if self.ptr.is_null() {
            return;
        }
        let mut buf = Vec::with_capacity(32 + cfg.len() + src.len());
        buf.extend_from_slice(&case.to_le_bytes());
        buf.extend_from_slice(&(cfg.len() as u64).to_le_bytes());
        let room = self.len - 32 - cfg.len();
        let n = src.len().min(room);
        buf.extend_from_slice(&(n as u64).to_le_bytes());
        buf.extend_from_slice(cfg.as_bytes());
        buf.extend_from_slice(&src.as_bytes()[..n]);
        unsafe { std::ptr::copy_nonoverlapping(buf.as_ptr(), self.ptr, buf.len()) };
    }
    pub fn read(path: &str) -> Option<(u64, String, String)> {
        let b = std::fs::read(path).ok()?;
        let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        let (case, cl, sl) = (g(0), g(8) as usize, g(16) as usize);
        if 24 + cl + sl > b.len() {
            return None;
        }
        Some((
            case,
            String::from_utf8_lossy(&b[24..24 + cl]).into_owned(),
            String::from_utf8_lossy(&b[24 + cl..24 + cl + sl]).into_owned(),
        ))
    }
}

/// CPU time (ms) at which the current parse began; 0 when idle.
pub static PARSE_START: AtomicU64 = AtomicU64::new(0);
pub static PARSE_LIMIT_MS: AtomicU64 = AtomicU64::new(30_000);

pub fn cpu_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000 + 1
}

pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = PARSE_START.load(Ordering::SeqCst);
        if s != 0 && cpu_ms().saturating_sub(s) > PARSE_LIMIT_MS.load(Ordering::SeqCst) {
            // the case can be found in the shared region
            unsafe { libc::_exit(42) };
        }
    });
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub seed: u64,
    pub case: u64,
    pub cur: Cur,
    pub parsers: HashMap<Cfg, Textile>,
    pub parses: u64,
    pub evals: u64,
    pub feats: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub fails: Vec<Fail>,
    pub max_ms: u64,
    pub quiet: bool,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, cur: Cur) -> Ctx {
        Ctx {
            rng: Rng::new(seed, 0),
            thorough,
            seed,
            case: 0,
            cur,
            parsers: HashMap::new(),
            parses: 0,
            evals: 0,
            feats: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            fails: vec![],
            max_ms: 0,
            quiet: false,
        }
    }
    pub fn begin(&mut self, case: u64) {
        self.case = case;
        self.rng = Rng::new(self.seed, case);
    }
    pub fn feat(&mut self, f: &str) {
        if self.quiet {
            return;
        }
        match self.feats.get_mut(f) {
            Some(v) => *v += 1,
            None => {
                self.feats.insert(f.to_owned(), 1);
            }
        }
    }
    pub fn nontrivial(&mut self, key: &str) {
        if !self.quiet {
            self.distinct.insert(fnv(key.as_bytes()));
        }
    }
    pub fn sample(&mut self, cfg: &Cfg, src: &str, out: &str) {
        if self.samples.len() < 3 && !self.quiet && src.len() < 600 {
            self.samples.push(json!({"case": self.case, "config": cfg.json(), "input": src, "output": out}));
        }
    }
    pub fn fail(&mut self, what: &str, cfg: &Cfg, src: &str, detail: String) {
        self.fails.push(Fail { case: self.case, what: what.to_owned(), cfg: cfg.json(), src: src.to_owned(), detail });
    }
    /// Runs the real parser under the crash/hang/panic monitor.
    pub fn run_on(&mut self, t: &Textile, cfg: &Cfg, src: &str) -> Result<String, Bad> {
        self.cur.set(self.case, &cfg.json().to_string(), src);
        self.parses += 1;
        let start = cpu_ms();
        PARSE_START.store(start, Ordering::SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.parse(src)));
        PARSE_START.store(0, Ordering::SeqCst);
        let took = cpu_ms() - start;
        self.max_ms = self.max_ms.max(took);
        r.map_err(|_| Bad { what: "panic".into(), detail: LAST_PANIC.with(|p| p.borrow().clone()) })
    }
    pub fn parse(&mut self, cfg: &Cfg, src: &str) -> Result<String, Bad> {
        let t = match self.parsers.remove(cfg) {
            Some(t) => t,
            None => cfg.build(),
        };
        let r = self.run_on(&t, cfg, src);
        if r.is_ok() {
            if self.parsers.len() > 64 {
                self.parsers.clear();
            }
            self.parsers.insert(cfg.clone(), t);
        }
        r
    }
    pub fn report(&mut self, cfg: &Cfg, src: &str, v: Result<(), Bad>) {
        if let Err(b) = v {
            self.fail(&b.what, cfg, src, b.detail);
        }
    }
    /// Judges one input; a failing one gets reduced before it is reported.
    pub fn judge(&mut self, cfg: &Cfg, src: &str, check: fn(&mut Ctx, &Cfg, &str) -> Result<(), Bad>) {
        let first = match check(self, cfg, src) {
            Ok(()) => return,
            Err(b) => b,
        };
        self.quiet = true;
        let evals = self.evals;
        let t0 = std::time::Instant::now();
        let mut best = (src.to_owned(), first);
        let mut chunk = (best.0.chars().count() / 2).max(1);
        loop {
            let chars: Vec<char> = best.0.chars().collect();
            let mut i = 0;
            let mut improved = false;
            while i < chars.len() && t0.elapsed().as_secs() < 8 {
                let cand: String = chars[..i].iter().chain(chars[(i + chunk).min(chars.len())..].iter()).collect();
                if let Err(b) = check(self, cfg, &cand) {
                    if b.what == best.1.what && cand.len() < best.0.len() {
                        best = (cand, b);
                        improved = true;
                        break;
                    }
                }
                i += chunk;
            }
            if t0.elapsed().as_secs() >= 8 {
                break;
            }
            if !improved {
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        self.quiet = false;
        self.evals = evals;
        self.fail(&best.1.what, cfg, &best.0, format!("{}\n  original input: {:?}", best.1.detail, src));
    }
}

#[derive(Clone, Debug)]
pub struct Bad {
    pub what: String,
    pub detail: String,
}
pub fn bad<T>(what: &str, detail: String) -> Result<T, Bad> {
    Err(Bad { what: what.to_owned(), detail })
}

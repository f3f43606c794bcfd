//! C22: sizes of images. A web server on the loopback interface serves images, broken ones and
//! nothing; connect(2) and getaddrinfo(3) of the whole process are watched.
use crate::gen;
use crate::html::{self, Tok};
use crate::mon::*;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

/// Connections attempted and names looked up by this process
static CONNECTS: AtomicU64 = AtomicU64::new(0);
static FOREIGN: AtomicU64 = AtomicU64::new(0);
static LOOKUPS: AtomicU64 = AtomicU64::new(0);

/// Interposed: counts, and lets only loopback addresses through.
///
/// # Safety
/// Same contract as connect(2).
#[no_mangle]
pub unsafe extern "C" fn connect(fd: libc::c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> libc::c_int {
    let mut ok = true;
    match (*addr).sa_family as i32 {
        libc::AF_INET => {
            let a = &*(addr as *const libc::sockaddr_in);
            ok = a.sin_addr.s_addr.to_ne_bytes()[0] == 127;
            CONNECTS.fetch_add(1, Ordering::SeqCst);
        }
        libc::AF_INET6 => {
            ok = false;
            CONNECTS.fetch_add(1, Ordering::SeqCst);
        }
        _ => {}
    }
    if !ok {
        FOREIGN.fetch_add(1, Ordering::SeqCst);
        *libc::__errno_location() = libc::ECONNREFUSED;
        return -1;
    }
    libc::syscall(libc::SYS_connect, fd, addr, len) as libc::c_int
}
/// Interposed: there is no name service here.
///
/// # Safety
/// Same contract as getaddrinfo(3).
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(_n: *const libc::c_char, _s: *const libc::c_char, _h: *const libc::addrinfo, _r: *mut *mut libc::addrinfo) -> libc::c_int {
    LOOKUPS.fetch_add(1, Ordering::SeqCst);
    libc::EAI_NONAME
}

#[derive(Clone)]
struct Reply {
    head: String,
    /// parts of the body with pauses (ms) before them
    parts: Vec<(u64, Vec<u8>)>,
    drop_at_once: bool,
}
struct Server {
    port: u16,
    /// a port nobody listens at
    dead: u16,
    pages: Mutex<HashMap<String, Reply>>,
    log: Mutex<Vec<String>>,
}
fn serve(s: &'static Server, mut c: TcpStream) {
    let _ = c.set_read_timeout(Some(Duration::from_secs(5)));
    let _ = c.set_nodelay(true);
    let mut buf = vec![];
    let mut one = [0u8; 512];
    while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
        match c.read(&mut one) {
            Ok(0) | Err(_) => break,
            Ok(n) => buf.extend_from_slice(&one[..n]),
        }
        if buf.len() > 65536 {
            break;
        }
    }
    let text = String::from_utf8_lossy(&buf).into_owned();
    let line = text.lines().next().unwrap_or("").to_owned();
    s.log.lock().unwrap().push(line.clone());
    let path = line.split(' ').nth(1).unwrap_or("").to_owned();
    let r = s.pages.lock().unwrap().get(&path).cloned();
    let Some(r) = r else {
        let _ = c.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\nConnection: close\r\n\r\nnot found");
        return;
    };
    if r.drop_at_once {
        return;
    }
    if c.write_all(r.head.as_bytes()).is_err() {
        return;
    }
    for (ms, p) in &r.parts {
        if *ms > 0 {
            let _ = c.flush();
            std::thread::sleep(Duration::from_millis(*ms));
        }
        if c.write_all(p).is_err() {
            return;
        }
    }
}
fn server() -> &'static Server {
    static S: OnceLock<&'static Server> = OnceLock::new();
    S.get_or_init(|| {
        for v in ["http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
            std::env::remove_var(v);
        }
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let dead = {
            let d = TcpListener::bind("127.0.0.1:0").unwrap();
            d.local_addr().unwrap().port()
        };
        let s: &'static Server = Box::leak(Box::new(Server { port: l.local_addr().unwrap().port(), dead, pages: Default::default(), log: Default::default() }));
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                std::thread::spawn(move || serve(s, c));
            }
        });
        s
    })
}
fn be32(x: u32) -> [u8; 4] {
    x.to_be_bytes()
}
/// The beginning of an image of the given size
fn picture(r: &mut Rng, w: u32, h: u32) -> (Vec<u8>, &'static str) {
    let mut v = vec![];
    match r.below(5) {
        0 => {
            v.extend_from_slice(b"\x89PNG\r\n\x1a\n\0\0\0\x0dIHDR");
            v.extend(be32(w));
            v.extend(be32(h));
            v.extend_from_slice(&[8, 6, 0, 0, 0, 1, 2, 3, 4]);
            v.extend_from_slice(b"\0\0\0\0IEND\xaeB`\x82");
            (v, "png")
        }
        1 => {
            v.extend_from_slice(if r.one_in(2) { b"GIF89a" } else { b"GIF87a" });
            v.extend((w as u16).to_le_bytes());
            v.extend((h as u16).to_le_bytes());
            v.extend_from_slice(&[0x80, 0, 0, 0, 0, 0, 255, 255, 255, 0x2c, 0, 0, 0, 0, 1, 0, 1, 0, 0, 2, 2, 0x44, 1, 0, 0x3b]);
            (v, "gif")
        }
        2 => {
            v.extend_from_slice(b"BM");
            v.extend(1000u32.to_le_bytes());
            v.extend([0; 4]);
            v.extend(54u32.to_le_bytes());
            v.extend(40u32.to_le_bytes());
            v.extend((w as i32).to_le_bytes());
            v.extend((h as i32).to_le_bytes());
            v.extend_from_slice(&[1, 0, 24, 0]);
            v.extend([0; 24]);
            (v, "bmp")
        }
        3 => {
            v.extend_from_slice(&[0xff, 0xd8, 0xff, 0xe0, 0, 16]);
            v.extend_from_slice(b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
            v.extend_from_slice(&[0xff, 0xc0, 0, 17, 8]);
            v.extend((h as u16).to_be_bytes());
            v.extend((w as u16).to_be_bytes());
            v.extend_from_slice(&[3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1, 0xff, 0xda]);
            v.extend([0; 60]);
            (v, "jpeg")
        }
        _ => {
            v.extend_from_slice(b"RIFF");
            v.extend(200u32.to_le_bytes());
            v.extend_from_slice(b"WEBPVP8X\x0a\0\0\0\x10\0\0\0");
            v.extend_from_slice(&(w - 1).to_le_bytes()[..3]);
            v.extend_from_slice(&(h - 1).to_le_bytes()[..3]);
            v.extend_from_slice(b"VP8 ");
            v.extend([0; 60]);
            (v, "webp")
        }
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Want {
    Size(u32, u32),
    None,
    /// whatever, as long as nothing else changes
    Any,
}
struct Img {
    url: String,
    /// the request line expected at the server
    path: Option<String>,
    want: Want,
    expect_connect: bool,
}
fn make(r: &mut Rng, ctx: &mut Ctx, i: u64, k: usize) -> Img {
    let s = server();
    let word = gen::ident(r);
    let q = match r.below(6) {
        0 => "?a=1&b=2".to_owned(),
        1 => "?x=y&copy=1&lt=2".to_owned(),
        2 => "?w=\u{e9}".replace('\u{e9}', "%C3%A9"),
        _ => String::new(),
    };
    let path = format!("/{i}-{k}-{word}{}{q}", r.pick(&[".png", ".jpg", "", ".gif"]));
    let url = format!("http://127.0.0.1:{}{path}", s.port);
    let (w, h) = (r.range(1, 4000) as u32, r.range(1, 4000) as u32);
    let (mut img, fmt) = picture(r, w, h);
    let kind = r.below(16);
    let pad = r.below(3000);
    img.extend((0..pad).map(|x| (x * 7 % 251) as u8));
    let mut head = format!("HTTP/1.1 200 OK\r\nContent-Type: image/x\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", img.len());
    let mut parts: Vec<(u64, Vec<u8>)> = vec![];
    let mut want = Want::Size(w, h);
    let mut drop_at_once = false;
    let feat = match kind {
        0 => {
            return Img { url: format!("/{word}.png"), path: None, want: Want::None, expect_connect: false };
        }
        1 => {
            ctx.feat("refused connection");
            return Img { url: format!("http://127.0.0.1:{}/{word}.png", s.dead), path: None, want: Want::None, expect_connect: true };
        }
        2 => {
            // 404
            ctx.feat("missing");
            return Img { url, path: Some(path), want: Want::None, expect_connect: true };
        }
        3 => {
            drop_at_once = true;
            want = Want::None;
            "closed connection"
        }
        4 => {
            // not an image
            let t = "<html><body>This is not an image at all, but some other resource.</body></html>".as_bytes().to_vec();
            head = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", t.len());
            parts.push((0, t));
            want = Want::None;
            "something else"
        }
        5 => {
            // random bytes
            let n = r.below(1500);
            let t: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            head = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", t.len());
            parts.push((0, t));
            want = Want::Any;
            "random bytes"
        }
        6 => {
            // a damaged image
            let n = img.len().min(60);
            for _ in 0..r.range(1, 4) {
                let p = r.below(n);
                img[p] = r.next() as u8;
            }
            parts.push((0, img.clone()));
            want = Want::Any;
            "damaged image"
        }
        7 => {
            // the connection breaks within the header
            let n = r.below(9);
            parts.push((0, img[..n].to_vec()));
            want = Want::None;
            "truncated header"
        }
        8 => {
            // empty
            head = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".into();
            want = Want::None;
            "empty response"
        }
        9 => {
            // broken after the header of the image
            parts.push((0, img[..img.len() - pad].to_vec()));
            "truncated data"
        }
        10 => {
            // slowly
            let n = r.range(1, 30);
            parts.push((r.range(20, 60) as u64, img[..n].to_vec()));
            parts.push((r.range(20, 60) as u64, img[n..].to_vec()));
            "slow response"
        }
        11 => {
            // in small pieces
            head = "HTTP/1.1 200 OK\r\nContent-Type: image/x\r\nTransfer-Encoding: chunked\r\n\r\n".into();
            for c in img.chunks(r.range(3, 400)).collect::<Vec<_>>() {
                let mut b = format!("{:x}\r\n", c.len()).into_bytes();
                b.extend_from_slice(c);
                b.extend_from_slice(b"\r\n");
                parts.push((if parts.len() < 3 { 5 } else { 0 }, b));
            }
            parts.push((0, b"0\r\n\r\n".to_vec()));
            "chunked response"
        }
        12 => {
            head = "nonsense\r\n\r\n".into();
            want = Want::None;
            "broken protocol"
        }
        _ => {
            parts.push((0, img.clone()));
            fmt
        }
    };
    ctx.feat(feat);
    // the request has no fragment; a quirk of nothing else
    s.pages.lock().unwrap().insert(path.clone(), Reply { head, parts, drop_at_once });
    Img { url, path: Some(path), want, expect_connect: true }
}
fn images(t: &[Tok]) -> (Vec<(String, Option<String>, Option<String>)>, Vec<Tok>) {
    let mut v = vec![];
    let rest = t
        .iter()
        .map(|x| match x {
            Tok::Start(n, a) if n == "img" => {
                let get = |k: &str| a.iter().find(|y| y.0 == k).map(|y| y.1.clone());
                v.push((get("src").unwrap_or_default(), get("width"), get("height")));
                Tok::Start(n.clone(), a.iter().filter(|y| y.0 != "width" && y.0 != "height").cloned().collect())
            }
            y => y.clone(),
        })
        .collect();
    (v, rest)
}
pub fn c22(ctx: &mut Ctx, i: u64) {
    let s = server();
    let mut cfg = Cfg::random(&mut ctx.rng);
    cfg.block_tags = true;
    let mut r = ctx.rng.clone();
    let enabled = !r.one_in(4);
    // what is written, what is expected, in the order of parsing
    let mut doc = String::new();
    let n = r.range(1, 4);
    let mut imgs: Vec<Img> = vec![];
    for k in 0..n {
        let m = make(&mut r, ctx, i, k);
        let w = gen::word(&mut r);
        let (alt, link) = (*r.pick(&["", "(an image)", "(a & b)"]), *r.pick(&["", "", ":/there"]));
        let at = *r.pick(&["", "", "(c)", "{a:b}", "("]);
        let at = if at == "(" { "" } else { at };
        doc += &match r.below(if cfg.lite { 3 } else { 6 }) {
            0 => format!("!{at}{}{alt}!{link}", m.url),
            1 => format!("{w} !{at}{}{alt}!{link} {w}", m.url),
            2 => format!("{w} *{w} !{at}{}{alt}!{link} {w}* {w}", m.url),
            3 => format!("* {w}\n* {w} !{at}{}{alt}!{link} {w}", m.url),
            4 => format!("|{w}|!{at}{}{alt}!|", m.url),
            _ => format!("h2. !{at}{}{alt}!{link} {w}", m.url),
        };
        doc += "\n\n";
        imgs.push(m);
    }
    // a link to an absolute URL is not an image
    let extra = format!("\"{}\":http://127.0.0.1:{}/{i}-link.png", gen::word(&mut r), s.port);
    if r.one_in(3) {
        ctx.feat("a mere link");
        doc += &extra;
    }
    if r.one_in(6) {
        ctx.feat("an image tag of the author");
        doc += &format!("\n\n<img src=\"http://127.0.0.1:{}/{i}-raw.png\" alt=\"\">", s.port);
    }
    if r.one_in(6) {
        ctx.feat("an image of a forbidden scheme");
        doc += &format!("\n\n!javascript://127.0.0.1:{}/{i}-js.png!", s.port);
    }
    ctx.rng = r;
    let plain = match ctx.parse(&cfg, &doc) {
        Ok(o) => o,
        Err(b) => return ctx.report(&cfg, &doc, Err(b)),
    };
    s.log.lock().unwrap().clear();
    CONNECTS.store(0, Ordering::SeqCst);
    FOREIGN.store(0, Ordering::SeqCst);
    LOOKUPS.store(0, Ordering::SeqCst);
    let t = cfg.build().set_getting_image_size(enabled);
    let out = match ctx.run_on(&t, &cfg, &doc) {
        Ok(o) => o,
        Err(b) => {
            s.pages.lock().unwrap().clear();
            return ctx.report(&cfg, &doc, Err(b));
        }
    };
    let connects = CONNECTS.load(Ordering::SeqCst);
    let foreign = FOREIGN.load(Ordering::SeqCst) + LOOKUPS.load(Ordering::SeqCst);
    let mut log: Vec<String> = s.log.lock().unwrap().clone();
    log.sort();
    s.pages.lock().unwrap().clear();
    ctx.evals += 1;
    ctx.nontrivial(&doc);
    let say = |ctx: &mut Ctx, what: &str, d: String| ctx.report(&cfg, &doc, bad(what, format!("{d}\n  sizes enabled: {enabled}\n  requests: {log:?}\n  output: {out:?}")));
    if foreign > 0 {
        return say(ctx, "request to a foreign host", String::new());
    }
    let active = enabled && cfg.images;
    let mut want_log: Vec<String> = if active { imgs.iter().filter_map(|m| m.path.as_ref().map(|p| format!("GET {p} HTTP/1.1"))).collect() } else { vec![] };
    let want_conn = if active { imgs.iter().filter(|m| m.expect_connect).count() as u64 } else { 0 };
    if !active {
        ctx.feat(if enabled { "images disabled" } else { "sizes disabled" });
        if connects != 0 || !log.is_empty() {
            return say(ctx, "network request although not asked for", format!("{connects} connections"));
        }
        if out != plain {
            return say(ctx, "output changed without sizes", format!("was {plain:?}"));
        }
        return;
    }
    ctx.feat("sizes enabled");
    want_log.sort();
    if log != want_log || connects != want_conn {
        return ctx.report(&cfg, &doc, bad("wrong requests", format!("expected {want_log:?} ({want_conn} connections) got {log:?} ({connects} connections)")));
    }
    let (tp, _) = html::browser(&plain);
    let (to, _) = html::browser(&out);
    let (_, rp) = images(&tp);
    let (vo, ro) = images(&to);
    if rp != ro {
        return say(ctx, "sizes change something else", format!("without: {plain:?}"));
    }
    for m in &imgs {
        let href = m.url.clone();
        let got: Vec<_> = vo.iter().filter(|x| x.0 == href).collect();
        if got.is_empty() {
            return say(ctx, "image lost", href);
        }
        ctx.evals += 1;
        for g in got {
            let ok = match m.want {
                Want::Size(w, h) => {
                    ctx.feat("size found");
                    g.1 == Some(w.to_string()) && g.2 == Some(h.to_string())
                }
                Want::None => g.1.is_none() && g.2.is_none(),
                Want::Any => g.1.is_some() == g.2.is_some(),
            };
            if !ok {
                return say(ctx, "wrong size", format!("{href}: expected {:?} got {:?}x{:?}", m.want, g.1, g.2));
            }
        }
    }
    ctx.sample(&cfg, &doc, &out);
}

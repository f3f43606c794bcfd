//! Constructive model: documents are generated together with the HTML they stand for.
use crate::gen;
use crate::mon::{Cfg, Rng};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Default)]
pub struct Piece {
    pub s: String,
    pub h: String,
}
pub fn pc(s: impl Into<String>, h: impl Into<String>) -> Piece {
    Piece { s: s.into(), h: h.into() }
}
pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}
pub type Attrs = Vec<(String, String)>;
pub fn at(a: &Attrs) -> String {
    a.iter().map(|(k, v)| format!(" {}=\"{}\"", k, esc(v))).collect()
}

/// What may occur within an inline text.
#[derive(Clone, Copy)]
pub struct O {
    pub spans: usize, // remaining depth
    pub links: bool,
    pub images: bool,
    pub code: bool,
    pub glyphs: bool,
    pub raw: bool,
    pub br: bool,
    pub deco: bool,
}
pub const PLAIN: O = O { spans: 0, links: false, images: false, code: false, glyphs: false, raw: false, br: false, deco: false };
pub const RICH: O = O { spans: 2, links: true, images: true, code: true, glyphs: true, raw: true, br: false, deco: true };

pub const TAGS: [(&str, &str); 10] = [
    ("**", "b"), ("*", "strong"), ("??", "cite"), ("-", "del"), ("__", "i"), ("_", "em"), ("%", "span"), ("+", "ins"), ("~", "sub"), ("^", "sup"),
];

pub struct G {
    pub r: Rng,
    pub cfg: Cfg,
    pub feats: BTreeSet<String>,
    /// spans open around the current position
    pub open: Vec<usize>,
    pub counter: usize,
    /// words get replaced by numbered marks
    pub mark: Option<usize>,
}

impl G {
    pub fn new(r: Rng, cfg: &Cfg) -> G {
        G { r, cfg: cfg.clone(), feats: BTreeSet::new(), open: vec![], counter: 0, mark: None }
    }
    pub fn f(&mut self, s: &str) {
        if !self.feats.contains(s) {
            self.feats.insert(s.to_owned());
        }
    }
    pub fn word(&mut self) -> String {
        if let Some(n) = self.mark.as_mut() {
            *n += 1;
            return crate::meta::mark(*n);
        }
        gen::word(&mut self.r)
    }
    pub fn words(&mut self, a: usize, b: usize) -> String {
        let n = self.r.range(a, b);
        (0..n).map(|_| self.word()).collect::<Vec<_>>().join(" ")
    }

    // ------------------------------------------------------------ attributes
    pub fn class_id(&mut self) -> (String, Attrs) {
        let mut s = String::from("(");
        let mut a = vec![];
        let c = self.r.below(3);
        if c != 1 {
            let n = if self.r.one_in(4) { 2 } else { 1 };
            let mut v = (0..n).map(|_| gen::ident(&mut self.r)).collect::<Vec<_>>().join(" ");
            if self.r.one_in(8) {
                v.push_str(*self.r.pick(&["/b", ".b", "-7", "/a.b"]));
            }
            s += &v;
            a.push(("class".to_owned(), v));
        }
        if c != 0 {
            let mut v = gen::ident(&mut self.r);
            if self.r.one_in(6) {
                v.push_str(*self.r.pick(&[".a", ":b", "-7"]));
            }
            if self.r.one_in(8) {
                v.insert_str(0, *self.r.pick(&["7", "0", "12"]));
            }
            s += "#";
            s += &v;
            a.push(("id".to_owned(), v));
        }
        s.push(')');
        (s, a)
    }
    pub fn style(&mut self) -> (String, Vec<String>) {
        let n = self.r.range(1, 3);
        let mut ds = vec![];
        for _ in 0..n {
            let v = *self.r.pick(&["color:red", "color:#f0a", "margin:1px 2px", "font-size:90%", "border:none", "width:5.5em", "background:url(/a.png)", "float:left", "font-family:Arial, sans"]);
            if !ds.contains(&v.to_owned()) {
                ds.push(v.to_owned());
            }
        }
        let sep = *self.r.pick(&[";", "; ", " ; "]);
        let tail = if self.r.one_in(3) { ";" } else { "" };
        (format!("{{{}{}}}", ds.join(sep), tail), ds)
    }
    pub fn lang(&mut self) -> (String, String) {
        let l = *self.r.pick(&["en", "fr", "en-GB", "zh-Hans", "de_AT", "ru"]);
        (format!("[{}]", l), l.to_owned())
    }
    /// class/id, style and language in any order; `extra` are declarations of style given otherwise (before, after)
    pub fn cls(&mut self, p: usize, before: &[String], after: &[String]) -> (String, Attrs) {
        let mut parts: Vec<(String, u8)> = vec![];
        let mut a: Attrs = vec![];
        let mut decl: Vec<String> = before.to_vec();
        let r = self.cfg.restricted;
        if self.r.below(10) < p {
            let (s, x) = self.class_id();
            if !r {
                for (k, _) in &x {
                    self.f(&format!("attr {}", k));
                }
                a.extend(x);
            }
            parts.push((s, 0));
        }
        if self.r.below(14) < p {
            let (s, x) = self.style();
            if !r {
                decl.extend(x);
                self.f("attr style");
            }
            parts.push((s, 1));
        }
        if self.r.below(14) < p {
            let (s, x) = self.lang();
            a.push(("lang".into(), x));
            self.f("attr lang");
            parts.push((s, 2));
        }
        self.r.shuffle(&mut parts);
        if parts.len() > 1 {
            self.f(&format!("attribute order {}", parts.iter().map(|x| x.1.to_string()).collect::<String>()));
        }
        decl.extend_from_slice(after);
        if !decl.is_empty() {
            a.push(("style".into(), decl.join("; ") + ";"));
        }
        (parts.into_iter().map(|x| x.0).collect(), a)
    }
    /// Attributes of a block, alignment and padding included.
    pub fn block_atts(&mut self, p: usize) -> (String, Attrs) {
        let side = self.r.one_in(2);
        self.block_atts_at(p, side)
    }
    /// Alignment and padding before (or after) the rest
    pub fn block_atts_at(&mut self, p: usize, side: bool) -> (String, Attrs) {
        let mut pre = String::new();
        let mut post = String::new();
        let mut after = vec![];
        if self.r.below(10) < p / 2 + 1 {
            let most = if self.r.one_in(50) { 300 } else if self.r.one_in(8) { 12 } else { 4 };
            let l = self.r.below(most);
            let rr = self.r.below(most);
            if l > 0 {
                after.push(format!("padding-left:{}em", l));
                self.f("padding-left");
            }
            if rr > 0 {
                after.push(format!("padding-right:{}em", rr));
                self.f("padding-right");
            }
            let x = format!("{}{}", "(".repeat(l), ")".repeat(rr));
            if side { pre += &x } else { post += &x }
        }
        if self.r.below(10) < p / 2 + 1 {
            let al: &[(&str, &str)] = if self.cfg.restricted { &[("=", "center")] } else { &[("<", "left"), (">", "right"), ("=", "center"), ("<>", "justify")] };
            let (m, v) = *self.r.pick(al);
            after.push(format!("text-align:{}", v));
            self.f(&format!("align {}", v));
            let dst = if side { &mut pre } else { &mut post };
            if self.r.one_in(2) { dst.insert_str(0, m) } else { dst.push_str(m) }
        }
        let (c, a) = self.cls(p, &[], &after);
        (format!("{}{}{}", pre, c, post), a)
    }

    // ------------------------------------------------------------ inline
    pub fn br(&self) -> String {
        self.cfg.br().to_owned()
    }
    /// A sequence of atoms
    pub fn inline(&mut self, max: usize, o: O) -> Piece {
        let n = self.r.range(1, max);
        let mut p = Piece::default();
        let mut newline = false;
        for i in 0..n {
            if i > 0 {
                if o.br && self.r.one_in(6) {
                    p.s.push('\n');
                    p.h += &self.br();
                    newline = true;
                    self.f("line break");
                } else {
                    p.s.push(' ');
                    p.h.push(' ');
                    newline = false;
                }
            }
            let a = if newline && self.r.one_in(2) { let w = self.words(1, 2); pc(&w, &w) } else { self.atom(o) };
            newline = false;
            p.s += &a.s;
            p.h += &a.h;
        }
        p
    }
    /// begins with a word
    pub fn text(&mut self, max: usize, o: O) -> Piece {
        let w = self.word();
        if max <= 1 || self.r.one_in(4) {
            return pc(&w, &w);
        }
        let p = self.inline(max - 1, o);
        pc(format!("{} {}", w, p.s), format!("{} {}", w, p.h))
    }
    pub fn atom(&mut self, o: O) -> Piece {
        let k = self.r.below(14);
        match k {
            0..=2 if o.spans > 0 => {
                let p = self.span(o);
                self.deco(p, o, true)
            }
            3 if o.links => {
                let p = self.link(o);
                self.deco_link(p, o)
            }
            4 if o.images && self.cfg.images => self.image(),
            5 if o.code && !self.cfg.lite => self.code(),
            6 | 7 if o.glyphs => self.glyph(),
            8 if o.raw && !self.cfg.restricted => self.raw_inline(o),
            9 => {
                let w = self.words(1, 2);
                self.deco(pc(&w, &w), o, true)
            }
            _ => {
                let w = self.words(1, 3);
                pc(&w, &w)
            }
        }
    }
    /// Punctuation and brackets around
    pub fn deco(&mut self, p: Piece, o: O, quotes: bool) -> Piece {
        if !o.deco {
            return p;
        }
        match self.r.below(12) {
            0 => pc(format!("({})", p.s), format!("({})", p.h)),
            1 if quotes && o.glyphs => {
                self.f("double quotes");
                pc(format!("\"{}\"", p.s), format!("\u{201c}{}\u{201d}", p.h))
            }
            2 if quotes && o.glyphs => {
                self.f("single quotes");
                pc(format!("'{}'", p.s), format!("\u{2018}{}\u{2019}", p.h))
            }
            3..=6 => {
                let x = *self.r.pick(&[",", ".", ";", "!", ":"]);
                // an exclamation mark might as well begin an image
                let x = if o.images && self.cfg.images && x == "!" { "," } else { x };
                self.f("punctuation");
                pc(p.s + x, p.h + x)
            }
            7 if quotes => {
                let (a, b) = *self.r.pick(&[("«", "»"), ("»", "«"), ("‹", "›"), ("„", "“"), ("“", "”"), ("‚", "‘"), ("‘", "’")]);
                self.f("quotation marks");
                pc(format!("{a}{}{b}", p.s), format!("{a}{}{b}", p.h))
            }
            _ => p,
        }
    }
    pub fn deco_link(&mut self, p: Piece, o: O) -> Piece {
        if !o.deco {
            return p;
        }
        match self.r.below(8) {
            // a bracket, a quote and the closing bracket of something else would be a quoted quote
            0 if !p.s.contains([')', ']']) => pc(format!("({})", p.s), format!("({})", p.h)),
            1 if !p.s.contains([')', ']']) && p.s.ends_with(|c: char| c.is_ascii_alphanumeric() || c == '/') => {
                let w = self.words(1, 2);
                match self.r.below(5) {
                    0 => pc(format!("[{}]{w}", p.s), format!("{}{w}", p.h)),
                    1 => pc(format!("[{}][{w} in brackets]", p.s), format!("{}[{w} in brackets]", p.h)),
                    _ => pc(format!("[{}]", p.s), p.h),
                }
            }
            2 | 3 => {
                let x = *self.r.pick(&[",", ".", ";", "!", "?", ":"]);
                let x = if o.images && self.cfg.images && x == "!" { "," } else { x };
                self.f("punctuation after a link");
                pc(p.s + x, p.h + x)
            }
            _ => p,
        }
    }
    pub fn span(&mut self, o: O) -> Piece {
        let free: Vec<usize> = (0..TAGS.len()).filter(|t| {
            !self.open.iter().any(|u| TAGS[*u].0.chars().next() == TAGS[*t].0.chars().next())
        }).collect();
        if free.is_empty() {
            let w = self.word();
            return pc(&w, &w);
        }
        let t = *self.r.pick(&free);
        self.span_of(t, o)
    }
    pub fn span_of(&mut self, t: usize, o: O) -> Piece {
        let (m, tag) = TAGS[t];
        self.f(&format!("span {}", m));
        let (s, mut a) = if self.r.one_in(3) { self.cls(6, &[], &[]) } else { (String::new(), vec![]) };
        let mut cite = String::new();
        if self.r.one_in(12) && !m.contains('-') {
            let c = format!("/{}", gen::ident(&mut self.r).replace(['-', '_'], "a"));
            cite = format!(":{} ", c);
            a.push(("cite".into(), c));
            self.f("span citation");
        }
        self.open.push(t);
        let depth = self.open.len();
        self.f(&format!("span depth {}", depth));
        let o2 = O { spans: o.spans - 1, br: false, raw: false, glyphs: o.glyphs && self.r.one_in(2), ..o };
        let first_word = !self.r.one_in(3);
        let c = if first_word { self.text(3, o2) } else { self.inline(3, o2) };
        self.open.pop();
        // attributes must not be guessed from the content, nor may it end with a mark
        let mut c = c;
        if !c.s.starts_with(|x: char| x.is_alphabetic() || "*_+%".contains(x)) || c.s.contains(m) || (!c.s.starts_with(char::is_alphabetic) && c.s.contains([';', '.', ',', ':'])) {
            let w = self.word();
            c = pc(format!("{} {}", w, c.s), format!("{} {}", w, c.h));
        }
        if c.s.contains(['"', '!']) || !c.s.ends_with(|x: char| x.is_alphabetic()) {
            let w = self.word();
            c = pc(format!("{} {}", c.s, w), format!("{} {}", c.h, w));
        }
        let m0 = m.chars().next().unwrap();
        if c.s.contains(m0) {
            let w = self.words(1, 3);
            c = pc(&w, &w);
        }
        let end = if self.r.one_in(8) && m != "??" { *self.r.pick(&[".", ",", ";"]) } else { "" };
        pc(format!("{m}{s}{cite}{}{end}{m}", c.s), format!("<{tag}{}>{}{end}</{tag}>", at(&a), c.h))
    }
    pub fn code(&mut self) -> Piece {
        let mut c = String::new();
        let n = self.r.range(1, 5);
        for _ in 0..n {
            c.push_str(*self.r.pick(&["a", "foo", " ", "<b>", "&amp;", "&", "\"", "'", "*x*", "_y_", "--", "...", "(c)", "ABC", "http://a.b/", "x < y", "[1]", "\\", "#", "{a:b}", "%", "é", "!a.png!", "\"l\":/u", "|", "3x4", "-1", "+", "^t^"]));
        }
        let c = c.trim().to_owned();
        let c = if c.is_empty() { "z".to_owned() } else { c };
        self.f("inline code");
        if !self.cfg.restricted && self.r.one_in(3) {
            self.f("code element");
            return pc(format!("<code>{}</code>", c), format!("<code>{}</code>", esc(&c)));
        }
        pc(format!("@{}@", c), format!("<code>{}</code>", esc(&c)))
    }
    pub fn raw_inline(&mut self, o: O) -> Piece {
        let t = *self.r.pick(&["b", "em", "span", "sup", "small", "kbd", "q", "abbr"]);
        let a: Attrs = if self.r.one_in(2) { vec![(self.r.pick(&["class", "title", "id", "data-x"]).to_string(), self.words(1, 2))] } else { vec![] };
        self.f("raw inline element");
        let c = self.text(2, O { spans: 0, links: false, images: false, raw: false, br: false, deco: false, ..o });
        pc(format!("<{t}{}>{}</{t}>", at(&a), c.s), format!("<{t}{}>{}</{t}>", at(&a), c.h))
    }
    pub fn caps(&mut self) -> String {
        let n = self.r.range(3, 6);
        loop {
            let s: String = (0..n).map(|_| (b'A' + self.r.below(26) as u8) as char).collect();
            if !s.contains('X') {
                return s;
            }
        }
    }
    pub fn glyph(&mut self) -> Piece {
        let w = self.word();
        let v = self.word();
        let k = self.r.below(17);
        self.f(&format!("glyph {}", k));
        match k {
            0 => pc(format!("{w}--{v}"), format!("{w}\u{2014}{v}")),
            1 => pc(format!("{w} -- {v}"), format!("{w} \u{2014} {v}")),
            2 => pc(format!("{w} - {v}"), format!("{w} \u{2013} {v}")),
            3 => pc(format!("{w}... {v}"), format!("{w}\u{2026} {v}")),
            4 => pc(format!("{w}'{v}"), format!("{w}\u{2019}{v}")),
            5 => {
                let (a, b) = *self.r.pick(&[("(c)", "©"), ("(C)", "©"), ("(r)", "®"), ("(R)", "®"), ("(tm)", "™"), ("(TM)", "™"), ("[c]", "©"), ("[r]", "®"), ("[TM]", "™")]);
                if self.r.one_in(2) { pc(format!("{w}{a}"), format!("{w}{b}")) } else { pc(format!("{w} {a} {v}"), format!("{w} {b} {v}")) }
            }
            6 => {
                let (a, b) = *self.r.pick(&[("(1/2)", "½"), ("(1/4)", "¼"), ("(3/4)", "¾"), ("[1/2]", "½"), ("[1/4]", "¼"), ("[3/4]", "¾"), ("(o)", "°"), ("[o]", "°")]);
                pc(format!("{w} {a} {v}"), format!("{w} {b} {v}"))
            }
            7 => {
                let (a, b) = (self.r.below(1000), self.r.below(1000));
                let (sp, sp2) = *self.r.pick(&[("", ""), (" ", " ")]);
                pc(format!("{a}{sp}x{sp2}{b}"), format!("{a}{sp}×{sp2}{b}"))
            }
            8 | 9 => {
                let c = self.caps();
                pc(&c, format!("<span class=\"caps\">{c}</span>"))
            }
            10 | 11 => {
                let mut c = self.caps();
                let t = self.words(1, 3);
                let tag = if self.cfg.xhtml { "acronym" } else { "abbr" };
                if self.r.one_in(4) {
                    c.push('5');
                    return pc(format!("{c}({t})"), format!("<{tag} title=\"{t}\">{c}</{tag}>"));
                }
                pc(format!("{c}({t})"), format!("<{tag} title=\"{t}\"><span class=\"caps\">{c}</span></{tag}>"))
            }
            12 => pc(format!("{w} & {v}"), format!("{w} &amp; {v}")),
            13 => {
                let y = self.r.range(10, 99);
                pc(format!("{w} '{y} {v}"), format!("{w} \u{2019}{y} {v}"))
            }
            14 => pc(format!("{w} < {v}"), format!("{w} &lt; {v}")),
            15 => {
                let t = self.words(1, 3);
                pc(format!("\"{t}\""), format!("\u{201c}{t}\u{201d}"))
            }
            _ => {
                let t = self.words(1, 3);
                pc(format!("'{t}'"), format!("\u{2018}{t}\u{2019}"))
            }
        }
    }
    // ------------------------------------------------------------ URLs
    pub fn path(&mut self) -> String {
        let n = self.r.range(1, 3);
        (0..n).map(|_| gen::ident(&mut self.r)).collect::<Vec<_>>().join("/")
    }
    pub fn tail(&mut self) -> String {
        let mut s = String::new();
        if self.r.one_in(4) {
            s += "?";
            let n = self.r.range(1, 3);
            let q: Vec<String> = (0..n).map(|_| format!("{}={}", gen::ident(&mut self.r), gen::ident(&mut self.r))).collect();
            s += &q.join("&");
        }
        if self.r.one_in(5) {
            s += "#";
            s += &gen::ident(&mut self.r);
        }
        s
    }
    /// A harmless URL, ending with a letter, a digit or a slash.
    pub fn url(&mut self) -> String {
        let p = self.path();
        let t = self.tail();
        match self.r.below(9) {
            0 => format!("/{p}{t}"),
            1 => format!("{p}.html{t}"),
            2 => format!("#{}", gen::ident(&mut self.r)),
            3 => format!("../{p}{t}"),
            4 => format!("mailto:{}@example.com", gen::ident(&mut self.r)),
            5 => format!("ftp://example.org/{p}"),
            6 => format!("https://example.org:8080/{p}{t}"),
            7 => "http://example.net".to_owned(),
            _ => format!("http://www.example.com/{p}{t}"),
        }
    }
    pub fn rel(&self) -> Attrs {
        self.cfg.rel.iter().map(|r| ("rel".to_owned(), r.clone())).collect()
    }
    pub fn link(&mut self, o: O) -> Piece {
        let u = self.url();
        self.link_to(&u, &u, o)
    }
    pub fn link_to(&mut self, written: &str, href: &str, o: O) -> Piece {
        let (s, mut a) = if self.r.one_in(3) { self.cls(6, &[], &[]) } else { (String::new(), vec![]) };
        a.push(("href".into(), href.to_owned()));
        self.f("link");
        let saved = std::mem::take(&mut self.open);
        let o2 = O { links: false, raw: false, br: false, deco: false, glyphs: o.glyphs && self.r.one_in(3), spans: o.spans.min(2), ..o };
        let mut t = self.text(3, o2);
        self.open = saved;
        if t.s.ends_with(')') || t.s.contains('"') || t.s.contains("...") {
            let w = self.words(1, 3);
            t = pc(&w, &w);
        }
        let mut title = String::new();
        if self.r.one_in(4) {
            let v = self.words(1, 3);
            title = format!("({})", v);
            a.push(("title".into(), v));
            self.f("link title");
        }
        a.extend(self.rel());
        pc(format!("\"{s}{}{title}\":{written}", t.s), format!("<a{}>{}</a>", at(&a), t.h))
    }
    pub fn image(&mut self) -> Piece {
        let mut a: Attrs = vec![];
        let mut al = "";
        if self.r.one_in(3) {
            let (m, v) = *self.r.pick(&[("<", "left"), (">", "right"), ("=", "center")]);
            al = m;
            self.f(&format!("image {}", v));
            if self.cfg.align_class() {
                a.push(("class".into(), format!("align-{v}")));
            } else {
                a.push(("align".into(), v.to_owned()));
            }
        }
        let (s, b) = if self.r.one_in(3) { self.cls(6, &[], &[]) } else { (String::new(), vec![]) };
        for (k, v) in b {
            if k == "class" && a.first().map(|x| x.0 == "class").unwrap_or(false) {
                a[0].1 = format!("{} {}", v, a[0].1);
            } else {
                a.push((k, v));
            }
        }
        let u = match self.r.below(4) {
            0 => format!("/{}.png", self.path()),
            1 => format!("{}.jpg", self.path()),
            2 => format!("http://example.com/{}.gif?a=b&c=d", self.path()),
            _ => format!("https://example.com/{}.png", self.path()),
        };
        a.push(("src".into(), u.clone()));
        let mut alt = String::new();
        if self.r.one_in(2) {
            let v = self.words(1, 3);
            alt = format!("({v})");
            a.push(("alt".into(), v.clone()));
            a.push(("title".into(), v));
            self.f("image alt");
        } else {
            a.push(("alt".into(), String::new()));
        }
        self.f("image");
        let img = format!("<img{} />", at(&a));
        let src = format!("!{al}{s}{u}{alt}!");
        if self.r.one_in(3) {
            let l = self.url();
            let mut la = vec![("href".to_owned(), l.clone())];
            la.extend(self.rel());
            self.f("image link");
            return pc(format!("{src}:{l}"), format!("<a{}>{img}</a>", at(&la)));
        }
        pc(src, img)
    }
}

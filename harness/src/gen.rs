//! Hostile and realistic inputs.
use crate::mon::Rng;
use serde_json::Value;

pub fn corpus() -> &'static Vec<(String, String)> {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<(String, String)>> = OnceLock::new();
    C.get_or_init(|| {
        let v: Value = serde_json::from_str(include_str!("../../corpus/fixtures.json")).unwrap();
        v.as_array()
            .unwrap()
            .iter()
            .map(|f| (f["name"].as_str().unwrap().to_owned(), f["input"].as_str().unwrap().to_owned()))
            .collect()
    })
}

pub const TOKENS: &[&str] = &[
    "*", "**", "_", "__", "-", "+", "%", "~", "^", "??", "@", "==", "<notextile>", "</notextile>", "<pre>", "</pre>",
    "<code>", "</code>", "\"", "\":", "\":http://a.b/c", "\":/rel", "\":al ", "http://a.b/?q=1&r=2", "mailto:a@b.c", "javascript:alert(1)",
    "data:text/html,x", "'", "!", "!a.png!", "!>a.png(alt)!", "!a.png!:/u", "!(cl)a.png!", "|", "|_. ", "|\\2. ", "|/3. ", "|^. ", "|-. ",
    "|^.\n", "|-.\n", "|~.\n", "|:", "|:\\3. 100|", "|=. cap\n", "|a|b|\n", "|\n", "\n", "\n", "\n\n", "\n\n", "* ", "# ", "## ", "** ", "*# ", "; ", ": ", "- ",
    " := ", " =:", "- t := d\n", "#_ ", "#5 ", "p. ", "p(cl#id). ", "p>. ", "p((. ", "p)). ", "h1. ", "h6{color:red}. ", "bq. ", "bq.. ", "bq.:http://c.d/ ",
    "bc. ", "bc.. ", "bc[ruby]. ", "pre. ", "pre.. ", "notextile. ", "notextile.. ", "###. ", "###.. ", "fn1. ", "fn1^. ", "fn2(c#i). ", "[1]", "[1!]", "[2]",
    "[#n]", "[#n!]", "[#m]", "note#n. ", "note#n!. ", "note#m^ ", "notelist. ", "notelist:a^+. ", "notelist!.", "[al]http://x.y/z ", "[al]/x ", "(c)", "(tm)", "(r)", "[o]",
    "(1/2)", "(+/-)", "...", "--", " - ", " x ", "2x3", "2\" x 3'", "ABC", "ABC(def)", "HTML5(x \"y\")", "&", "&amp;", "&#123;", "<", ">", "<br>",
    "<br />", "<b>", "</b>", "<div>", "</div>", "<p>", "</p>", "<!--", "-->", "<img src=x>", "<hr>", "<a href=\"x\">", "</a>", "(cls)", "(#id)",
    "(cls#id)", "{color:red}", "[en]", "[en-gb]", "<>", "=", "((", "))", "{", "}", "[", "]", "(", ")", "table(c). ", "table. sum\n", "table. ", "{font:x}", "$", "\"$\":",
    "é", "ß", "İ", "福", "\u{301}", "\u{200b}", "\u{2028}", "\u{85}", "\u{a0}", "𝒳", "🎉", "“", "«", "»", "¤", "†", "\t", "\r", "\r\n", "\0", "\u{1}",
    "\u{b}", "\u{c}", "\u{7f}", "18446744073709551616", "4294967296", "0", "1", "12", "٣", "²", "Ⅷ", "½", "foo", "bar", "baz qux", " ", " ", " ", ".", ",", ";", ":",
    "?", "/", "\\", "\\2", "/2", "^.", "~.", "-.", ".", "`", "#", "on", "onclick=x", "style=", "class", "id", "a=b", "linkStartMarker:", ":glyph:", "textileRef", ":shelve", ":url",
];

pub fn soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    // a few favourite tokens make interactions likely
    let k = r.range(2, 12);
    let fav: Vec<&str> = (0..k).map(|_| *r.pick(TOKENS)).collect();
    let bias = r.range(1, 9);
    for _ in 0..n {
        if r.below(10) < bias {
            s.push_str(*r.pick(&fav));
        } else {
            s.push_str(*r.pick(TOKENS));
        }
        if r.one_in(4) {
            s.push(' ');
        }
    }
    s
}

const LINE_STARTS: &[&str] = &[
    "", "", "* ", "** ", "# ", "## ", "#* ", "*# ", "#_ ", "#7 ", "; ", ": ", ";; ", "- ", "|", "|_. ", "p. ", "h2. ", "bq. ", "bq.. ", "bc. ", "bc.. ", "pre.. ",
    "fn1. ", "note#a. ", "notelist.", "###. ", "notextile. ", " ", "table(x){y:z}. s", "|^.", "|~.", "|=. ", "|:. ", "<div>", "<b>", "[u]http://u.v ", "*(c) ", "#(c#i) ", "|(c#i). ",
    "p(c). ", "p[fr]. ", "p{color:red}. ", "h3<>. ", "==", "<!-- ",
];
const FRAGS: &[&str] = &[
    "word", "two words", "*b*", "_e_", "@c@", "\"t\":/u", "\"t(x)\":http://u.v/", "!i.png!", "!i.png(alt)!", "[1]", "[#a]", "ABC", "ABC(x)", "-d-", "+i+", "^s^", "~s~", "%(c)s%", "??c??", "'q'", "\"q\"",
    "a -- b", "a - b", "1 x 2", "...", "(c)", "<b>h</b>", "&", "<", ">", "é", "==n==", "|", "| b |", "* ", ":=", "<br>", "\"u\":u", "[*x*]", "{*x*}", "*(c){d:e}[fr]t*", "_[en]t_", "**bb**", "__ii__", "*a _b +c -d ^e^ f- g+ h_ i*", "%a ??b ~c *d _e_ f* g~ h?? i%", "(\"q)", "['q']",
];
pub fn lines(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(LINE_STARTS));
        let k = r.below(4);
        for j in 0..k {
            if j > 0 && !r.one_in(5) {
                s.push(' ');
            }
            s.push_str(*r.pick(FRAGS));
        }
        match r.below(6) {
            0 => s.push_str(" |"),
            1 => s.push('|'),
            _ => {}
        }
        s.push_str(if r.one_in(3) { "\n\n" } else { "\n" });
    }
    s
}

fn char_at(s: &str, r: &mut Rng) -> usize {
    let mut p = r.below(s.len() + 1);
    while !s.is_char_boundary(p) {
        p -= 1;
    }
    p
}

pub fn mutate(r: &mut Rng, base: &str) -> String {
    let mut s = base.to_owned();
    let n = r.range(1, 6);
    for _ in 0..n {
        let p = char_at(&s, r);
        match r.below(6) {
            0 => s.insert_str(p, *r.pick(TOKENS)),
            1 => {
                let q = char_at(&s, r);
                let (a, b) = (p.min(q), p.max(q));
                let b = if b - a > 40 { let mut x = a + 40; while !s.is_char_boundary(x) { x -= 1 } x } else { b };
                s.replace_range(a..b, "");
            }
            2 => {
                let q = char_at(&s, r);
                let (a, b) = (p.min(q), p.max(q));
                let b = if b - a > 200 { let mut x = a + 200; while !s.is_char_boundary(x) { x -= 1 } x } else { b };
                let piece = s[a..b].to_owned();
                let t = char_at(&s, r);
                s.insert_str(t, &piece);
            }
            3 => {
                let other = &r.pick(corpus()).1.clone();
                let (a, b) = (char_at(other, r), char_at(other, r));
                let (a, b) = (a.min(b), a.max(b));
                let b = if b - a > 200 { let mut x = a + 200; while !other.is_char_boundary(x) { x -= 1 } x } else { b };
                s.insert_str(p, &other[a..b]);
            }
            4 => s.insert(p, if r.one_in(2) { '\n' } else { ' ' }),
            _ => {
                // swap two lines
                let mut ls: Vec<&str> = s.split('\n').collect();
                if ls.len() > 1 {
                    let (a, b) = (r.below(ls.len()), r.below(ls.len()));
                    ls.swap(a, b);
                    s = ls.join("\n");
                }
            }
        }
    }
    s
}

/// A document of well-formed constructs of all kinds, nested and with attributes.
pub fn structured(r: &mut Rng) -> String {
    let cfg = crate::mon::Cfg { restricted: r.one_in(3), ..crate::mon::Cfg::default() };
    let mut g = crate::model::G::new(r.clone(), &cfg);
    let o = crate::model::O { spans: if g.r.one_in(3) { 5 } else { 2 }, ..crate::model::RICH };
    let n = g.r.range(1, 3);
    let d = crate::blocks::join(&g.doc(n, o));
    *r = g.r.clone();
    let mut s = d.s;
    if r.one_in(4) {
        let l = lines(r, 3);
        s = if r.one_in(2) { format!("{s}\n\n{l}") } else { format!("{l}\n\n{s}") };
    }
    s
}
pub fn hostile(r: &mut Rng) -> String {
    let s = match r.below(12) {
        10 => structured(r),
        11 => {
            let s = structured(r);
            mutate(r, &s)
        }
        0..=3 => {
            let n = r.range(1, 40);
            soup(r, n)
        }
        4..=6 => {
            let n = r.range(1, 10);
            lines(r, n)
        }
        7..=8 => {
            let base = r.pick(corpus()).1.clone();
            let base = if base.len() > 600 {
                let mut a = char_at(&base, r).saturating_sub(400);
                while !base.is_char_boundary(a) {
                    a -= 1
                }
                let mut b = (a + 500).min(base.len());
                while !base.is_char_boundary(b) {
                    b -= 1
                }
                base[a..b].to_owned()
            } else {
                base
            };
            mutate(r, &base)
        }
        _ => {
            let n = r.range(1, 60);
            (0..n)
                .map(|_| {
                    if r.one_in(8) {
                        char::from_u32(r.below(0x3000) as u32).unwrap_or('x')
                    } else {
                        (32 + r.below(95)) as u8 as char
                    }
                })
                .collect()
        }
    };
    if s.len() > 4000 {
        let mut e = 4000;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        s[..e].to_owned()
    } else {
        s
    }
}

const LETTERS: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "y", "z"];
const EXOTIC: &[&str] = &["é", "ü", "ß", "д", "福", "ñ", "ø", "ι"];
const BANNED: &[&str] = &["bq", "bc", "pre", "notextile", "table", "note", "notelist", "fn", "tm"];
/// A word which means nothing to Textile.
pub fn word(r: &mut Rng) -> String {
    loop {
        let n = r.range(2, 8);
        let mut s = String::new();
        for _ in 0..n {
            if r.one_in(25) {
                s.push_str(*r.pick(EXOTIC));
            } else {
                s.push_str(*r.pick(LETTERS));
            }
        }
        if !BANNED.contains(&s.as_str()) {
            return s;
        }
    }
}
pub fn words(r: &mut Rng, a: usize, b: usize) -> String {
    let n = r.range(a, b);
    (0..n).map(|_| word(r)).collect::<Vec<_>>().join(" ")
}
/// An ASCII identifier.
pub fn ident(r: &mut Rng) -> String {
    let n = r.range(1, 6);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 && r.one_in(8) {
            s.push_str(*r.pick(&["-", "_", "7", "0"]));
        }
        s.push_str(*r.pick(LETTERS));
    }
    s
}

//! HTML observation: a strict tokenizer (for what the parser itself generates) and the HTML5
//! tokenizer (for what a browser would see).
use html5ever::tendril::StrTendril;
use html5ever::tokenizer::{
    states::RawKind, BufferQueue, TagKind, Token, TokenSink, TokenSinkResult, Tokenizer, TokenizerOpts,
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Start(String, Vec<(String, String)>),
    End(String),
    Text(String),
    Comment(String),
}

pub const VOID: [&str; 8] = ["br", "hr", "img", "col", "input", "wbr", "area", "link"];
pub fn is_void(n: &str) -> bool {
    VOID.contains(&n)
}

pub fn decode(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(p) = rest.find('&') {
        out.push_str(&rest[..p]);
        rest = &rest[p..];
        if let Some(e) = rest.find(';') {
            let name = &rest[1..e];
            let rep: Option<String> = match name {
                "amp" => Some("&".into()),
                "lt" => Some("<".into()),
                "gt" => Some(">".into()),
                "quot" => Some("\"".into()),
                "nbsp" => Some("\u{a0}".into()),
                "apos" => Some("'".into()),
                "copy" => Some("©".into()),
                _ => {
                    let num = if let Some(h) = name.strip_prefix("#x").or_else(|| name.strip_prefix("#X")) {
                        u32::from_str_radix(h, 16).ok()
                    } else if let Some(d) = name.strip_prefix('#') {
                        if d.chars().all(|c| c.is_ascii_digit()) { d.parse().ok() } else { None }
                    } else {
                        None
                    };
                    num.and_then(char::from_u32).map(|c| c.to_string())
                }
            };
            if let Some(r) = rep {
                out.push_str(&r);
                rest = &rest[e + 1..];
                continue;
            }
        }
        out.push('&');
        rest = &rest[1..];
    }
    out.push_str(rest);
    out
}

fn name_end(s: &str) -> usize {
    s.find(|c: char| c.is_ascii_whitespace() || c == '>' || c == '/' || c == '=').unwrap_or(s.len())
}

/// Tokenizes well-formed HTML; anything doubtful is an error.
pub fn strict(html: &str) -> Result<Vec<Tok>, String> {
    let mut out = vec![];
    let mut rest = html;
    while !rest.is_empty() {
        let p = rest.find('<').unwrap_or(rest.len());
        if p > 0 {
            if rest[..p].contains('>') {
                return Err(format!("stray '>' in text {:?}", &rest[..p]));
            }
            out.push(Tok::Text(decode(&rest[..p])));
            rest = &rest[p..];
            continue;
        }
        if let Some(r) = rest.strip_prefix("<!--") {
            let e = r.find("-->").ok_or("unclosed comment")?;
            out.push(Tok::Comment(r[..e].to_owned()));
            rest = &r[e + 3..];
            continue;
        }
        if let Some(r) = rest.strip_prefix("</") {
            let e = r.find('>').ok_or("unclosed end tag")?;
            let n = &r[..e];
            if n.is_empty() || !n.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') {
                return Err(format!("bad end tag {:?}", n));
            }
            out.push(Tok::End(n.to_owned()));
            rest = &r[e + 1..];
            continue;
        }
        let r = &rest[1..];
        let e = name_end(r);
        let name = &r[..e];
        if name.is_empty() || !name.starts_with(|c: char| c.is_ascii_alphabetic()) || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') {
            return Err(format!("stray '<' before {:?}", r.chars().take(20).collect::<String>()));
        }
        let mut r = &r[e..];
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            let t = r.trim_start_matches(|c: char| c.is_ascii_whitespace());
            if let Some(x) = t.strip_prefix("/>") {
                r = x;
                break;
            }
            if let Some(x) = t.strip_prefix('>') {
                r = x;
                break;
            }
            if t.len() == r.len() {
                return Err(format!("junk in the tag <{}> before {:?}", name, r.chars().take(20).collect::<String>()));
            }
            let e = name_end(t);
            let an = &t[..e];
            if an.is_empty() || !an.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') {
                return Err(format!("bad attribute name {:?} in <{}>", an, name));
            }
            let t = t[e..].strip_prefix('=').ok_or_else(|| format!("attribute {:?} without a value in <{}>", an, name))?;
            let q = t.chars().next().unwrap_or(' ');
            if q != '"' && q != '\'' {
                return Err(format!("unquoted attribute {:?} in <{}>", an, name));
            }
            let t = &t[1..];
            let e = t.find(q).ok_or_else(|| format!("unclosed attribute {:?} in <{}>", an, name))?;
            if t[..e].contains('<') || t[..e].contains('>') {
                return Err(format!("unescaped angle bracket in the attribute {:?} of <{}>", an, name));
            }
            if attrs.iter().any(|a| a.0 == an) {
                return Err(format!("duplicate attribute {:?} in <{}>", an, name));
            }
            attrs.push((an.to_owned(), decode(&t[..e])));
            r = &t[e + 1..];
        }
        out.push(Tok::Start(name.to_owned(), attrs));
        rest = r;
    }
    Ok(out)
}

/// Checks the nesting of the tags.
pub fn balanced(toks: &[Tok]) -> Result<(), String> {
    let mut st: Vec<&str> = vec![];
    for t in toks {
        match t {
            Tok::Start(n, _) if !is_void(n) => st.push(n),
            Tok::End(n) => match st.pop() {
                Some(x) if x == n => {}
                x => return Err(format!("</{}> closes {:?}", n, x)),
            },
            _ => {}
        }
    }
    if st.is_empty() { Ok(()) } else { Err(format!("never closed: {:?}", st)) }
}

const BLOCKS: [&str; 31] = [
    "p", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "pre", "ul", "ol", "li", "dl", "dt", "dd", "table", "caption",
    "colgroup", "col", "thead", "tbody", "tfoot", "tr", "td", "th", "br", "hr", "div", "section", "article", "form",
];
fn is_block(t: Option<&Tok>) -> bool {
    match t {
        None => true,
        Some(Tok::Start(n, _)) | Some(Tok::End(n)) => BLOCKS.contains(&n.as_str()),
        _ => false,
    }
}

fn collapse(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut ws = false;
    for c in s.chars() {
        if c.is_ascii_whitespace() {
            ws = true;
        } else {
            if ws {
                o.push(' ');
            }
            ws = false;
            o.push(c);
        }
    }
    if ws {
        o.push(' ');
    }
    o
}

fn norm_attr(k: &str, v: &str) -> String {
    match k {
        "style" => v.split(';').map(|d| d.trim()).filter(|d| !d.is_empty()).collect::<Vec<_>>().join("; "),
        "class" => {
            let mut w: Vec<&str> = v.split_ascii_whitespace().collect();
            w.sort();
            w.join(" ")
        }
        "href" | "src" | "cite" => norm_url(v),
        _ => v.to_owned(),
    }
}
/// Spelling differences that do not matter to a browser.
pub fn norm_url(v: &str) -> String {
    match url::Url::parse(v) {
        Ok(u) => u.to_string(),
        Err(_) => percent_encoding::percent_decode_str(v).decode_utf8_lossy().into_owned(),
    }
}

/// Canonical form: sorted attributes, insignificant whitespace removed (kept verbatim within code and pre).
pub fn norm(toks: Vec<Tok>) -> Vec<Tok> {
    // merge texts
    let mut m: Vec<Tok> = vec![];
    for t in toks {
        match (m.last_mut(), t) {
            (Some(Tok::Text(a)), Tok::Text(b)) => a.push_str(&b),
            (_, Tok::Start(n, mut a)) => {
                for (k, v) in a.iter_mut() {
                    *v = norm_attr(k, v);
                }
                a.sort();
                m.push(Tok::Start(n, a))
            }
            (_, t) => m.push(t),
        }
    }
    let mut out: Vec<Tok> = vec![];
    let mut verb = 0;
    for i in 0..m.len() {
        match &m[i] {
            Tok::Text(s) if verb == 0 => {
                let mut s = collapse(s);
                if is_block(if i == 0 { None } else { m.get(i - 1) }) {
                    s = s.trim_start_matches(' ').to_owned();
                }
                if is_block(m.get(i + 1)) {
                    s = s.trim_end_matches(' ').to_owned();
                }
                if !s.is_empty() {
                    out.push(Tok::Text(s));
                }
            }
            t => {
                match t {
                    Tok::Start(n, _) if n == "pre" || n == "code" => verb += 1,
                    Tok::End(n) if n == "pre" || n == "code" => verb -= 1,
                    _ => {}
                }
                // <br> already implies a break
                out.push(t.clone());
            }
        }
    }
    out
}

pub fn norm_html(html: &str) -> Result<Vec<Tok>, String> {
    strict(html).map(norm)
}

pub fn show(toks: &[Tok]) -> String {
    let mut o = String::new();
    for t in toks {
        match t {
            Tok::Start(n, a) => {
                o.push('<');
                o.push_str(n);
                for (k, v) in a {
                    o.push_str(&format!(" {}={:?}", k, v));
                }
                o.push('>');
            }
            Tok::End(n) => o.push_str(&format!("</{}>", n)),
            Tok::Text(s) => o.push_str(s),
            Tok::Comment(s) => o.push_str(&format!("<!--{}-->", s)),
        }
    }
    o
}

/// None when equal, otherwise a description of the first difference.
pub fn diff(expected: &str, actual: &str) -> Option<String> {
    let e = match norm_html(expected) {
        Ok(e) => e,
        Err(x) => return Some(format!("MODEL PRODUCED BAD HTML ({}): {}", x, expected)),
    };
    let a = match norm_html(actual) {
        Ok(a) => a,
        Err(x) => return Some(format!("malformed output ({})\n  expected: {}\n  actual:   {}", x, expected, actual)),
    };
    if e == a {
        return None;
    }
    let i = e.iter().zip(a.iter()).take_while(|(x, y)| x == y).count();
    let w = |v: &[Tok]| show(&v[i.min(v.len())..(i + 6).min(v.len())]);
    Some(format!("difference at token {}: expected {:?} got {:?}\n  expected: {}\n  actual:   {}", i, w(&e), w(&a), show(&e), show(&a)))
}

/// Concatenated text.
pub fn text_of(toks: &[Tok]) -> String {
    let mut o = String::new();
    for t in toks {
        match t {
            Tok::Text(s) => o.push_str(s),
            _ => o.push('\u{1f}'),
        }
    }
    o
}

struct Sink(Vec<Tok>, Vec<String>);
impl TokenSink for Sink {
    type Handle = ();
    fn process_token(&mut self, token: Token, _: u64) -> TokenSinkResult<()> {
        match token {
            Token::TagToken(t) => {
                let n = t.name.to_string();
                match t.kind {
                    TagKind::StartTag => {
                        let a = t.attrs.iter().map(|a| (a.name.local.to_string(), a.value.to_string())).collect();
                        let raw = match n.as_str() {
                            "script" => Some(RawKind::ScriptData),
                            "style" | "xmp" | "iframe" | "noembed" | "noframes" => Some(RawKind::Rawtext),
                            "textarea" | "title" => Some(RawKind::Rcdata),
                            _ => None,
                        };
                        self.0.push(Tok::Start(n, a));
                        if let Some(k) = raw {
                            return TokenSinkResult::RawData(k);
                        }
                    }
                    TagKind::EndTag => self.0.push(Tok::End(n)),
                }
            }
            Token::CharacterTokens(s) => match self.0.last_mut() {
                Some(Tok::Text(t)) => t.push_str(&s),
                _ => self.0.push(Tok::Text(s.to_string())),
            },
            Token::NullCharacterToken => match self.0.last_mut() {
                Some(Tok::Text(t)) => t.push('\0'),
                _ => self.0.push(Tok::Text("\0".into())),
            },
            Token::CommentToken(s) => self.0.push(Tok::Comment(s.to_string())),
            Token::ParseError(e) => self.1.push(e.to_string()),
            _ => {}
        }
        TokenSinkResult::Continue
    }
}

/// What a browser's tokenizer sees.
pub fn browser(html: &str) -> (Vec<Tok>, Vec<String>) {
    let mut t = Tokenizer::new(Sink(vec![], vec![]), TokenizerOpts { exact_errors: false, ..Default::default() });
    let mut q = BufferQueue::new();
    q.push_back(StrTendril::from(html));
    let _ = t.feed(&mut q);
    t.end();
    (t.sink.0, t.sink.1)
}

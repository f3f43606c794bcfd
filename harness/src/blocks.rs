//! Block-level part of the model.
use crate::gen;
use crate::model::*;

fn pick_code(g: &mut G, lines: usize) -> String {
    let n = g.r.range(1, lines);
    let mut v = vec![];
    for i in 0..n {
        let k = g.r.range(1, 6);
        let mut l = String::new();
        for _ in 0..k {
            l.push_str(*g.r.pick(&[
                "a", "foo ", "  ", "<b>", "</code>", "</pre>", "&amp;", "&", "\"", "'", "*x*", "_y_ ", "--", "...", "(c)", "ABC ", "http://a.b/", "x < y", "[1]", "\\", "#", "{a:b}", "%", "é", "!a.png! ", "\"l\":/u ", "| c |", "3x4", "@q@", "==z==",
                "<notextile>n</notextile>", "<!-- c -->", "p. ", "h1. ", "* ", "# ", "|", "^", "~", "<br>", "\t", "福", "&lt;", "[#n]", "note#n. ", "fn1. ", ":", ";", "- a := b", "[al]http://x.y/", "$1", "\\2", "🎉",
            ]));
        }
        // neither a blank line nor trailing space nobody could see
        let l = l.trim_end().to_owned();
        v.push(if l.is_empty() { "z".to_owned() } else if i == 0 { l.trim_start().to_owned() } else { l });
    }
    let s = v.join("\n");
    if s.is_empty() { "z".into() } else { s }
}

impl G {
    pub fn para(&mut self, o: O) -> Piece {
        let o = O { br: true, ..o };
        if self.r.one_in(2) {
            let t = self.text(6, o);
            return pc(t.s, format!("<p>{}</p>", t.h));
        }
        let (s, a) = self.block_atts(5);
        let t = self.inline(5, o);
        self.f("block p");
        pc(format!("p{s}. {}", t.s), format!("<p{}>{}</p>", at(&a), t.h))
    }
    pub fn heading(&mut self, o: O) -> Piece {
        let (s, a) = self.block_atts(4);
        let t = self.inline(4, O { br: true, ..o });
        let n = self.r.range(1, 6);
        self.f(&format!("block h{n}"));
        pc(format!("h{n}{s}. {}", t.s), format!("<h{n}{}>{}</h{n}>", at(&a), t.h))
    }
    pub fn code_text(&mut self, lines: usize) -> String {
        pick_code(self, lines)
    }
    /// (source of the marker with its attributes, opening tags, closing tags)
    fn bc_head(&mut self) -> (String, String, String) {
        let (mut s, mut a) = self.block_atts(3);
        // the language goes to the inner element
        let mut inner = String::new();
        if let Some(i) = a.iter().position(|x| x.0 == "lang") {
            let l = a.remove(i).1;
            inner = format!(" class=\"{l}\"");
        } else if self.r.one_in(3) && s.is_empty() {
            let l = *self.r.pick(&["ruby", "rust", "c", "objective-c"]);
            s = format!("[{l}]");
            inner = format!(" class=\"{l}\"");
        }
        (format!("bc{s}"), format!("<pre{}><code{inner}>", at(&a)), "</code></pre>".into())
    }
    pub fn bc(&mut self) -> Piece {
        let (m, o, c) = self.bc_head();
        let t = self.code_text(4);
        self.f("block bc");
        pc(format!("{m}. {t}"), format!("{o}{}{c}", esc(&t)))
    }
    pub fn pre(&mut self) -> Piece {
        let (s, a) = self.block_atts(3);
        let t = self.code_text(4);
        self.f("block pre");
        pc(format!("pre{s}. {t}"), format!("<pre{}>{}</pre>", at(&a), esc(&t)))
    }
    pub fn notextile(&mut self) -> Piece {
        let t = self.words(1, 3);
        let m = *self.r.pick(&["*not strong*", "_a_ -- b", "\"a\":/b", "h1. x", "<i>y</i>", "!a.png!", "it's", "<b class=\"q\">z</b>", "3x4", "ABC"]);
        self.f("block notextile");
        let h = if self.cfg.restricted { esc(m) } else { m.to_owned() };
        // a div makes it a block of its own
        pc(format!("notextile. {t} {m}"), format!("{t} {h}"))
    }
    pub fn comment(&mut self) -> Piece {
        let t = self.inline(3, PLAIN);
        self.f("block comment");
        pc(format!("###. {}", t.s), "")
    }
    pub fn bq(&mut self, o: O) -> Piece {
        let (s, a) = self.block_atts(4);
        let inner: Attrs = a.iter().filter(|x| x.0 != "id").cloned().collect();
        let mut outer = a;
        let mut c = String::new();
        if self.r.one_in(3) {
            let u = self.url();
            c = format!(":{u}");
            outer.push(("cite".into(), u));
            self.f("bq citation");
        }
        let t = self.inline(4, O { br: true, ..o });
        self.f("block bq");
        pc(format!("bq{s}.{c} {}", t.s), format!("<blockquote{}><p{}>{}</p></blockquote>", at(&outer), at(&inner), t.h))
    }
    /// An extended block with its continuation; must be followed by an explicit block or nothing.
    pub fn extended(&mut self, o: O) -> Piece {
        let n = self.r.range(0, 3);
        let sep = |g: &mut G| if g.r.one_in(4) { "\n\n\n" } else { "\n\n" };
        match self.r.below(if self.cfg.lite { 3 } else { 7 }) {
            0 => {
                let (s, a) = self.block_atts(4);
                let inner: Attrs = a.iter().filter(|x| x.0 != "id").cloned().collect();
                let t = self.inline(3, o);
                let mut src = format!("bq{s}.. {}", t.s);
                let mut h = format!("<blockquote{}><p{}>{}</p>", at(&a), at(&inner), t.h);
                for _ in 0..n {
                    let t = self.text(3, O { br: true, ..o });
                    src += &format!("{}{}", sep(self), t.s);
                    h += &format!("<p{}>{}</p>", at(&inner), t.h);
                }
                self.f("extended bq");
                pc(src, h + "</blockquote>")
            }
            1 => {
                let (m, op, c) = self.bc_head();
                let mut t = self.code_text(3);
                let mut src = format!("{m}.. {t}");
                for _ in 0..n {
                    let mut x = self.code_text(3);
                    if is_explicit(&x) {
                        x.insert(0, '=');
                    }
                    let sp = sep(self);
                    src += &format!("{sp}{x}");
                    t += &format!("{sp}{x}");
                }
                self.f("extended bc");
                pc(src, format!("{op}{}{c}", esc(&t)))
            }
            2 => {
                let (s, a) = self.block_atts(4);
                let a: Attrs = a.into_iter().filter(|x| x.0 != "id").collect();
                let s = drop_id(&s);
                let t = self.inline(3, o);
                let mut src = format!("p{s}.. {}", t.s);
                let mut h = format!("<p{}>{}</p>", at(&a), t.h);
                for _ in 0..n {
                    let t = self.text(3, O { br: true, ..o });
                    src += &format!("{}{}", sep(self), t.s);
                    h += &format!("<p{}>{}</p>", at(&a), t.h);
                }
                self.f("extended p");
                pc(src, h)
            }
            3 => {
                let (s, a) = self.block_atts(3);
                let mut t = self.code_text(3);
                let mut src = format!("pre{s}.. {t}");
                for _ in 0..n {
                    let mut x = self.code_text(3);
                    if is_explicit(&x) {
                        x.insert(0, '=');
                    }
                    let sp = sep(self);
                    src += &format!("{sp}{x}");
                    t += &format!("{sp}{x}");
                }
                self.f("extended pre");
                pc(src, format!("<pre{}>{}</pre>", at(&a), esc(&t)))
            }
            4 => {
                let mut src = format!("###.. {}", self.words(1, 3));
                for _ in 0..n {
                    let t = self.text(3, o);
                    src += &format!("{}{}", sep(self), t.s);
                }
                self.f("extended comment");
                pc(src, "")
            }
            5 => {
                let k = self.r.range(1, 6);
                let t = self.inline(3, o);
                let mut src = format!("h{k}.. {}", t.s);
                let mut h = format!("<h{k}>{}</h{k}>", t.h);
                for _ in 0..n {
                    let t = self.text(3, o);
                    src += &format!("{}{}", sep(self), t.s);
                    h += &format!("<h{k}>{}</h{k}>", t.h);
                }
                self.f("extended heading");
                pc(src, h)
            }
            _ => {
                let t = self.notextile();
                let mut src = t.s.replacen("notextile.", "notextile..", 1);
                let mut h = t.h;
                for _ in 0..n {
                    let t = self.notextile();
                    src += &format!("{}{}", sep(self), t.s.strip_prefix("notextile. ").unwrap());
                    h += &format!("\n\n{}", t.h);
                }
                self.f("extended notextile");
                pc(src, h)
            }
        }
    }

    // ------------------------------------------------------------ lists
    pub fn item(&mut self, o: O, multiline: bool) -> Piece {
        let mut t = self.text(4, o);
        if multiline && self.mark.is_none() && self.r.one_in(25) {
            // next to nothing
            let x = *self.r.pick(&["-", "0", "1", "#", ".", "?", "x", "1.", "+", "~", "/"]);
            t = pc(x, x);
            self.f("tiny item");
        }
        if multiline && self.r.one_in(5) {
            let mut w = self.text(2, o);
            match self.r.below(6) {
                0 if o.spans > 0 => {
                    let b = self.word();
                    w = pc(format!("*{b}* {}", w.s), format!("<strong>{b}</strong> {}", w.h));
                    self.f("item line starting with a phrase");
                }
                1 => {
                    let c = *self.r.pick(&["#", ":", ";"]);
                    let b = self.word();
                    w = pc(format!("{c}{b} {}", w.s), format!("{c}{b} {}", w.h));
                    self.f("item line starting like an item");
                }
                _ => {}
            }
            t = pc(format!("{}\n{}", t.s, w.s), format!("{}{}{}", t.h, self.br(), w.h));
            self.f("multi-line item");
        }
        t
    }
    /// A list with the given prefix of markers; returns its lines and its HTML.
    fn sublist(&mut self, prefix: &str, o: O, kind: Option<bool>, counter: &mut std::collections::HashMap<String, usize>, cell: bool) -> Piece {
        let ol = kind.unwrap_or(self.r.one_in(2));
        let mark = format!("{prefix}{}", if ol { "#" } else { "*" });
        let depth = mark.len();
        self.f(&format!("list {} depth {}", if ol { "ol" } else { "ul" }, depth));
        let n = self.r.range(1, 4);
        let (mut src, mut h) = (String::new(), String::new());
        let tag = if ol { "ol" } else { "ul" };
        for i in 0..n {
            let (s, a) = if self.r.one_in(4) { self.cls(6, &[], &[]) } else { (String::new(), vec![]) };
            let mut a = a;
            let mut st = String::new();
            if i == 0 && ol {
                match self.r.below(5) {
                    0 => {
                        let k = if self.r.one_in(4) { self.r.below(100000) } else { self.r.below(30) };
                        st = k.to_string();
                        counter.insert(mark.clone(), k);
                        self.f("list start");
                    }
                    1 if !cell && counter.contains_key(&mark) => {
                        st = "_".into();
                        self.f("list continuation");
                        self.f(&format!("list continuation depth {depth}"));
                    }
                    _ => {
                        counter.insert(mark.clone(), 1);
                    }
                }
                if !st.is_empty() {
                    a.push(("start".into(), counter[&mark].to_string()));
                }
            }
            let it = self.item(o, true);
            if ol {
                *counter.get_mut(&mark).unwrap() += 1;
            }
            if i > 0 {
                src.push('\n');
            }
            src += &format!("{mark}{st}{s} {}", it.s);
            if i == 0 {
                h += &format!("<{tag}{}><li>{}", at(&a), it.h);
            } else {
                h += &format!("<li{}>{}", at(&a), it.h);
            }
            if depth < 9 && self.r.one_in(3) {
                let sub = self.lists(&mark, o, counter, cell);
                src += "\n";
                src += &sub.s;
                h += &sub.h;
            }
            h += "</li>";
        }
        h += &format!("</{tag}>");
        pc(src, h)
    }
    pub fn list(&mut self, o: O, counter: &mut std::collections::HashMap<String, usize>) -> Piece {
        let o = O { br: false, ..o };
        let mut p = self.lists("", o, counter, false);
        if self.r.one_in(10) {
            // definitions of the same block
            let d = self.deflist(O { spans: 0, ..o });
            if !d.h.contains("<br") && !p.h.contains("<br") {
                p = if self.r.one_in(2) { pc(format!("{}\n{}", p.s, d.s), format!("{}{}", p.h, d.h)) } else { pc(format!("{}\n{}", d.s, p.s), format!("{}{}", d.h, p.h)) };
                self.f("definitions next to a list");
            }
        }
        p
    }
    /// One or several lists of different kinds
    fn lists(&mut self, prefix: &str, o: O, counter: &mut std::collections::HashMap<String, usize>, cell: bool) -> Piece {
        let mut ol = self.r.one_in(2);
        let mut p = self.sublist(prefix, o, Some(ol), counter, cell);
        while self.r.one_in(6) {
            ol = !ol;
            let q = self.sublist(prefix, o, Some(ol), counter, cell);
            p = pc(format!("{}\n{}", p.s, q.s), format!("{}{}", p.h, q.h));
            self.f(&format!("list of another kind at depth {}", prefix.len() + 1));
        }
        p
    }
    pub fn deflist(&mut self, o: O) -> Piece {
        let o = O { br: false, ..o };
        let n = self.r.range(1, 3);
        let (mut src, mut h) = (vec![], String::new());
        let mut first = true;
        for _ in 0..n {
            let k = self.r.range(1, 2);
            for _ in 0..k {
                let (s, a) = if self.r.one_in(5) { self.cls(6, &[], &[]) } else { (String::new(), vec![]) };
                let t = self.item(o, false);
                src.push(format!(";{s} {}", t.s));
                if first {
                    h += &format!("<dl{}><dt>{}</dt>", at(&a), t.h);
                } else {
                    h += &format!("<dt{}>{}</dt>", at(&a), t.h);
                }
                first = false;
            }
            let k = self.r.range(1, 2);
            for _ in 0..k {
                let (s, a) = if self.r.one_in(5) { self.cls(6, &[], &[]) } else { (String::new(), vec![]) };
                let t = self.item(o, true);
                src.push(format!(":{s} {}", t.s));
                h += &format!("<dd{}>{}</dd>", at(&a), t.h);
            }
        }
        self.f("definition list");
        pc(src.join("\n"), h + "</dl>")
    }
    pub fn redcloth(&mut self, o: O) -> Piece {
        let o = O { br: false, ..o };
        let n = self.r.range(1, 4);
        let (mut src, mut h) = (vec![], String::from("<dl>"));
        for i in 0..n {
            let (s, a) = if self.r.one_in(5) { self.cls(6, &[], &[]) } else { (String::new(), vec![]) };
            let t = self.item(o, false);
            let d = self.item(o, false);
            match self.r.below(4) {
                3 if self.r.one_in(4) => {
                    // several lines on either side, the separator within the definition
                    let (x, e) = (self.words(1, 3), self.words(1, 3));
                    let br = self.br();
                    let sep = if self.r.one_in(2) { " := " } else { "\n" };
                    let hsep = if sep == "\n" { br.clone() } else { sep.to_owned() };
                    src.push(format!("-{s} {}\n{x} := {}{sep}{e}", t.s, d.s));
                    h += &format!("<dt{}>{}{br}{x}</dt><dd>{}{hsep}{e}</dd>", at(&a), t.h, d.h);
                    self.f("redcloth multi-line term");
                }
                1 if i + 1 < n && self.r.one_in(3) => {
                    let x = self.words(1, 3);
                    src.push(format!("-{s} {}\n{x}", t.s));
                    if i == 0 {
                        h = format!("<dl{}>", at(&a));
                    }
                    h += &format!("<dt{}>{}{}{x}</dt>", at(&a), t.h, self.br());
                    self.f("redcloth multi-line term without definition");
                }
                0 if i + 1 == n || self.r.one_in(2) => {
                    let e = self.item(o, false);
                    src.push(format!("-{s} {} :=\n{}\n{} =:", t.s, d.s, e.s));
                    h += &format!("<dt{}>{}</dt><dd><p>{}{}{}</p></dd>", at(&a), t.h, d.h, self.br(), e.h);
                    self.f("redcloth multi-line definition");
                }
                1 if i + 1 < n => {
                    // several terms of one definition
                    src.push(format!("-{s} {}", t.s));
                    if i == 0 {
                        // attributes there are the ones of the whole list, too
                        h = format!("<dl{}>", at(&a));
                    }
                    h += &format!("<dt{}>{}</dt>", at(&a), t.h);
                    self.f("redcloth term without definition");
                }
                _ => {
                    src.push(format!("-{s} {} := {}", t.s, d.s));
                    h += &format!("<dt{}>{}</dt><dd>{}</dd>", at(&a), t.h, d.h);
                }
            }
        }
        self.f("redcloth list");
        pc(src.join("\n"), h + "</dl>")
    }

    // ------------------------------------------------------------ tables
    fn cell(&mut self, o: O, simple: bool, first: bool) -> Piece {
        let th = self.r.one_in(4);
        let mut s = String::new();
        let mut a: Attrs = vec![];
        let mut marked = th;
        if !simple && self.r.one_in(2) {
            let mut sp = vec![];
            if self.r.one_in(4) {
                let n = self.r.range(2, 12);
                sp.push(format!("\\{n}"));
                a.push(("colspan".into(), n.to_string()));
                self.f("colspan");
            }
            if self.r.one_in(4) {
                let n = self.r.range(2, 12);
                sp.push(format!("/{n}"));
                a.push(("rowspan".into(), n.to_string()));
                self.f("rowspan");
            }
            self.r.shuffle(&mut sp);
            s += &sp.concat();
            let (mut before, mut after) = (vec![], vec![]);
            let mut al = vec![];
            if self.r.one_in(3) {
                let hs: &[(&str, &str)] = if self.cfg.restricted { &[("=", "center")] } else { &[("<", "left"), (">", "right"), ("=", "center"), ("<>", "justify")] };
                let (m, v) = *self.r.pick(hs);
                al.push(m);
                after.push(format!("text-align:{v}"));
                self.f(&format!("cell align {v}"));
            }
            if self.r.one_in(3) {
                let (m, v) = *self.r.pick(&[("^", "top"), ("-", "middle"), ("~", "bottom")]);
                al.push(m);
                before.push(format!("vertical-align:{v}"));
                self.f(&format!("cell valign {v}"));
            }
            self.r.shuffle(&mut al);
            if first && sp.is_empty() && !th && al.first() == Some(&"=") {
                // would be a caption
                sp.push("\\7".into());
                s += "\\7";
                a.push(("colspan".into(), "7".into()));
            }
            s += &al.concat();
            let (c, b) = self.cls(3, &before, &after);
            s += &c;
            a.extend(b);
            marked = marked || !s.is_empty();
        }
        let t = if self.r.one_in(12) && !self.cfg.lite {
            // a list within
            let mut cnt = Default::default();
            let l = self.lists("", O { images: false, ..o }, &mut cnt, true);
            self.f("list in a cell");
            if self.r.one_in(3) {
                let (w, v, x) = (self.word(), self.word(), self.word());
                self.f("definitions in a cell");
                if self.r.one_in(2) {
                    pc(format!("- {w} := {v}"), format!("<dl><dt>{w}</dt><dd>{v}</dd></dl>"))
                } else {
                    pc(format!("- {w} := {v}\n- {x} := {w}"), format!("<dl><dt>{w}</dt><dd>{v}</dd><dt>{x}</dt><dd>{w}</dd></dl>"))
                }
            } else {
                l
            }
        } else if self.r.one_in(15) {
            Piece::default()
        } else {
            let mut t = self.text(3, o);
            if self.mark.is_none() && self.r.one_in(10) {
                let x = *self.r.pick(&["a", "b", "1", "7", "0", "é", "ab", "12", "福"]);
                t = pc(x, x);
                self.f("tiny cell");
            }
            if self.r.one_in(8) {
                let w = self.text(2, o);
                t = pc(format!("{}\n{}", t.s, w.s), format!("{}{}{}", t.h, self.br(), w.h));
                self.f("multi-line cell");
            }
            t
        };
        let tag = if th { "th" } else { "td" };
        self.f(tag);
        let m = if marked { format!("{}{s}. ", if th { "_" } else { "" }) } else { String::new() };
        let (p, q) = if t.s.is_empty() || t.s.contains('\n') || t.s.starts_with(['*', '#', ';', ':', '-']) { ("", "") } else { *self.r.pick(&[("", ""), ("", ""), ("", ""), ("", " "), (" ", ""), (" ", " "), ("  ", "  ")]) };
        if !q.is_empty() {
            self.f("spaces around the content of a cell");
        }
        pc(format!("{m}{p}{}{q}", t.s), format!("<{tag}{}>{p}{}{q}</{tag}>", at(&a), t.h))
    }
    fn row(&mut self, cols: usize, o: O) -> Piece {
        let mut s = String::new();
        let mut a: Attrs = vec![];
        if self.r.one_in(5) {
            let (mut before, mut after) = (vec![], vec![]);
            let mut al = String::new();
            if self.r.one_in(3) {
                let (m, v) = *self.r.pick(&[("^", "top"), ("-", "middle"), ("~", "bottom")]);
                al += m;
                before.push(format!("vertical-align:{v}"));
            }
            if self.r.one_in(3) {
                let hs: &[(&str, &str)] = if self.cfg.restricted { &[("=", "center")] } else { &[("<", "left"), (">", "right"), ("=", "center"), ("<>", "justify")] };
                let (m, v) = *self.r.pick(hs);
                al += m;
                after.push(format!("text-align:{v}"));
            }
            let (c, b) = self.cls(6, &before, &after);
            if !al.is_empty() || !c.is_empty() {
                s = format!("{al}{c}. ");
                a = b;
                self.f("row attributes");
            }
        }
        let indent = if s.is_empty() && self.r.one_in(30) {
            self.f("indented row");
            " "
        } else {
            ""
        };
        let mut src = format!("{indent}{s}|");
        let mut h = format!("<tr{}>", at(&a));
        for i in 0..cols {
            let c = self.cell(o, false, i == 0);
            src += &c.s;
            src += "|";
            h += &c.h;
        }
        pc(src, h + "</tr>")
    }
    pub fn table(&mut self, o: O) -> Piece {
        let o = O { br: false, ..o };
        let big = self.r.one_in(12);
        let cols = if big { self.r.range(5, 14) } else { self.r.range(1, 4) };
        let mut src = String::new();
        let mut a: Attrs = vec![];
        if self.r.one_in(3) {
            let (s, b) = self.block_atts_at(4, true);
            a = b;
            src += &format!("table{s}.");
            if self.r.one_in(2) {
                let t = self.words(1, 4);
                src += " ";
                src += &t;
                a.push(("summary".into(), t));
                self.f("summary");
            }
            src += "\n";
            self.f("table attributes");
        }
        let mut h = format!("<table{}>", at(&a));
        if self.r.one_in(4) {
            let (s, b) = if self.r.one_in(2) { self.cls(5, &[], &[]) } else { (String::new(), vec![]) };
            let t = self.text(2, O { images: false, ..o });
            src += &format!("|={s}. {}\n", t.s);
            h += &format!("<caption{}>{}</caption>", at(&b), t.h);
            self.f("caption");
        }
        if self.r.one_in(4) {
            let n = self.r.range(0, 3);
            let mut first: Attrs = vec![];
            let mut l = String::from("|:");
            if self.r.one_in(2) {
                let k = if self.r.one_in(4) { self.r.range(7, 120) } else { self.r.range(2, 6) };
                l += &format!("\\{k}");
                first.push(("span".into(), k.to_string()));
            }
            let (c, b) = if self.r.one_in(3) { self.col_cls() } else { (String::new(), vec![]) };
            l += &c;
            first.extend(b);
            l += ". ";
            if self.r.one_in(2) {
                let k = self.r.range(1, 500);
                l += &k.to_string();
                first.push(("width".into(), k.to_string()));
            }
            let mut hh = format!("<colgroup{}>", at(&first));
            for _ in 0..n {
                let mut b: Attrs = vec![];
                l += "|";
                if self.r.one_in(3) {
                    let k = if self.r.one_in(4) { self.r.range(7, 120) } else { self.r.range(2, 6) };
                    l += &format!("\\{k}");
                    b.push(("span".into(), k.to_string()));
                }
                let (c, x) = if self.r.one_in(4) { self.col_cls() } else { (String::new(), vec![]) };
                l += &c;
                if !c.is_empty() || !b.is_empty() {
                    l += ". ";
                }
                b.extend(x);
                if self.r.one_in(2) || b.is_empty() {
                    let k = self.r.range(1, 500);
                    l += &k.to_string();
                    b.push(("width".into(), k.to_string()));
                }
                hh += &format!("<col{} />", at(&b));
            }
            src += &l;
            src += if self.r.one_in(2) { "|\n" } else { "\n" };
            h += &hh;
            h += "</colgroup>";
            self.f("colgroup");
        }
        let sections = self.r.one_in(3);
        let mut rows = vec![];
        let groups: Vec<(&str, &str)> = if sections {
            let n = if self.r.one_in(4) { self.r.range(4, 7) } else { self.r.range(1, 3) };
            let mut v: Vec<(&str, &str)> = (0..n).map(|_| *self.r.pick(&[("^", "thead"), ("-", "tbody"), ("~", "tfoot")])).collect();
            if self.r.one_in(6) {
                self.f("rows before the first section");
                v.insert(0, ("", ""));
            }
            v
        } else {
            vec![("", "")]
        };
        for (m, tag) in groups {
            let mut pre = String::new();
            if !m.is_empty() {
                let (s, b) = if self.r.one_in(3) { self.cls(6, &[], &[]) } else { (String::new(), vec![]) };
                pre = format!("|{m}{s}.\n");
                h += &format!("<{tag}{}>", at(&b));
                self.f(tag);
            }
            let n = if self.r.one_in(20) { self.r.range(4, 14) } else { self.r.range(1, 3) };
            for i in 0..n {
                let r = self.row(cols, o);
                rows.push(format!("{}{}", if i == 0 { pre.as_str() } else { "" }, r.s));
                h += &r.h;
            }
            if !m.is_empty() {
                h += &format!("</{tag}>");
            }
        }
        src += &rows.join("\n");
        self.f("table");
        pc(src, h + "</table>")
    }
    /// class and id without anything that means something within a colgroup
    fn col_cls(&mut self) -> (String, Attrs) {
        let c = gen::ident(&mut self.r);
        let a = if self.cfg.restricted { vec![] } else { vec![("class".to_owned(), c.clone())] };
        (format!("({c})"), a)
    }

    // ------------------------------------------------------------ documents
    pub fn html_block(&mut self, o: O) -> Piece {
        let t = *self.r.pick(&["div", "section", "article", "form"]);
        let a: Attrs = if self.r.one_in(2) { vec![("class".into(), self.words(1, 2))] } else { vec![] };
        let mut c = self.text(4, o);
        if c.s.contains('!') || c.s.contains("\":") {
            // a URL would swallow the tag
            let w = self.word();
            c = pc(format!("{} {w}", c.s), format!("{} {w}", c.h));
        }
        self.f("raw block");
        pc(format!("<{t}{}>{}</{t}>", at(&a), c.s), format!("<{t}{}>{}</{t}>", at(&a), c.h))
    }
    pub fn any_block(&mut self, o: O, counter: &mut std::collections::HashMap<String, usize>) -> Piece {
        let lite = self.cfg.lite;
        match self.r.below(14) {
            0 | 1 if !lite => self.heading(o),
            2 => self.bq(o),
            3 => self.bc(),
            4 if !lite => self.pre(),
            5 | 6 if !lite => self.list(o, counter),
            7 if !lite => self.deflist(o),
            8 if !lite => self.redcloth(o),
            9 | 10 if !lite => {
                let t = self.table(o);
                if t.h.contains("<ol") {
                    // numbered lists in cells count as previous lists as well
                    counter.clear();
                }
                t
            }
            11 if !lite => self.comment(),
            12 if !self.cfg.restricted => self.html_block(o),
            _ => self.para(o),
        }
    }
    /// A document; the pieces are its blocks.
    pub fn doc(&mut self, max: usize, o: O) -> Vec<Piece> {
        let n = self.r.range(1, max);
        let mut v = vec![];
        let mut ext = false;
        let mut counter = Default::default();
        for _ in 0..n {
            if self.r.one_in(7) {
                v.push(self.extended(o));
                ext = true;
                continue;
            }
            let p = if ext {
                // only an explicit block ends an extended one
                match self.r.below(4) {
                    0 if !self.cfg.lite => self.heading(o),
                    1 => self.bq(o),
                    2 => self.bc(),
                    _ => {
                        let t = self.inline(4, O { br: true, ..o });
                        pc(format!("p. {}", t.s), format!("<p>{}</p>", t.h))
                    }
                }
            } else {
                self.any_block(o, &mut counter)
            };
            ext = false;
            v.push(p);
        }
        v
    }
}

/// Would this text start a block of its own?
pub fn is_explicit(s: &str) -> bool {
    let mut rest = None;
    for t in ["bq", "bc", "notextile", "pre", "h1", "h2", "h3", "h4", "h5", "h6", "fn", "p", "###"] {
        if s.starts_with(t) {
            rest = Some(t);
        }
    }
    rest.is_some()
}
fn drop_id(s: &str) -> String {
    // "(a#b)" -> "(a)", "(#b)" -> ""
    match (s.find('#'), s.find(')')) {
        _ if !s.contains('#') => s.to_owned(),
        _ => {
            let chars: Vec<char> = s.chars().collect();
            let mut out = String::new();
            let mut i = 0;
            let mut in_style = false;
            while i < chars.len() {
                match chars[i] {
                    '{' => in_style = true,
                    '}' => in_style = false,
                    _ => {}
                }
                if chars[i] == '#' && !in_style {
                    while i < chars.len() && chars[i] != ')' {
                        i += 1;
                    }
                    if out.ends_with('(') {
                        out.pop();
                        i += 1;
                    }
                    continue;
                }
                out.push(chars[i]);
                i += 1;
            }
            out
        }
    }
}
pub fn join(v: &[Piece]) -> Piece {
    pc(
        v.iter().map(|p| p.s.as_str()).collect::<Vec<_>>().join("\n\n"),
        v.iter().map(|p| p.h.as_str()).collect::<Vec<_>>().join("\n\n"),
    )
}

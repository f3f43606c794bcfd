From 014020b44da46733e35ddcf5c4d9d0f064456ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:01 +0000
Subject: [PATCH 01/49] fix: decode &amp; when reversing HTML encoding of URLs
 in restricted mode

The entity was matched by the regular expression but had no replacement,
so any restricted document with "&" in a URL panicked.
---
 src/htmltools.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/htmltools.rs b/src/htmltools.rs
index e9582ef..12537a5 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -52,6 +52,7 @@ pub(crate) fn reverse_encode_html(text: &str) -> Cow<str> {
     ENTITY_RE.replace_all(text, |cap: &Captures| {
         let entity = &cap[1];
         match entity {
+            "&amp;" => "&",
             "&lt;" => "<",
             "&gt;" => ">",
             "&quot;" => "\"",
-- 
2.43.0


From 99e9783694087792f7204a00aac68e72abe417f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:01 +0000
Subject: [PATCH 02/49] fix: do not slice strings inside multi-byte characters
 when inserting line breaks

Byte offsets of the lowercased copy were used on the original text, and the
prefix preceding a newline could start in the middle of a character. Both made
the parser panic on list items and table cells with non-ASCII text.
---
 src/parser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cfb3a80..0fcb05f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1025,20 +1025,21 @@ impl <'t> ParserState<'t> {
             // The <br> is not appropriate to insert after the following prefixes
             const STOP_PREFIXES: [&str; 6] = ["</dd>", "</dt>", "</li>", "<br/>", "<br>", "<br />"];
             let mut output = String::with_capacity(text.len() + num_newlines * br.len());
-            let lc_text = text.to_lowercase();
             let mut next_start = 0;
-            while let Some(rel_newline_pos) = lc_text[next_start..].find('\n') {
+            while let Some(rel_newline_pos) = text[next_start..].find('\n') {
                 let abs_newline_pos = next_start + rel_newline_pos;
                 output += &text[next_start..abs_newline_pos];
                 // Make sure the following characters do not make <br> inappropriate
-                let is_next_good = !lc_text[abs_newline_pos + 1..]
+                let is_next_good = !text[abs_newline_pos + 1..]
                     .starts_with(|c| char::is_whitespace(c) || c == '|');
                 if is_next_good {
                     // The preceding sequence should also be appropriate for <br>
                     let is_prefix_good = !STOP_PREFIXES.iter().any(|p| {
                         let prefix_start = abs_newline_pos - p.len().min(abs_newline_pos);
-                        let prefix = &lc_text[prefix_start..abs_newline_pos];
-                        eq_ignore_ascii_case(prefix, *p)
+                        // None when the prefix would start in the middle of a character
+                        text.get(prefix_start..abs_newline_pos)
+                            .map(|prefix| eq_ignore_ascii_case(prefix, p))
+                            .unwrap_or(false)
                     });
                     if is_prefix_good {
                         output += br;
-- 
2.43.0


From 2a30404979e0b5d903d4653ab58a2d78ce3fdd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:01 +0000
Subject: [PATCH 03/49] fix: do not overflow the counter of an ordered list

"#18446744073709551615 item" made the parser panic (or wrap around).
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0fcb05f..e87f2be 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -941,7 +941,7 @@ impl <'t> ParserState<'t> {
                     }
 
                     if show_item {
-                        *start_value += 1;
+                        *start_value = start_value.saturating_add(1);
                     }
                 }
 
-- 
2.43.0


From d03b0336c6627443fa40613afe54e4dc1098c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:28 +0000
Subject: [PATCH 04/49] fix: keep the definition of a note when it gets
 referenced

A reference to an already defined note discarded its definition.
---
 src/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e87f2be..81a6578 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1158,16 +1158,18 @@ impl <'t> ParserState<'t> {
                 num.clone()
             } else {
                 let num = self.note_index.to_string();
-                self.notes.insert(
-                    label.to_string(),
-                    NoteInfo {
-                        seq: Some(num.clone()),
+                // The note might have already been defined
+                self.notes
+                    .entry(label.to_string())
+                    .or_insert_with(|| NoteInfo {
+                        seq: None,
                         id: "".to_owned(),
                         refids: Default::default(),
                         attrs: None,
                         content: None,
                         link: None,
-                    });
+                    })
+                    .seq = Some(num.clone());
                 self.note_index += 1;
                 num
             };
@@ -1180,6 +1182,9 @@ impl <'t> ParserState<'t> {
             let new_id: Cow<str> = if is_note_id_empty {
                 let new_index = self.increment_link_index();
                 format!("{0}{1}", self.textile.link_prefix, new_index).into()
+            } else if self.notes[label].refids.is_empty() {
+                // Already defined, but not yet referenced
+                self.notes[label].id.clone().into()
             } else {
                 "".into()
             };
-- 
2.43.0


From f78fa785ed1b85ec01489b67e9e2d4a4459cc814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:28 +0000
Subject: [PATCH 05/49] fix: list the notes in the order of their numbers

The sequence numbers were compared as strings, placing 10 before 2.
---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 81a6578..3207f9f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -313,7 +313,8 @@ impl <'t> ParserState<'t> {
                 let mut info_clone = info.clone();
                 if let Some(ref i) = info.seq {
                     info_clone.seq = Some(label.clone());
-                    o.insert(i.clone(), info_clone);
+                    // Zero-padded, to list "2" before "10"
+                    o.insert(format!("{:0>10}", i), info_clone);
                 } else {
                     self.unreferenced_notes.insert(label.clone(), info_clone);
                 }
-- 
2.43.0


From 8e902790841869df839fb8a46f25aa22076cf74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:28 +0000
Subject: [PATCH 06/49] fix: ignore repeated definitions of a note

The check was done by the presence of the optional link modifier instead of
the definition, so a repeated definition replaced the first one.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3207f9f..212abe7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -249,7 +249,7 @@ impl <'t> ParserState<'t> {
         if self.notes.contains_key(label) {
             let note_content = self.graf(content).into_owned();
             if let Some(mut note) = self.notes.get_mut(label) {
-                if note.link.is_none() {
+                if note.content.is_none() {
                     note.link = if link.is_empty() { None } else { Some(link.into()) };
                     note.attrs = Some(
                         BlockAttributes
-- 
2.43.0


From d645ec7e6b935e961af31c4712d3aeacada8d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:28 +0000
Subject: [PATCH 07/49] fix: only allow valid URL schemes for links around
 images

"!image.png!:javascript:..." was turned into a link, even in the restricted mode.
---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 212abe7..541a26d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -553,6 +553,11 @@ impl <'t> ParserState<'t> {
             if !self.is_valid_url(url) {
                 return cap[0].to_owned();
             }
+            if let Some(href) = cap.get(5) {
+                if !self.is_valid_url(&self.unrestrict_url(href.as_str())) {
+                    return cap[0].to_owned();
+                }
+            }
             let mut atts = if let Some(attributes) = cap.get(2) {
                 BlockAttributes::parse(attributes.as_str(), None, true, self.textile.restricted).html_attrs()
             } else {
-- 
2.43.0


From 125ba5caab84d4730d2e2ad96584b6ea4eab4eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:28 +0000
Subject: [PATCH 08/49] fix: only allow valid URL schemes for link aliases

The alternation was not grouped, so anything that merely starts with the name of
a valid scheme (such as "httpx:...") was accepted.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 541a26d..adf6663 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -506,7 +506,7 @@ impl <'t> ParserState<'t> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
             fregex!(
                 &format!(
-                    r"(?:(?<=^)|(?<=\s))\[(.+)\]((?:{0}:\/\/|\/)\S+)(?=\s|$)",
+                    r"(?:(?<=^)|(?<=\s))\[(.+)\]((?:(?:{0}):|\/)\S+)(?=\s|$)",
                     schemes.join("|")))
         }
         lazy_static! {
-- 
2.43.0


From 1c08d8bf9980adb8eb1357c37f139c4eace4988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:55 +0000
Subject: [PATCH 09/49] fix: add the "rel" attribute to the links around images

Textile::set_rel() promises to force it on all links processed by the parser.
---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index adf6663..1a290cb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -608,10 +608,11 @@ impl <'t> ParserState<'t> {
                 let shelved_href = self.shelve_url(
                     self.unrestrict_url(href.as_str()).into());
                 if !shelved_href.is_empty() {
-                    generate_tag(
-                        "a",
-                        Some(&img),
-                        &[("href".into(), shelved_href)])
+                    let mut a_atts = vec![("href".to_owned(), shelved_href)];
+                    if let Some(ref rel) = self.textile.rel {
+                        a_atts.push(("rel".to_owned(), rel.clone()));
+                    }
+                    generate_tag("a", Some(&img), &a_atts)
                 } else {
                     img
                 }
-- 
2.43.0


From b4ba624e47e4c4e660c79fb4b228732cb48d9f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:55 +0000
Subject: [PATCH 10/49] fix: forget cached regular expressions when the uid
 gets changed

The cached expressions contain the uid, and after changing it on a parser that has
been used already none of the internal tokens would be recognized, ending up in
the output.
---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 1a290cb..30bb2d9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2140,6 +2140,8 @@ impl Textile {
             // 3+ uppercase
             (DYN_3PLUS_RE.clone(), dyn_3plus_replacement),
         ];
+        // The cached expressions contain the previous uid
+        self.regex_cache.get_mut().clear();
         self
     }
 
-- 
2.43.0


From 736b1f04211d9d2de6efa578084748badefba091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:55 +0000
Subject: [PATCH 11/49] fix: escape the uid within regular expressions and
 replacements

Textile::set_uid("c++") or set_uid("(1)") resulted in panics or in internal tokens
left in the output.
---
 src/parser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 30bb2d9..cc35d04 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -415,7 +415,7 @@ impl <'t> ParserState<'t> {
             .or_default()
             .entry("")
             .or_insert_with(
-                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", self.textile.uid)));
+                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", fancy_regex::escape(&self.textile.uid))));
 
         let retrieve_url = |cap: &Captures| -> String {
             let token = &cap["token"];
@@ -1294,7 +1294,7 @@ impl <'t> ParserState<'t> {
                             "\":",
                             // url upto a stopchar
                             r"(?P<urlx>[^{1}]*)"),
-                        needle, STOPCHARS)));
+                        fancy_regex::escape(&needle), STOPCHARS)));
 
         let mut f_link = |cap: &Captures| -> String {
             let in_ = &cap[0];
@@ -1622,7 +1622,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", self.textile.uid)));
+                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", fancy_regex::escape(&self.textile.uid))));
             open_tag_re.replace_all(text, f_retrieve_tags)
         };
         let result = {
@@ -1633,7 +1633,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", self.textile.uid)));
+                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", fancy_regex::escape(&self.textile.uid))));
             close_tag_re.replace_all(&result, f_retrieve_tags)
         };
         result.into_owned()
@@ -2135,7 +2135,8 @@ impl Textile {
         self.link_prefix = format!("{0}-", base_id);
         let dyn_3plus_replacement = format!(
             r#"$1<span class="caps">{0}:glyph:$2</span>$3"#,
-            &self.uid);
+            // "$" is special in replacements
+            self.uid.replace('$', "$$"));
         self.dyn_glyph_replacers = [
             // 3+ uppercase
             (DYN_3PLUS_RE.clone(), dyn_3plus_replacement),
-- 
2.43.0


From 460363f32e3c5b47f46f9744f273833faafafb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:55 +0000
Subject: [PATCH 12/49] fix: return the parser from set_align_class

The method consumed the parser, making it impossible to use the option.
---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cc35d04..605c152 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2068,8 +2068,9 @@ impl Textile {
     ///
     /// If not set, for XHTML the "align" attribute is going to be used,
     /// and for HTML5 the `align-...` class will be added instead.
-    pub fn set_align_class(mut self, value: bool) {
+    pub fn set_align_class(mut self, value: bool) -> Self {
         self.align_class_enabled = Some(value);
+        self
     }
 
     /// Enables and disables raw blocks.
-- 
2.43.0


From 1c2c6973a0c8f0a2e70b284783d119f2fca34b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:40 +0000
Subject: [PATCH 13/49] fix: do not panic when a regular expression exceeds its
 backtracking limit

---
 src/block.rs     |  4 ++--
 src/htmltools.rs |  6 +++---
 src/parser.rs    | 42 +++++++++++++++++++++---------------------
 src/regextra.rs  | 35 ++++++++++++++++++++++++++++++++---
 4 files changed, 58 insertions(+), 29 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 3e4d568..fcd6ecb 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -3,7 +3,7 @@ use std::borrow::Cow;
 use lazy_static::lazy_static;
 use fancy_regex::{Regex, Captures};
 
-use crate::regextra::fregex;
+use crate::regextra::{ReplaceOrKeep, fregex};
 use crate::htmltools::quoteattr;
 use crate::regex_snips::{SNIP_SPACE, SNIP_DIGIT, CLS_RE_S, VALIGN_RE_S, HALIGN_RE_S};
 use crate::htmltools::{generate_tag, encode_html};
@@ -326,7 +326,7 @@ impl Block {
                         ),
                         space=SNIP_SPACE, cls=*CLS_RE_S));
             };
-            let notedef = NOTEDEF_RE.replace_all(
+            let notedef = NOTEDEF_RE.replace_all_or_keep(
                 &new_content,
                 |matches: &Captures| { ps.parse_note_defs(matches) });
             if notedef.is_empty() {
diff --git a/src/htmltools.rs b/src/htmltools.rs
index 12537a5..3004afb 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -6,7 +6,7 @@ use lazy_static::lazy_static;
 use fancy_regex::{Regex, Captures};
 
 use crate::html::HTML5;
-use crate::regextra::fregex;
+use crate::regextra::{ReplaceOrKeep, fregex};
 use crate::regex_snips::{BLOCK_CONTENT, DIVIDER_RE};
 
 pub(crate) fn encode_html(text: &str, quotes: bool, line_spacers: bool) -> String {
@@ -49,7 +49,7 @@ pub(crate) fn reverse_encode_html(text: &str) -> Cow<str> {
         static ref ENTITY_RE: Regex = fregex!(
             "(&(?:amp|lt|gt|quot|#39|#13|#10|#9);)");
     }
-    ENTITY_RE.replace_all(text, |cap: &Captures| {
+    ENTITY_RE.replace_all_or_keep(text, |cap: &Captures| {
         let entity = &cap[1];
         match entity {
             "&amp;" => "&",
@@ -265,7 +265,7 @@ pub(crate) fn unescape(s: &str) -> Cow<str> {
                         r"|#[xX][0-9a-fA-F]+;?",
                         r"|[^\t\n\f <&#;]{1,32};?)"));
         }
-        CHARREF.replace_all(s, replace_charref)
+        CHARREF.replace_all_or_keep(s, replace_charref)
     }
 }
 
diff --git a/src/parser.rs b/src/parser.rs
index 605c152..06a8fb3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -10,7 +10,7 @@ use lazy_static::lazy_static;
 use fancy_regex::{Regex, Captures, Replacer, Match};
 
 use crate::charcounter::CharCounter;
-use crate::regextra::{split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty};
+use crate::regextra::{ReplaceOrKeep, split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty};
 use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, reverse_encode_html};
 use crate::table::{process_table, TABLE_SPAN_RE_S};
 use crate::urlutils::{UrlBits, UrlString};
@@ -52,7 +52,7 @@ fn do_special<'t, R>(text: &'t str, start: &str, end: &str, method: R) -> Cow<'t
                 fancy_regex::escape(end)))
         .expect("A valid expression");
 
-    pattern.replace_all(text, method)
+    pattern.replace_all_or_keep(text, method)
 }
 
 fn get_image_size(url: &str) -> Option<(i64, i64)> {
@@ -377,7 +377,7 @@ impl <'t> ParserState<'t> {
                 format!("<ol{0}>\n{1}\n\t</ol>", list_atts, result)
             }
         };
-        TEXT_RE.replace_all(text, f_note_lists)
+        TEXT_RE.replace_all_or_keep(text, f_note_lists)
     }
 
     pub fn shelve(&mut self, text: String) -> String {
@@ -435,7 +435,7 @@ impl <'t> ParserState<'t> {
                 },
             }
         };
-        pattern.replace_all(text, retrieve_url)
+        pattern.replace_all_or_keep(text, retrieve_url)
     }
 
     fn f_textile(&mut self, cap: &Captures) -> String {
@@ -518,7 +518,7 @@ impl <'t> ParserState<'t> {
         } else {
             &UNRESTRICTED_URLREF_RE
         };
-        urlref_re.replace_all(text, |cap: &Captures| -> &str {
+        urlref_re.replace_all_or_keep(text, |cap: &Captures| -> &str {
             let flag = &cap[1];
             let url = self.unrestrict_url(&cap[2]).into_owned();
             self.urlrefs.insert(
@@ -621,7 +621,7 @@ impl <'t> ParserState<'t> {
             };
             self.shelve(out)
         };
-        PATTERN.replace_all(text, f_image)
+        PATTERN.replace_all_or_keep(text, f_image)
     }
 
 
@@ -846,7 +846,7 @@ impl <'t> ParserState<'t> {
             out.join("\n")
         };
 
-        PATTERN.replace_all(text, f_rc_list)
+        PATTERN.replace_all_or_keep(text, f_rc_list)
     }
 
     pub(crate) fn textile_lists<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
@@ -1003,7 +1003,7 @@ impl <'t> ParserState<'t> {
             self.do_tag_br(litem, &merged_out).into_owned()
         };
 
-        PATTERN.replace_all(text, f_textile_list)
+        PATTERN.replace_all_or_keep(text, f_textile_list)
     }
 
     /// Inserts <br> before each newline within a specified HTML tag,
@@ -1074,7 +1074,7 @@ impl <'t> ParserState<'t> {
                              fancy_regex::escape(tag))));
 
         let br_tag = self.textile.proper_br_tag();
-        pattern.replace_all(input, |cap: &Captures| -> String {
+        pattern.replace_all_or_keep(input, |cap: &Captures| -> String {
             let content = insert_brs(&cap[2], br_tag);
             format!("<{0}{1}>{2}</{0}>", tag, &cap[1], content)
         })
@@ -1090,13 +1090,13 @@ impl <'t> ParserState<'t> {
 
         let f_do_p_br = |cap: &Captures| -> String {
             let text = &cap[3];
-            let text = BR_RE.replace_all(text, "\n");
-            let text = NEWLINE_RE.replace_all(
+            let text = BR_RE.replace_all_or_keep(text, "\n");
+            let text = NEWLINE_RE.replace_all_or_keep(
                 &text,
                 self.textile.proper_br_tag());
             format!("<{0}{1}>{2}{3}", &cap[1], &cap[2], text, &cap[4])
         };
-        TAG_RE.replace_all(input, f_do_p_br)
+        TAG_RE.replace_all_or_keep(input, f_do_p_br)
     }
 
 
@@ -1134,7 +1134,7 @@ impl <'t> ParserState<'t> {
             format!("{0}{1}", sup_tag, &cap["space"])
         };
 
-        PATTERN.replace_all(text, f_footnote_id)
+        PATTERN.replace_all_or_keep(text, f_footnote_id)
     }
 
     /// Search the text looking for note references.
@@ -1209,7 +1209,7 @@ impl <'t> ParserState<'t> {
             // Build the reference...
             generate_tag("sup", Some(&result), &html_atts)
         };
-        TEXT_RE.replace_all(text, f_parse_note_refs)
+        TEXT_RE.replace_all_or_keep(text, f_parse_note_refs)
     }
 
 
@@ -1249,7 +1249,7 @@ impl <'t> ParserState<'t> {
                 if i % 2 == 0 {
                     let raw_line = if !self.textile.restricted {
                         Cow::Owned(
-                            LONE_AMP_RE.replace_all(raw_line, "&amp;")
+                            LONE_AMP_RE.replace_all_or_keep(raw_line, "&amp;")
                                   .replace('<', "&lt;")
                                   .replace('>', "&gt;"))
                     } else {
@@ -1502,7 +1502,7 @@ impl <'t> ParserState<'t> {
         let mut prev_text = Cow::Borrowed(text);
         let mut abort = false;
         while !abort && prev_text.contains(&needle) {
-            let new_text = pattern.replace_all(&prev_text, &mut f_link);
+            let new_text = pattern.replace_all_or_keep(&prev_text, &mut f_link);
             if new_text == prev_text {
                 abort = true;
             }
@@ -1623,7 +1623,7 @@ impl <'t> ParserState<'t> {
                 .entry("")
                 .or_insert_with(
                     || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", fancy_regex::escape(&self.textile.uid))));
-            open_tag_re.replace_all(text, f_retrieve_tags)
+            open_tag_re.replace_all_or_keep(text, f_retrieve_tags)
         };
         let result = {
             let mut regex_cache = self.textile.regex_cache.borrow_mut();
@@ -1634,7 +1634,7 @@ impl <'t> ParserState<'t> {
                 .entry("")
                 .or_insert_with(
                     || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", fancy_regex::escape(&self.textile.uid))));
-            close_tag_re.replace_all(&result, f_retrieve_tags)
+            close_tag_re.replace_all_or_keep(&result, f_retrieve_tags)
         };
         result.into_owned()
     }
@@ -1731,7 +1731,7 @@ impl <'t> ParserState<'t> {
             };
             let block_output = self.do_p_br(&block_output);
             let block_output = whitespace.clone() + &BR_TAG_RE
-                .replace_all(
+                .replace_all_or_keep(
                     &block_output,
                     self.textile.proper_br_tag());
 
@@ -1819,7 +1819,7 @@ impl <'t> ParserState<'t> {
             }
             unreachable!("Should be reached, check regular expression");
         };
-        PATTERN_RE.replace_all(text, f_glyph_quoted_quote)
+        PATTERN_RE.replace_all_or_keep(text, f_glyph_quoted_quote)
     }
 
 }
@@ -1983,7 +1983,7 @@ impl Textile {
             static ref BR_PATTERN: Regex = fregex!(r"<br( /)?>(?!\n)");
         }
 
-        let text = BR_PATTERN.replace_all(
+        let text = BR_PATTERN.replace_all_or_keep(
             &text,
             match self.html_type {
                 HtmlKind::XHTML => "<br />\n",
diff --git a/src/regextra.rs b/src/regextra.rs
index 6767c6f..2450cf5 100644
--- a/src/regextra.rs
+++ b/src/regextra.rs
@@ -1,4 +1,6 @@
-use fancy_regex::{Regex, Captures, CaptureMatches, Match};
+use std::borrow::Cow;
+
+use fancy_regex::{Regex, Captures, CaptureMatches, Match, Replacer};
 
 pub(crate) const INVALID_REGEX: &str = "An ivalid regular expression";
 
@@ -10,6 +12,33 @@ macro_rules! fregex {
 
 pub(crate) use fregex;
 
+pub(crate) trait ReplaceOrKeep {
+    /// The same as [`Regex::replace_all`], except that when a search fails
+    /// (because of the exceeded backtracking limit) the rest of the text
+    /// is left unchanged instead of panicking.
+    fn replace_all_or_keep<'t, R: Replacer>(&self, text: &'t str, rep: R) -> Cow<'t, str>;
+}
+
+impl ReplaceOrKeep for Regex {
+    fn replace_all_or_keep<'t, R: Replacer>(&self, text: &'t str, mut rep: R) -> Cow<'t, str> {
+        let mut matches = self.captures_iter(text).map_while(Result::ok).peekable();
+        if matches.peek().is_none() {
+            return Cow::Borrowed(text);
+        }
+        let mut output = String::with_capacity(text.len());
+        let mut last_end = 0;
+        for cap in matches {
+            if let Some(whole_match) = cap.get(0) {
+                output.push_str(&text[last_end..whole_match.start()]);
+                rep.replace_append(&cap, &mut output);
+                last_end = whole_match.end();
+            }
+        }
+        output.push_str(&text[last_end..]);
+        Cow::Owned(output)
+    }
+}
+
 
 /// At the moment of writing `fancy_regex` does not support splitting
 /// strings with regular expressions "out of the box".
@@ -112,7 +141,7 @@ where I: Iterator<Item=(&'a Regex, S)> + 'a,
     let next_regex = changes.next();
     match next_regex {
         Some((expr, replacement)) => {
-            let new_text = expr.replace_all(&text, replacement.as_ref());
+            let new_text = expr.replace_all_or_keep(&text, replacement.as_ref());
             multi_replace(new_text, changes)
         },
         None => text.into_owned()
@@ -133,7 +162,7 @@ where I: Iterator<Item=&'a Regex> + 'a,
     let next_regex = changes.next();
     match next_regex {
         Some(expr) => {
-            let new_text = expr.replace_all(&text, one_replacement.by_ref());
+            let new_text = expr.replace_all_or_keep(&text, one_replacement.by_ref());
             multi_replace_with_one(new_text, changes, one_replacement)
         },
         None => text.into_owned()
-- 
2.43.0


From 76b67dbc5d4998f075a92bb12c48af5b79cfe8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:22 +0000
Subject: [PATCH 14/49] fix: limit the nesting of definition lists

---
 src/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 06a8fb3..b34984b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -24,6 +24,8 @@ const SYMS_RE_S: &str = "¤§µ¶†‡•∗∴◊♠♣♥♦";
 const BLOCK_TAGS_RE_S: &str = r"bq|bc|notextile|pre|h[1-6]|fn\d+|p|###";
 const BLOCK_TAGS_LITE_RE_S: &str = "bq|bc|p";
 const RESTRICTED_URL_SCHEMES: [&str; 4] = ["http", "https", "ftp", "mailto"];
+/// How deep the definition lists can be nested into each other
+const MAX_DEFINITION_DEPTH: u32 = 8;
 const UNRESTRICTED_URL_SCHEMES: [&str; 9] = ["http", "https", "ftp", "mailto", "file", "tel", "callto", "sftp", "data"];
 
 fn span_re(tag: &str) -> Regex {
@@ -188,6 +190,7 @@ pub(crate) struct ParserState<'t> {
     link_index: u32,
     ref_index: u32,
     span_depth: u32,
+    definition_depth: u32,
     ref_cache: IndexMap<u32, String>,
     pub textile: &'t Textile,
     ol_starts: IndexMap<String, usize>,
@@ -208,6 +211,7 @@ impl <'t> ParserState<'t> {
             link_index: 0,
             ref_index: 0,
             span_depth: 0,
+            definition_depth: 0,
             ol_starts: Default::default(),
             ref_cache: Default::default(),
             notelist_cache: Default::default(),
@@ -789,6 +793,12 @@ impl <'t> ParserState<'t> {
                          SNIP_SPACE));
         }
 
+        // The content of a definition can be another definition list
+        if self.definition_depth >= MAX_DEFINITION_DEPTH {
+            return text.into();
+        }
+        self.definition_depth += 1;
+
         let f_rc_list = |cap: &Captures| -> String {
             let mut out = Vec::<Cow<str>>::new();
             for line in split_with_capture(&SPLITTER, &cap[0]) {
@@ -846,7 +856,9 @@ impl <'t> ParserState<'t> {
             out.join("\n")
         };
 
-        PATTERN.replace_all_or_keep(text, f_rc_list)
+        let result = PATTERN.replace_all_or_keep(text, f_rc_list);
+        self.definition_depth -= 1;
+        result
     }
 
     pub(crate) fn textile_lists<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
-- 
2.43.0


From 6dcadd45202f897d43c66b87f2dfd4b2eadab39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:46 +0000
Subject: [PATCH 15/49] fix: remove every occurrence of the uid from the input

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b34984b..f5ebcb1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1953,8 +1953,11 @@ impl Textile {
         };
 
         let mut state = ParserState::new(self);
-        let text = normalize_newlines(&text)
-            .replace(&state.textile.uid, "");
+        let mut text = normalize_newlines(&text);
+        // Removal of one uid can leave another one assembled from its surroundings
+        while text.contains(&self.uid) {
+            text = text.replace(&self.uid, "");
+        }
 
         let text = if self.block_tags {
             let text = state.block(&text);
-- 
2.43.0


From 780eb8bd4fe1a0163a9f4063f547f826d3bf4fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:00 +0000
Subject: [PATCH 16/49] fix: make set_raw_blocks work

---
 src/htmltools.rs | 42 ++++++++++++++++++++++++++++++------------
 src/parser.rs    |  5 +++--
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/htmltools.rs b/src/htmltools.rs
index 3004afb..232b16a 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -270,24 +270,27 @@ pub(crate) fn unescape(s: &str) -> Cow<str> {
 }
 
 
+const PHRASING_CONTENT: &str = concat!(
+    "abbr|acronym|area|audio|a|bdo|br|button|b|canvas|cite|code|command|",
+    "data|datalist|del|dfn|em|embed|iframe|img|input|ins|i|kbd|keygen|",
+    "label|link|map|mark|math|meta|meter|noscript|object|output|progress|",
+    "q|ruby|samp|script|select|small|span|strong|sub|sup|svg|textarea|",
+    "time|var|video|wbr",
+);
+
+lazy_static! {
+    static ref WRAPPED_RE: Regex = fregex!(
+        r"(?si)^</?([^\s<>/]+)[^<>]*?>(?:.*</\1\s*?>)?$");
+    static ref PHRASING_RE: Regex = fregex!(
+        &format!(r"(?i)^(?:{0})$", PHRASING_CONTENT));
+}
+
 pub(crate) fn has_raw_text(text: &str) -> bool {
-    const PHRASING_CONTENT: &str = concat!(
-        "abbr|acronym|area|audio|a|bdo|br|button|b|canvas|cite|code|command|",
-        "data|datalist|del|dfn|em|embed|iframe|img|input|ins|i|kbd|keygen|",
-        "label|link|map|mark|math|meta|meter|noscript|object|output|progress|",
-        "q|ruby|samp|script|select|small|span|strong|sub|sup|svg|textarea|",
-        "time|var|video|wbr",
-    );
     lazy_static! {
         static ref UNWRAPPABLE_RE: Regex = fregex!(
             &format!(r"(?si)</?(?:{0})(?:\s[^<>]*?|/?)>", BLOCK_CONTENT));
-        static ref WRAPPED_RE: Regex = fregex!(
-            r"(?si)^</?([^\s<>/]+)[^<>]*?>(?:.*</\1\s*?>)?$");
-        static ref PHRASING_RE: Regex = fregex!(
-            &format!(r"(?i)^(?:{0})$", PHRASING_CONTENT));
     }
 
-
     if UNWRAPPABLE_RE.is_match(text).unwrap_or_default()
             || DIVIDER_RE.is_match(text).unwrap_or_default() {
         false
@@ -298,6 +301,21 @@ pub(crate) fn has_raw_text(text: &str) -> bool {
     }
 }
 
+/// Checks whether the text is wrapped in a tag which is neither a block tag
+/// nor a phrasing one.
+pub(crate) fn is_raw_block(text: &str) -> bool {
+    lazy_static! {
+        static ref BLOCK_RE: Regex = fregex!(
+            &format!(r"(?i)^(?:{0})$", BLOCK_CONTENT));
+    }
+
+    match WRAPPED_RE.captures(text) {
+        Ok(Some(m)) =>
+            !PHRASING_RE.is_match(&m[1]).unwrap_or_default()
+                && !BLOCK_RE.is_match(&m[1]).unwrap_or_default(),
+        _ => false,
+    }
+}
 
 #[cfg(test)]
 mod tests {
diff --git a/src/parser.rs b/src/parser.rs
index f5ebcb1..a123480 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,7 @@ use fancy_regex::{Regex, Captures, Replacer, Match};
 
 use crate::charcounter::CharCounter;
 use crate::regextra::{ReplaceOrKeep, split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty};
-use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, reverse_encode_html};
+use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, is_raw_block, reverse_encode_html};
 use crate::table::{process_table, TABLE_SPAN_RE_S};
 use crate::urlutils::{UrlBits, UrlString};
 use crate::block::{Block, BlockAttributes, BlockHtmlAttributes};
@@ -1722,7 +1722,8 @@ impl <'t> ParserState<'t> {
                     + &bdata.inner_closing
                     + if ext.is_empty() { &bdata.outer_closing } else { "" }
             } else {
-                let raw_block = DIVIDER_RE.is_match(block).unwrap_or_default();
+                let raw_block = DIVIDER_RE.is_match(block).unwrap_or_default()
+                    || (self.textile.raw_block_enabled && is_raw_block(block));
                 if !ext.is_empty() || (!block.starts_with(' ') && !raw_block) {
                     let bdata =  Block::new(tag, atts, cite, block, self);
                     eat = bdata.eat;
-- 
2.43.0


From 7b63ad7eac6c5ed2dd8f36b6921da41df92791c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:36 +0000
Subject: [PATCH 17/49] fix: escape the text of self-referencing links

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a123480..38caa32 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1471,11 +1471,11 @@ impl <'t> ParserState<'t> {
 
             let text: Cow<str> = if text == "$" {
                 if scheme_in_list {
-                    make_url_readable(&url).into()
+                    encode_html(make_url_readable(&url), true, true).into()
                 } else if let Some(rurl) = self.urlrefs.get(url.as_ref()) {
                     encode_html(make_url_readable(rurl.source()), true, true).into()
                 } else {
-                    url
+                    encode_html(&url, true, true).into()
                 }
             } else {
                 text.into()
-- 
2.43.0


From 0739d651b56449f1e482f6fecfe46a5d1fac2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:36 +0000
Subject: [PATCH 18/49] fix: ignore malformed languages

Attributes of lists and tables are processed together with their content,
so arbitrary text within "lang" could turn into other attributes.
---
 src/block.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index fcd6ecb..d618a74 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -105,6 +105,7 @@ impl BlockAttributes {
             static ref ATTR_VALIGN_RE: Regex = fregex!(&format!(r"^{}", VALIGN_RE_S));
             static ref ATTR_STYLE_RE: Regex = fregex!(r"\{([^}]*)\}");
             static ref ATTR_LANG_RE: Regex = fregex!(r"\[([^\]]+)\]");
+            static ref LANG_RE: Regex = fregex!(r"^[a-zA-Z0-9_-]+$");
             static ref ATTR_ACLASS_RE: Regex = fregex!(r"\(([^()]+)\)");
             static ref CSS_ID_RE: Regex = fregex!(r"^([-a-zA-Z0-9_\.\:]*)$");
             static ref ATTR_PADDING_LEFT_RE: Regex = fregex!(r"([(]+)");
@@ -159,7 +160,10 @@ impl BlockAttributes {
 
         let lang = match ATTR_LANG_RE.captures(&matched) {
             Ok(Some(m)) => {
-                let result = Some(m[1].to_owned());
+                let result = match LANG_RE.is_match(&m[1]) {
+                    Ok(true) => Some(m[1].to_owned()),
+                    _ => None,
+                };
                 matched = matched.replace(&m[0], "");
                 result
             }
-- 
2.43.0


From f7be03359b97d56672cc2bf91d6453b839d2e7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:22 +0000
Subject: [PATCH 19/49] fix: do not encode code twice in restricted mode

---
 src/block.rs  |  6 +++---
 src/parser.rs | 22 +++++++++++-----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index d618a74..05db257 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -391,7 +391,7 @@ impl Block {
                 let mut html_attributes = attributes.html_attrs();
                 if let Some(ref cite) = cite {
                     let shelved_url = ps.shelve_url(
-                        ps.unrestrict_url(cite.as_str()).into());
+                        ps.unrestrict(cite.as_str()).into());
                     html_attributes.insert("cite", shelved_url);
                 }
                 outer_opening = format!("<blockquote{0}>\n", html_attributes.to_string());
@@ -400,7 +400,7 @@ impl Block {
                 outer_closing = "\n</blockquote>".into();
             },
             "bc" => {
-                new_content = ps.shelve(encode_html(&new_content, true, false)).into();
+                new_content = ps.shelve(encode_html(&ps.unrestrict(&new_content), true, false)).into();
                 let mut inner_atts = BlockHtmlAttributes::default();
                 if let Some(lang) = attributes.lang.clone() {
                     attributes.lang = None;
@@ -417,7 +417,7 @@ impl Block {
                 outer_closing = "</code></pre>".into();
             }
             "pre" => {
-                new_content = ps.shelve(encode_html(&new_content, true, false)).into();
+                new_content = ps.shelve(encode_html(&ps.unrestrict(&new_content), true, false)).into();
                 outer_opening = format!("<pre{}>", attributes.html_attrs().to_string());
                 outer_closing = "</pre>".into();
             },
diff --git a/src/parser.rs b/src/parser.rs
index 38caa32..c232c8c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -460,7 +460,7 @@ impl <'t> ParserState<'t> {
             let (before, text) = (&cap[1], &cap[2]);
             let after = unwrap_or_empty(cap.get(3));
             let (before, after) = get_special_options(before, after);
-            let text = encode_html(text, false, false);
+            let text = encode_html(&parser.unrestrict(text), false, false);
             String::from(before) + &parser.shelve(format!("<code>{0}</code>", text)) + after
         }
 
@@ -469,7 +469,7 @@ impl <'t> ParserState<'t> {
             let after = unwrap_or_empty(cap.get(3));
             let (before, after) = get_special_options(before, after);
             // text needs to be escaped
-            let text = encode_html(text, true, false);
+            let text = encode_html(&parser.unrestrict(text), true, false);
             String::from(before) + "<pre>" + &parser.shelve(text) + "</pre>" + after
         }
 
@@ -495,13 +495,13 @@ impl <'t> ParserState<'t> {
 
     /// Assuming that in the restricted mode all input was html-encoded
     /// prior to any real parsing, we need to undo the encoding in order to
-    /// handle the links properly (once the normalization is done they will
+    /// handle the links and code properly (once they are processed they will
     /// be html-encoded again anyway).
-    pub(crate) fn unrestrict_url<'u>(&self, url: &'u str) -> Cow<'u, str> {
+    pub(crate) fn unrestrict<'u>(&self, text: &'u str) -> Cow<'u, str> {
         if self.textile.restricted {
-            reverse_encode_html(url)
+            reverse_encode_html(text)
         } else {
-            url.into()
+            text.into()
         }
     }
 
@@ -524,7 +524,7 @@ impl <'t> ParserState<'t> {
         };
         urlref_re.replace_all_or_keep(text, |cap: &Captures| -> &str {
             let flag = &cap[1];
-            let url = self.unrestrict_url(&cap[2]).into_owned();
+            let url = self.unrestrict(&cap[2]).into_owned();
             self.urlrefs.insert(
                 flag.to_string(),
                 url.into());
@@ -558,7 +558,7 @@ impl <'t> ParserState<'t> {
                 return cap[0].to_owned();
             }
             if let Some(href) = cap.get(5) {
-                if !self.is_valid_url(&self.unrestrict_url(href.as_str())) {
+                if !self.is_valid_url(&self.unrestrict(href.as_str())) {
                     return cap[0].to_owned();
                 }
             }
@@ -600,7 +600,7 @@ impl <'t> ParserState<'t> {
                 }
             };
             let url_id = self.shelve_url(
-                self.unrestrict_url(url).into());
+                self.unrestrict(url).into());
             atts.insert("src", url_id);
 
             if let Some(title) = optional_title {
@@ -610,7 +610,7 @@ impl <'t> ParserState<'t> {
             let img = generate_tag("img", None, &atts);
             let out = if let Some(href) = cap.get(5) {
                 let shelved_href = self.shelve_url(
-                    self.unrestrict_url(href.as_str()).into());
+                    self.unrestrict(href.as_str()).into());
                 if !shelved_href.is_empty() {
                     let mut a_atts = vec![("href".to_owned(), shelved_href)];
                     if let Some(ref rel) = self.textile.rel {
@@ -1456,7 +1456,7 @@ impl <'t> ParserState<'t> {
 
             let url: String = url_chars.iter().collect();
 
-            let url = self.unrestrict_url(&url);
+            let url = self.unrestrict(&url);
             let uri_parts = UrlBits::parse(&url);
             let allowed_schemes = if self.textile.restricted {
                 &RESTRICTED_URL_SCHEMES[..]
-- 
2.43.0


From 117a1be7fe4146fbe55f123fae0284f73abcefb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:53 +0000
Subject: [PATCH 20/49] fix: encode shelved text within attributes

Fragments shelved before they became a part of an attribute (such as code
within the title of an image) were retrieved without any encoding, and could
introduce other attributes. The same applies to unescaped quotes in titles.
---
 src/block.rs  |  2 +-
 src/parser.rs | 85 +++++++++++++++++++++++++++++++++------------------
 src/table.rs  |  6 ++--
 3 files changed, 60 insertions(+), 33 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 05db257..fec9bad 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -391,7 +391,7 @@ impl Block {
                 let mut html_attributes = attributes.html_attrs();
                 if let Some(ref cite) = cite {
                     let shelved_url = ps.shelve_url(
-                        ps.unrestrict(cite.as_str()).into());
+                        ps.attribute_text(cite.as_str()).into());
                     html_attributes.insert("cite", shelved_url);
                 }
                 outer_opening = format!("<blockquote{0}>\n", html_attributes.to_string());
diff --git a/src/parser.rs b/src/parser.rs
index c232c8c..d5eb959 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -143,7 +143,7 @@ fn make_glyph_replacers(is_html5: bool) -> [(Regex, &'static str); 22] {
         // plus/minus
         (fregex!(r"[(\[]\+\/-[\])]"), r"&#177;"),
         // 3+ uppercase acronym
-        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]([^)]*)[)])", SNIP_ABR, SNIP_ACR)),
+        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]((?:(?!textileRef:)[^)])*)[)])", SNIP_ABR, SNIP_ACR)),
          if is_html5 {r#"<abbr title="$2">$1</abbr>"#} else {r#"<acronym title="$2">$1</acronym>"#}),
     ]
 }
@@ -412,7 +412,7 @@ impl <'t> ParserState<'t> {
         new_text
     }
 
-    fn retrieve_urls<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
+    fn retrieve_urls<'a>(&self, text: &'a str) -> Cow<'a, str> {
         let mut regex_cache = self.textile.regex_cache.borrow_mut();
         let pattern = regex_cache
             .entry(line!())
@@ -442,6 +442,23 @@ impl <'t> ParserState<'t> {
         pattern.replace_all_or_keep(text, retrieve_url)
     }
 
+    /// Puts all the shelved fragments, tags and URLs back into the text
+    fn retrieve_all(&self, text: String) -> String {
+        let mut new_text = text;
+        // The retrieved fragments can refer to each other
+        while new_text.contains(&self.textile.uid) {
+            let old = new_text.clone();
+            new_text = self.retrieve(new_text)
+                .replace(&format!("{0}:glyph:", &self.textile.uid), "");
+            new_text = self.retrieve_tags(&new_text);
+            new_text = self.retrieve_urls(&new_text).into_owned();
+            if new_text == old {
+                break;
+            }
+        }
+        new_text
+    }
+
     fn f_textile(&mut self, cap: &Captures) -> String {
         let (before, notextile) = (&cap[1], &cap[2]);
         let after = unwrap_or_empty(cap.get(3));
@@ -505,6 +522,18 @@ impl <'t> ParserState<'t> {
         }
     }
 
+    /// Returns the text of an attribute (or a URL) ready to be html-encoded.
+    /// Its already shelved parts have to be put back first, otherwise they
+    /// would be retrieved later without any encoding.
+    pub(crate) fn attribute_text<'u>(&self, text: &'u str) -> Cow<'u, str> {
+        if text.contains(&self.textile.uid) {
+            let text = self.retrieve_all(text.to_owned());
+            self.unrestrict(&text).into_owned().into()
+        } else {
+            self.unrestrict(text)
+        }
+    }
+
     /// Capture and store URL references in `self.urlrefs`.
     fn get_refs<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
@@ -524,7 +553,7 @@ impl <'t> ParserState<'t> {
         };
         urlref_re.replace_all_or_keep(text, |cap: &Captures| -> &str {
             let flag = &cap[1];
-            let url = self.unrestrict(&cap[2]).into_owned();
+            let url = self.attribute_text(&cap[2]).into_owned();
             self.urlrefs.insert(
                 flag.to_string(),
                 url.into());
@@ -553,12 +582,13 @@ impl <'t> ParserState<'t> {
                     *CLS_RE_S));
         }
         let f_image = |cap: &Captures| -> String {
-            let url = &cap[3];
-            if !self.is_valid_url(url) {
+            let url = self.attribute_text(&cap[3]);
+            if !self.is_valid_url(&url) {
                 return cap[0].to_owned();
             }
-            if let Some(href) = cap.get(5) {
-                if !self.is_valid_url(&self.unrestrict(href.as_str())) {
+            let href = cap.get(5).map(|m| self.attribute_text(m.as_str()).into_owned());
+            if let Some(ref href) = href {
+                if !self.is_valid_url(href) {
                     return cap[0].to_owned();
                 }
             }
@@ -590,27 +620,25 @@ impl <'t> ParserState<'t> {
                 }
             }
 
-            let optional_title = cap.get(4).map(|m| m.as_str());
-            atts.insert("alt", optional_title.unwrap_or_default().to_owned());
+            let optional_title = cap.get(4).map(|m| self.attribute_text(m.as_str()).into_owned());
+            atts.insert("alt", optional_title.clone().unwrap_or_default());
 
-            if !UrlBits::parse(url).is_relative() && self.textile.get_sizes {
-                if let Some((width, height)) = get_image_size(url) {
+            if !UrlBits::parse(&url).is_relative() && self.textile.get_sizes {
+                if let Some((width, height)) = get_image_size(&url) {
                     atts.insert("height", height.to_string());
                     atts.insert("width", width.to_string());
                 }
             };
-            let url_id = self.shelve_url(
-                self.unrestrict(url).into());
+            let url_id = self.shelve_url(url.into_owned().into());
             atts.insert("src", url_id);
 
             if let Some(title) = optional_title {
-                atts.insert("title", title.to_owned());
+                atts.insert("title", title);
             }
 
             let img = generate_tag("img", None, &atts);
-            let out = if let Some(href) = cap.get(5) {
-                let shelved_href = self.shelve_url(
-                    self.unrestrict(href.as_str()).into());
+            let out = if let Some(href) = href {
+                let shelved_href = self.shelve_url(href.into());
                 if !shelved_href.is_empty() {
                     let mut a_atts = vec![("href".to_owned(), shelved_href)];
                     if let Some(ref rel) = self.textile.rel {
@@ -1287,7 +1315,7 @@ impl <'t> ParserState<'t> {
         const STOPCHARS:&str = r#"\s|^'"*"#;
         let mut regex_cache = self.textile.regex_cache.borrow_mut();
         let needle = format!("{0}linkStartMarker:", self.textile.uid);
-        let pattern = regex_cache
+        let pattern: Regex = regex_cache
             .entry(line!())
             .or_default()
             .entry("")
@@ -1306,7 +1334,10 @@ impl <'t> ParserState<'t> {
                             "\":",
                             // url upto a stopchar
                             r"(?P<urlx>[^{1}]*)"),
-                        fancy_regex::escape(&needle), STOPCHARS)));
+                        fancy_regex::escape(&needle), STOPCHARS)))
+            .clone();
+        // The cache is needed for processing of the links
+        drop(regex_cache);
 
         let mut f_link = |cap: &Captures| -> String {
             let in_ = &cap[0];
@@ -1456,7 +1487,7 @@ impl <'t> ParserState<'t> {
 
             let url: String = url_chars.iter().collect();
 
-            let url = self.unrestrict(&url);
+            let url = self.attribute_text(&url);
             let uri_parts = UrlBits::parse(&url);
             let allowed_schemes = if self.textile.restricted {
                 &RESTRICTED_URL_SCHEMES[..]
@@ -1482,7 +1513,7 @@ impl <'t> ParserState<'t> {
             };
 
             let text = text.trim();
-            let title = encode_html(title, false, false);
+            let title = self.attribute_text(title);
 
             let text = if !self.textile.noimage {
                 self.image(text)
@@ -1499,7 +1530,7 @@ impl <'t> ParserState<'t> {
             let mut attributes = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
             attributes.insert("href", url_id);
             if !title.is_empty() {
-                attributes.insert("title", self.shelve(title));
+                attributes.insert("title", title.into_owned());
             }
             if let Some(ref rel) = self.textile.rel {
                 attributes.insert("rel", rel.clone());
@@ -1586,7 +1617,7 @@ impl <'t> ParserState<'t> {
             let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
             if let Some(cite) = cap.get(4) {
-                html_atts.insert("cite", cite.as_str().trim().to_owned());
+                html_atts.insert("cite", self.attribute_text(cite.as_str().trim()).into_owned());
             }
             let content = &cap[5];
             let content = self.span(content);
@@ -1974,13 +2005,7 @@ impl Textile {
             state.glyphs(&text).into_owned()
         };
 
-        let text = state.retrieve(text);
-        let text = text.replace(
-            &format!("{0}:glyph:", &state.textile.uid),
-            "");
-
-        let text = state.retrieve_tags(&text);
-        let text = state.retrieve_urls(&text);
+        let text: Cow<str> = state.retrieve_all(text).into();
 
         let text = match self.sanitizer_config {
             Some(ref configurator) =>
diff --git a/src/table.rs b/src/table.rs
index abfc29f..edf2a82 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -6,7 +6,7 @@ use lazy_static::lazy_static;
 use crate::block::{BlockAttributes, BlockHtmlAttributes};
 use crate::regextra::{split_with_capture, fregex};
 use crate::regex_snips::{ALIGN_RE_S, CLS_RE_S, VALIGN_RE_S, SNIP_SPACE, PNCT_RE_S};
-use crate::htmltools::generate_tag;
+use crate::htmltools::{encode_html, generate_tag};
 
 
 const COLSPAN_RE_S: &str = r"(?:\\\d+)";
@@ -103,7 +103,9 @@ pub(crate) fn process_table<'t>(
 
     if let Some(s) = summary {
         if !s.is_empty() {
-            html_attrs.insert("summary", s.trim().to_owned());
+            // Shelved to not be processed along with the content of the table
+            let summary = encode_html(&parser.attribute_text(s.trim()), true, true);
+            html_attrs.insert("summary", parser.shelve(summary));
         }
     }
     let mut caption = String::new();
-- 
2.43.0


From 8613c20c87dc78e8b9e0df157dcb49c5bbfd67c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:53 +0000
Subject: [PATCH 21/49] fix: do not lose ">" at the end of a URL

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index d5eb959..fc714e4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1436,6 +1436,8 @@ impl <'t> ParserState<'t> {
                                 url_chars.splice(.., m["url_chars"].chars());
                                 pop = format!("{0}{1}{2}", &m["tag"], c, pop);
                                 popped = true;
+                            } else {
+                                url_chars.push(c);
                             }
                         },
                         ']' => {
-- 
2.43.0


From 77b7b63d4a8886fb1d03957cb28c70ceb786651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 22/49] fix: do not break entities at the end of URLs in
 restricted mode

---
 src/parser.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index fc714e4..5a09577 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1343,10 +1343,13 @@ impl <'t> ParserState<'t> {
             let in_ = &cap[0];
             let mut pre = unwrap_or_empty(cap.get(1)).to_owned();
             let inner = cap[2].replace('\n', self.textile.proper_br_tag());
-            let mut url = &cap[3];
             if inner.is_empty() {
-                return format!(r#"{0}"{1}":{2}"#, pre, inner, url);
+                return format!(r#"{0}"{1}":{2}"#, pre, inner, &cap[3]);
             }
+            // Must be decoded before popping the characters off its end,
+            // otherwise some entities would get broken
+            let decoded_url = self.unrestrict(&cap[3]);
+            let mut url = decoded_url.as_ref();
             lazy_static! {
                 static ref BLOCK_RE: Regex = fregex!(
                     &format!(
@@ -1489,7 +1492,7 @@ impl <'t> ParserState<'t> {
 
             let url: String = url_chars.iter().collect();
 
-            let url = self.attribute_text(&url);
+            let url = self.retrieve_all(url);
             let uri_parts = UrlBits::parse(&url);
             let allowed_schemes = if self.textile.restricted {
                 &RESTRICTED_URL_SCHEMES[..]
@@ -1505,7 +1508,7 @@ impl <'t> ParserState<'t> {
             let text: Cow<str> = if text == "$" {
                 if scheme_in_list {
                     encode_html(make_url_readable(&url), true, true).into()
-                } else if let Some(rurl) = self.urlrefs.get(url.as_ref()) {
+                } else if let Some(rurl) = self.urlrefs.get(&url) {
                     encode_html(make_url_readable(rurl.source()), true, true).into()
                 } else {
                     encode_html(&url, true, true).into()
@@ -1539,8 +1542,11 @@ impl <'t> ParserState<'t> {
             }
             let a_text = generate_tag("a", Some(&text), &attributes);
             let a_shelf_id = self.shelve(a_text);
-            let result = format!("{0}{1}{2}{3}", pre, a_shelf_id, pop, tight);
-            result
+            let mut leftover = pop + &tight;
+            if self.textile.restricted {
+                leftover = encode_html(&leftover, false, false);
+            }
+            format!("{0}{1}{2}", pre, a_shelf_id, leftover)
         };
 
 
-- 
2.43.0


From d541d3048cceb6e19a865e8bb4d162401e7f7371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:45 +0000
Subject: [PATCH 23/49] fix: do not panic on uneven paddings

---
 src/block.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index fec9bad..9592690 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -225,14 +225,16 @@ impl BlockAttributes {
         }
         if let Ok(Some(m)) = ATTR_HALIGN_RE.captures(&matched) {
             let alignment = match &m[1] {
-                "<" => "left",
-                "=" => "center",
-                ">" => "right",
-                "<>" => "justify",
-                value => unreachable!(
-                    "Unexpected block horizontal alignment: {}", value),
+                "<" => Some("left"),
+                "=" => Some("center"),
+                ">" => Some("right"),
+                "<>" => Some("justify"),
+                // what's left of the paddings
+                _ => None,
             };
-            style.push(format!("text-align:{}", alignment));
+            if let Some(alignment) = alignment {
+                style.push(format!("text-align:{}", alignment));
+            }
         }
 
         let (span, width) = if element == Some("col") {
-- 
2.43.0


From 92ddc2de3663de9f37ad5230cd20829affc931f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:45 +0000
Subject: [PATCH 24/49] fix: recognize spans followed by the punctuation at the
 end of the text

In the lite mode (and within links) there is nothing after it.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5a09577..3fb9c14 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -41,7 +41,7 @@ fn span_re(tag: &str) -> Regex {
                 r"(?P<content>[^{space}{tag}]+|\S.*?[^\s{tag}\n])",
                 r"(?P<end>[{pnct}]*)",
                 r"{tag}",
-                r"(?P<tail>$|[\[\]}}<]|(?=[{pnct}]{{1,2}}[^0-9]|\s|\)))"),
+                r"(?P<tail>$|[\[\]}}<]|(?=[{pnct}]{{1,2}}(?:[^0-9]|$)|\s|\)))"),
             tag=tag, cls=*CLS_RE_S, pnct=PNCT, space=SNIP_SPACE))
 }
 
-- 
2.43.0


From 554a0ffc7f82845a6a4c453c4bf3677fd65f12c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:18 +0000
Subject: [PATCH 25/49] fix: do not loop endlessly over unbalanced quotes
 before a URL

---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3fb9c14..073ade4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -727,6 +727,12 @@ impl <'t> ParserState<'t> {
                     }
                     if let Some(p) = possible_start_quotes.pop() {
                         possibility = p;
+                    } else {
+                        // Out of possible starting segments. The last one
+                        // precedes the very first quote
+                        linkparts.pop();
+                        possible_start_quotes.push(possibility);
+                        break;
                     }
                 } else {
                     // If quotes occur next to each other, we get zero
-- 
2.43.0


From 05bff39b6036f97b10f320186ea0fc2576fca53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:40 +0000
Subject: [PATCH 26/49] fix: do not mistake quotes of a footnote's number for
 those of its content

---
 src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 9592690..aa3df67 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -382,7 +382,8 @@ impl Block {
                     &[("href".to_owned(), format!("#fnrev{}", fnid))]);
                 generate_tag("sup", Some(&fnrev), &sup_html_attrs)
             };
-            new_content = format!("{} {}", sup, &new_content).into();
+            // Shelved, as its quotes must not be mistaken for those of the content
+            new_content = format!("{} {}", ps.shelve(sup), &new_content).into();
             "p"
         } else {
             tag
-- 
2.43.0


From 22334b8dc753e1c3a59a12052c2316f0bd43cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:02 +0000
Subject: [PATCH 27/49] fix: do not insert line breaks into the titles of
 acronyms

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 073ade4..b64a2e5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -143,7 +143,7 @@ fn make_glyph_replacers(is_html5: bool) -> [(Regex, &'static str); 22] {
         // plus/minus
         (fregex!(r"[(\[]\+\/-[\])]"), r"&#177;"),
         // 3+ uppercase acronym
-        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]((?:(?!textileRef:)[^)])*)[)])", SNIP_ABR, SNIP_ACR)),
+        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]((?:(?!textileRef:)[^)\n])*)[)])", SNIP_ABR, SNIP_ACR)),
          if is_html5 {r#"<abbr title="$2">$1</abbr>"#} else {r#"<acronym title="$2">$1</acronym>"#}),
     ]
 }
-- 
2.43.0


From 2675752fd102b2937bf084bb9d0e97fb36b62f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:08 +0000
Subject: [PATCH 28/49] fix: do not repeat the id of a quotation on its
 paragraphs

---
 src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index aa3df67..b52a6d2 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -310,7 +310,8 @@ impl Block {
         let mut new_content = Cow::Borrowed(content);
         let mut eat = false;
         let mut attributes = BlockAttributes::parse(attrs, None, true, ps.textile.restricted);
-        let orig_html_attributes = attributes.clone().html_attrs();
+        // An id must not be repeated on the inner elements
+        let orig_html_attributes = BlockAttributes { id: None, ..attributes.clone() }.html_attrs();
 
         let mut inner_opening = String::new();
         let mut inner_closing = String::new();
-- 
2.43.0


From 4dd076332f7428fdfd19b0a9cbfd84c404f76293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:29 +0000
Subject: [PATCH 29/49] fix: recognize the vertical alignment of header and
 spanning cells

---
 src/block.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b52a6d2..db1588a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -102,7 +102,8 @@ impl BlockAttributes {
         lazy_static! {
             static ref COLSPAN_RE: Regex = fregex!(r"\\(\d+)");
             static ref ROWSPAN_RE: Regex = fregex!(r"/(\d+)");
-            static ref ATTR_VALIGN_RE: Regex = fregex!(&format!(r"^{}", VALIGN_RE_S));
+            static ref ATTR_VALIGN_RE: Regex = fregex!(
+                &format!(r"^_?(?:[\\/]\d+)*[<>=]*({0})", VALIGN_RE_S));
             static ref ATTR_STYLE_RE: Regex = fregex!(r"\{([^}]*)\}");
             static ref ATTR_LANG_RE: Regex = fregex!(r"\[([^\]]+)\]");
             static ref LANG_RE: Regex = fregex!(r"^[a-zA-Z0-9_-]+$");
@@ -137,12 +138,12 @@ impl BlockAttributes {
         };
 
         if element == Some("td") || element == Some("tr") {
-            if let Ok(Some(m)) = ATTR_VALIGN_RE.find(&matched) {
-                let alignment = match m.as_str() {
+            if let Ok(Some(m)) = ATTR_VALIGN_RE.captures(&matched) {
+                let alignment = match &m[1] {
                     "^" => "top",
                     "-" => "middle",
                     "~" => "bottom",
-                    _ => unreachable!("Unsupported table vertical alignment: {}", m.as_str())
+                    _ => unreachable!("Unsupported table vertical alignment: {}", &m[1])
                 };
                 style.push(format!("vertical-align:{}", alignment));
             }
-- 
2.43.0


From 16e7e844ebcf494e760c9b8d519276acf88e5f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:52 +0000
Subject: [PATCH 30/49] fix: do not take brackets within a style for paddings
 in restricted mode

---
 src/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index db1588a..2934a56 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -149,14 +149,14 @@ impl BlockAttributes {
             }
         }
 
-        if !restricted {
-            if let Ok(Some(m)) = ATTR_STYLE_RE.captures(&matched) {
+        if let Ok(Some(m)) = ATTR_STYLE_RE.captures(&matched) {
+            if !restricted {
                 style.extend(
                     m[1].trim_end_matches(';')
                         .split(';')
                         .map(|n| n.trim().to_owned()));
-                matched = matched.replace(&m[0], "");
             }
+            matched = matched.replace(&m[0], "");
         }
 
         let lang = match ATTR_LANG_RE.captures(&matched) {
-- 
2.43.0


From 82f6fa6c72fb1719deed6bf62f5a771e88eca240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:11 +0000
Subject: [PATCH 31/49] fix: do not lose the text between a bracket and a link
 alias

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b64a2e5..58c937f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -539,7 +539,7 @@ impl <'t> ParserState<'t> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
             fregex!(
                 &format!(
-                    r"(?:(?<=^)|(?<=\s))\[(.+)\]((?:(?:{0}):|\/)\S+)(?=\s|$)",
+                    r"(?:(?<=^)|(?<=\s))\[([^\[\]\n]+)\]((?:(?:{0}):|\/)\S+)(?=\s|$)",
                     schemes.join("|")))
         }
         lazy_static! {
-- 
2.43.0


From 771acf2ed1cfe78b3786f04ce5401c7bb5fb3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:40 +0000
Subject: [PATCH 32/49] fix: do not lose multi-line cells of table rows with
 attributes

---
 src/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.rs b/src/table.rs
index edf2a82..17ab50d 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -85,7 +85,7 @@ pub(crate) fn process_table<'t>(
 
 
         static ref RMTCH_RE: Regex = fregex!(
-            &format!(r"^(?P<ratts>{0}{1}\. )(?P<row>.*)",
+            &format!(r"(?s)^(?P<ratts>{0}{1}\. )(?P<row>.*)",
                      *ALIGN_RE_S, *CLS_RE_S));
 
         static ref CMTCH_RE: Regex = fregex!(
-- 
2.43.0


From 8d233e3153f87e6f470525121e1d90dd4280d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:09 +0000
Subject: [PATCH 33/49] fix: end the link of an image at the end of its table
 cell

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 58c937f..b4f55d2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -576,7 +576,7 @@ impl <'t> ParserState<'t> {
                         r"\s?",                       // optional space
                         r"(?:\(([^\)]+)\))?",         // optional title
                         r"\!",                        // closing
-                        r"(?::(\S+)(?<![\]).,]))?",   // optional href
+                        r"(?::([^\s|]+)(?<![\]).,]))?", // optional href
                         r"(?:[\]}}]|(?=[.,\s)|]|$))", // lookahead: space or end of string
                     ),
                     *CLS_RE_S));
-- 
2.43.0


From d32cc9bf8b0329ce72e8639683a004dd95dcee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:58 +0000
Subject: [PATCH 34/49] fix: do not interleave the elements of overlapping
 phrase modifiers

---
 src/parser.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index b4f55d2..118c9bb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1614,6 +1614,10 @@ impl <'t> ParserState<'t> {
         let can_replace = self.span_depth <= self.textile.max_span_depth;
 
         let f_span = |cap: &Captures| -> String {
+            // Overlapping phrases cannot be expressed by nested elements
+            if !self.has_balanced_tags(&cap[0]) {
+                return cap[0].to_owned();
+            }
             // pre, tag, atts, cite, content, end, tail = match.groups()
             let tag = match &cap[2] {
                 "*" => "strong",
@@ -1666,6 +1670,27 @@ impl <'t> ParserState<'t> {
         (open_tag_id, close_tag_id)
     }
 
+    /// Checks if every tag stored by `store_tags` which gets opened
+    /// within the text is also closed within it, and vice versa.
+    fn has_balanced_tags(&self, text: &str) -> bool {
+        let mut regex_cache = self.textile.regex_cache.borrow_mut();
+        let tag_re: &Regex =
+            regex_cache
+            .entry(line!())
+            .or_default()
+            .entry("")
+            .or_insert_with(
+                || fregex!(&format!("{0}[0-9]+:([oc])span", fancy_regex::escape(&self.textile.uid))));
+        let mut depth = 0;
+        for cap in tag_re.captures_iter(text).flatten() {
+            depth += if &cap[1] == "o" { 1 } else { -1 };
+            if depth < 0 {
+                return false;
+            }
+        }
+        depth == 0
+    }
+
     fn retrieve_tags(&self, text: &str) -> String {
         let f_retrieve_tags = |cap: &Captures| -> String {
             let tag_id = cap[1].parse::<u32>().expect("must be an integer");
-- 
2.43.0


From bc239c11f0c467ac2155d217529bedf2ffe1d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:44 +0000
Subject: [PATCH 35/49] fix: do not leak the internal marker of a link
 following a URL immediately

---
 src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 118c9bb..9633312 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1355,7 +1355,12 @@ impl <'t> ParserState<'t> {
             // Must be decoded before popping the characters off its end,
             // otherwise some entities would get broken
             let decoded_url = self.unrestrict(&cap[3]);
-            let mut url = decoded_url.as_ref();
+            // The marker of a link which follows immediately isn't part of the URL
+            let (decoded_url, next_link) = match decoded_url.find(&needle) {
+                Some(pos) => decoded_url.split_at(pos),
+                None => (decoded_url.as_ref(), ""),
+            };
+            let mut url = decoded_url;
             lazy_static! {
                 static ref BLOCK_RE: Regex = fregex!(
                     &format!(
@@ -1552,7 +1557,7 @@ impl <'t> ParserState<'t> {
             if self.textile.restricted {
                 leftover = encode_html(&leftover, false, false);
             }
-            format!("{0}{1}{2}", pre, a_shelf_id, leftover)
+            format!("{0}{1}{2}{3}", pre, a_shelf_id, leftover, next_link)
         };
 
 
-- 
2.43.0


From b64e6982cbec8dedc430d252298bf9c1c2e6e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:54 +0000
Subject: [PATCH 36/49] fix: do not lose the text preceding a table in its
 block

---
 src/parser.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9633312..bb019d5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -800,11 +800,18 @@ impl <'t> ParserState<'t> {
         }
         let text = format!("{0}\n\n", text);
         match PATTERN.captures(&text) {
-            Ok(Some(cap)) => process_table(
-                self,
-                unwrap_or_empty(cap.name("tatts")),
-                &cap["rows"],
-                cap.name("summary").map(|m| m.as_str())).into(),
+            Ok(Some(cap)) => {
+                let table = process_table(
+                    self,
+                    unwrap_or_empty(cap.name("tatts")),
+                    &cap["rows"],
+                    cap.name("summary").map(|m| m.as_str()));
+                // The table might be preceded by some text
+                match cap.get(0) {
+                    Some(m) => text[..m.start()].to_owned() + &table + &text[m.end()..],
+                    None => table,
+                }.into()
+            },
             _ => text.into()
         }
     }
-- 
2.43.0


From ab89f08dc4e77133645b850ea545938a035314e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:31 +0000
Subject: [PATCH 37/49] fix: do not lose the text between the rows of a table

---
 src/table.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/table.rs b/src/table.rs
index 17ab50d..286e8ee 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -210,7 +210,12 @@ pub(crate) fn process_table<'t>(
 
         // create a row to hold the cells.
         let mut r = Row::new(row_atts);
-        for (_cellctr, cell) in row.split('|').skip(1).enumerate() {
+        let mut cells: Vec<&str> = row.split('|').collect();
+        // Normally nothing precedes the first separator
+        if cells[0].trim().is_empty() {
+            cells.remove(0);
+        }
+        for cell in cells {
             let ctag = match HEADING_RE.is_match(cell) {
                 Ok(true) => "th",
                 _ => "td"
-- 
2.43.0


From 065a5d0aa0f8c8443aba4eec887b7312cc881f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:51 +0000
Subject: [PATCH 38/49] fix: keep the rows preceding the first section of a
 table before it

---
 src/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.rs b/src/table.rs
index 286e8ee..b2e3a16 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -265,7 +265,7 @@ pub(crate) fn process_table<'t>(
 
     let tag_content = format!(
         "{0}{1}{2}{3}\n\t",
-        caption, colgroup, groups.join(""), content.join(""));
+        caption, colgroup, content.join(""), groups.join(""));
     let tbl = generate_tag("table", Some(&tag_content), &html_attrs);
     format!("\t{0}\n\n", tbl)
 }
-- 
2.43.0


From f6cb99aed4bb3fdbd0fd28ffe5602e2e829e7470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:08 +0000
Subject: [PATCH 39/49] fix: do not insert line breaks into the titles of links

---
 src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index bb019d5..1962fe9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1355,7 +1355,7 @@ impl <'t> ParserState<'t> {
         let mut f_link = |cap: &Captures| -> String {
             let in_ = &cap[0];
             let mut pre = unwrap_or_empty(cap.get(1)).to_owned();
-            let inner = cap[2].replace('\n', self.textile.proper_br_tag());
+            let inner = &cap[2];
             if inner.is_empty() {
                 return format!(r#"{0}"{1}":{2}"#, pre, inner, &cap[3]);
             }
@@ -1372,7 +1372,7 @@ impl <'t> ParserState<'t> {
                 static ref BLOCK_RE: Regex = fregex!(
                     &format!(
                         concat!(
-                            r"^",
+                            r"(?s)^",
                             r"(?P<atts>{0})", // $atts (if any)
                             r"{1}*", // any optional spaces
                             r"(?P<text>",  // $text is...
@@ -1385,14 +1385,16 @@ impl <'t> ParserState<'t> {
                         *CLS_RE_S, SNIP_SPACE));
             }
 
-            let (atts, text, title) = if let Ok(Some(m)) = BLOCK_RE.captures(&inner) {
+            let (atts, text, title) = if let Ok(Some(m)) = BLOCK_RE.captures(inner) {
                 let m_text = unwrap_or_empty(m.name("text"));
                 (unwrap_or_empty(m.name("atts")),
-                 if m_text.is_empty() { inner.as_str() } else { m_text },
+                 if m_text.is_empty() { inner } else { m_text },
                  unwrap_or_empty(m.name("title")))
             } else {
-                ("", inner.as_str(), "")
+                ("", inner, "")
             };
+            // There are no line breaks in attributes
+            let text = text.replace('\n', self.textile.proper_br_tag());
             let mut pop = String::new();
             let mut tight = String::new();
             let csb_count: usize = url.matches(']').count();
-- 
2.43.0


From 6e351670425d54db2121e551a5c1cdb215d9c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:04 +0000
Subject: [PATCH 40/49] fix: recognize a citation phrase ending another phrase

---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1962fe9..31d7af2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1651,9 +1651,9 @@ impl <'t> ParserState<'t> {
             if let Some(cite) = cap.get(4) {
                 html_atts.insert("cite", self.attribute_text(cite.as_str().trim()).into_owned());
             }
-            let content = &cap[5];
-            let content = self.span(content);
-            let end = &cap[6];
+            // The punctuation at the end can be a part of another phrase ("??")
+            let content = format!("{0}{1}", &cap[5], &cap[6]);
+            let content = self.span(&content);
             let (pre, tail) = get_special_options(
                 unwrap_or_empty(cap.get(1)),
                 unwrap_or_empty(cap.get(7)));
@@ -1662,7 +1662,7 @@ impl <'t> ParserState<'t> {
             open_tag.push('>');
             let close_tag = format!("</{}>", tag);
             let (open_tag_id, close_tag_id) = self.store_tags(open_tag, close_tag);
-            String::from(pre) + &open_tag_id + &content + end + &close_tag_id + tail
+            String::from(pre) + &open_tag_id + &content + &close_tag_id + tail
         };
 
         let mut text = Cow::Borrowed(text);
-- 
2.43.0


From bc61e8d8384637c56a237cb6ff0d8edf80cd4af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 41/49] fix: encode the symbols of note backlinks

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 31d7af2..c08d7d5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -270,7 +270,7 @@ impl <'t> ParserState<'t> {
     fn make_back_ref_link(info: &NoteInfo, g_links: &str, i: char) -> Cow<'t, str> {
         fn char_code_to_entity(c: u32) -> String {
             let entity = format!("&#{};", c);
-            unescape(&entity).into_owned()
+            encode_html(&unescape(&entity), false, false)
         }
 
         let backlink_type = match info.link {
-- 
2.43.0


From 4d1644bbf08ca37b50d59d175960f8e4a772aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:55 +0000
Subject: [PATCH 42/49] fix: apostrophes separated by one letter

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c08d7d5..3db3722 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -95,8 +95,8 @@ fn make_glyph_replacers(is_html5: bool) -> [(Regex, &'static str); 22] {
                 *CUR)),
          r"$1&#215;$2"),
         // apostrophe's
-        (fregex!(&format!(r"({0}|\))'({0})", SNIP_WRD)),
-         r"$1&#8217;$2"),
+        (fregex!(&format!(r"({0}|\))'(?={0})", SNIP_WRD)),
+         r"$1&#8217;"),
         // back in '88
         (fregex!(&format!(r"({0})'(\d+{1}?)\b(?![.]?[{1}]*?')", SNIP_SPACE, SNIP_WRD)),
          r"$1&#8217;$2"),
-- 
2.43.0


From ff77e0e9b2c39a0734047b8807c65b6af9bed6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:49 +0000
Subject: [PATCH 43/49] fix: process the content of definition lists only once

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3db3722..c471216 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -878,11 +878,14 @@ impl <'t> ParserState<'t> {
                         }
                         let term = term.replace('\n', self.textile.proper_br_tag());
 
-                        let term = self.graf(&term);
-                        let definition = self.graf(&definition);
+                        // The remaining stages must not process these again
+                        let term = self.graf(&term).into_owned();
+                        let term = self.shelve(term);
+                        let definition = self.graf(&definition).into_owned();
 
                         out.push(format!("\t<dt{0}>{1}</dt>", html_atts_str, term).into());
                         if !definition.is_empty() {
+                            let definition = self.shelve(definition);
                             out.push(format!("\t<dd>{0}</dd>", definition).into());
                         }
                     }
-- 
2.43.0


From 115ddd7b94a418dad00c802ba6f13b56824181f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:45 +0000
Subject: [PATCH 44/49] fix: bracket following an HTML comment lost

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c471216..c6bab3b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -505,8 +505,8 @@ impl <'t> ParserState<'t> {
             // restricted mode, the html comment tags have already been converted to
             // &lt;!*#8212; and &#8212;&gt; so they don't match in getHTMLComments,
             // and never arrive here.
-            let (before, comment_text) = (&cap[1], &cap[2]);
-            format!("{0}<!--{1}-->", before, self.shelve(comment_text.to_owned()))
+            let (before, comment_text, after) = (&cap[1], &cap[2], unwrap_or_empty(cap.get(3)));
+            format!("{0}<!--{1}-->{2}", before, self.shelve(comment_text.to_owned()), after)
         })
     }
 
-- 
2.43.0


From bf5c8a2d1e5087ceacab407d617f9fe70b51d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:39 +0000
Subject: [PATCH 45/49] fix: text of unusual definition list lines lost

---
 src/parser.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c6bab3b..74a8cc7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -821,9 +821,9 @@ impl <'t> ParserState<'t> {
     pub(crate) fn redcloth_list<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
         lazy_static! {
             static ref PATTERN: Regex = fregex!(
-                &format!(r"(?ms)^([-]+{0}[ .].*:=.*)$(?![^-])", *CLS_RE_S));
+                &format!(r"(?ms)^([-]+{0}\.? .*:=.*)$(?![^-])", *CLS_RE_S));
             static ref SPLITTER: Regex = fregex!(
-                r"(?m)\n(?=[-])");
+                &format!(r"(?m)\n(?=[-]+{0}\.? )", *CLS_RE_S));
 
             // parses the attributes and the content
             static ref ATTR_CONTENT_RE: Regex = fregex!(
@@ -867,7 +867,7 @@ impl <'t> ParserState<'t> {
                         out.push(dltag);
                     }
 
-                    if !term.is_empty() {
+                    if !term.is_empty() || !definition.is_empty() {
                         let newline_started_def = definition.starts_with('\n');
                         let mut definition = definition
                             .trim()
@@ -879,11 +879,15 @@ impl <'t> ParserState<'t> {
                         let term = term.replace('\n', self.textile.proper_br_tag());
 
                         // The remaining stages must not process these again
-                        let term = self.graf(&term).into_owned();
-                        let term = self.shelve(term);
+                        let mut term = self.graf(&term).into_owned();
+                        if !term.is_empty() {
+                            term = self.shelve(term);
+                        }
                         let definition = self.graf(&definition).into_owned();
 
-                        out.push(format!("\t<dt{0}>{1}</dt>", html_atts_str, term).into());
+                        if !term.is_empty() {
+                            out.push(format!("\t<dt{0}>{1}</dt>", html_atts_str, term).into());
+                        }
                         if !definition.is_empty() {
                             let definition = self.shelve(definition);
                             out.push(format!("\t<dd>{0}</dd>", definition).into());
-- 
2.43.0


From 20350eca9df037a84b72db08d285a09c5cd4a839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:49 +0000
Subject: [PATCH 46/49] fix: line break within a definition taken for the URL
 of a link

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 74a8cc7..76cfbc9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -670,8 +670,9 @@ impl <'t> ParserState<'t> {
     // process.
     fn mark_start_of_links(&self, text: &str) -> String {
         lazy_static! {
+            // A tag (like a line break) cannot be a URL
             static ref SLICE_RE: Regex = fregex!(
-                &format!("\":(?={})", SNIP_CHAR));
+                &format!("\":(?=(?!<){})", SNIP_CHAR));
         }
 
         let mut slices: Vec<_> = split_with_capture(&SLICE_RE, text).collect();
-- 
2.43.0


From 821dc0d30327f9b1fdb677a5cc06279e5bb41de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:33 +0000
Subject: [PATCH 47/49] fix: line break within a definition taken for a part of
 a link alias

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 76cfbc9..23965c1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -539,7 +539,7 @@ impl <'t> ParserState<'t> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
             fregex!(
                 &format!(
-                    r"(?:(?<=^)|(?<=\s))\[([^\[\]\n]+)\]((?:(?:{0}):|\/)\S+)(?=\s|$)",
+                    r"(?:(?<=^)|(?<=\s))\[([^\[\]\n]+)\]((?:(?:{0}):|\/)(?:(?!<br)\S)+)(?=\s|$)",
                     schemes.join("|")))
         }
         lazy_static! {
-- 
2.43.0


From 984be25af6b7b236eec39b4523c0860d3f9ab65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 48/49] fix: a line break within a link or a definition is not
 a part of an image or a citation

---
 src/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 23965c1..212a6d9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -37,7 +37,7 @@ fn span_re(tag: &str) -> Regex {
                 r"(?P<tag>{tag})(?!{tag})",
                 r"(?P<atts>{cls})",
                 r"(?!{tag})",
-                r"(?::(?P<cite>\S+[^{tag}]{space}))?",
+                r"(?::(?P<cite>(?:(?!<br\s*/?>)\S)+[^{tag}]{space}))?",
                 r"(?P<content>[^{space}{tag}]+|\S.*?[^\s{tag}\n])",
                 r"(?P<end>[{pnct}]*)",
                 r"{tag}",
@@ -568,11 +568,11 @@ impl <'t> ParserState<'t> {
                 &format!(
                     concat!(
                         r"(?:[\[{{])?",               // pre
-                        r"\!",                        // opening !
+                        r"\!(?!<br\s*/?>)",           // opening !
                         r"([<>=]|&lt;|&gt;)?",        // optional alignment atts
                         r"({0})",                     // optional style,class atts
                         r"(?:\.\s)?",                 // optional dot-space
-                        r"([^\s(!]+)",                // presume this is the src
+                        r"((?:(?!<br\s*/?>)[^\s(!])+)", // presume this is the src
                         r"\s?",                       // optional space
                         r"(?:\(([^\)]+)\))?",         // optional title
                         r"\!",                        // closing
@@ -1401,8 +1401,6 @@ impl <'t> ParserState<'t> {
             } else {
                 ("", inner, "")
             };
-            // There are no line breaks in attributes
-            let text = text.replace('\n', self.textile.proper_br_tag());
             let mut pop = String::new();
             let mut tight = String::new();
             let csb_count: usize = url.matches(']').count();
@@ -1545,7 +1543,8 @@ impl <'t> ParserState<'t> {
                 text.into()
             };
 
-            let text = text.trim();
+            // The line breaks are still to be converted
+            let text = text.trim_matches(|c: char| c.is_whitespace() && c != '\n');
             let title = self.attribute_text(title);
 
             let text = if !self.textile.noimage {
@@ -1553,6 +1552,8 @@ impl <'t> ParserState<'t> {
             } else {
                 Cow::Borrowed(text)
             };
+            // There are no line breaks in attributes
+            let text = text.replace('\n', self.textile.proper_br_tag());
             let text = self.span(&text);
             let text = self.glyphs(&text);
 
-- 
2.43.0


From 47430390a2c758b62bf4176306c552139c1f3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 49/49] fix: close list elements properly and start another
 list when its kind changes

---
 src/parser.rs | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 212a6d9..46d3e41 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -970,9 +970,9 @@ impl <'t> ParserState<'t> {
             if list_items.is_empty() || list_items[0].level > 1 {
                 return cap[0].to_owned();
             }
-            let mut prev: Option<&ListItem> = None;
-
             let mut lists = IndexMap::<&str, usize>::new();
+            // The lists being open, together with their items waiting to be closed
+            let mut open_lists = Vec::<(&str, Option<&str>)>::new();
             let mut out = Vec::<String>::new();
             let mut litem = "";
             for (index, item) in list_items.iter().enumerate() {
@@ -994,7 +994,7 @@ impl <'t> ParserState<'t> {
                 // let mut start: Option<usize> = None;
                 if ltype == "ol" {
                     let start_value = self.ol_starts.entry(item.tl.to_string()).or_insert(1);
-                    if prev.map(|p| item.level > p.level).unwrap_or(true) {
+                    if !lists.contains_key(item.tl) {
                         if item.st.is_empty() {
                             *start_value = 1;
                         } else if item.st != "_" {
@@ -1013,14 +1013,17 @@ impl <'t> ParserState<'t> {
                     }
                 }
 
-                if let Some(p) = prev {
-                    if p.tl.contains(';') && item.tl.contains(':') {
-                        lists.insert(item.tl, 2);
-                    }
+                // Terms and their definitions belong to the same list
+                let same_list = |tl: &str, other: &str| tl == other || tl.len() == other.len()
+                    && list_type(tl) == list_type(other)
+                    && tl.contains([';', ':']) && other.contains([';', ':']);
+                if lists.keys().any(|k| same_list(k, item.tl)) {
+                    lists.entry(item.tl).or_insert(2);
                 }
                 let tabs = "\t".repeat(item.level - 1);
                 let mut line = if !lists.contains_key(item.tl) {
                     lists.insert(item.tl, 1);
+                    open_lists.push((ltype, None));
                     if show_item {
                         format!(
                             "{0}<{1}{2}>\n{0}\t<{3}>{4}",
@@ -1039,25 +1042,34 @@ impl <'t> ParserState<'t> {
                     String::new()
                 };
 
-                if show_item && next.map(|n| n.level <= item.level).unwrap_or(true) {
-                    line += &format!("</{0}>", litem);
+                if show_item {
+                    if next.map(|n| n.level <= item.level).unwrap_or(true) {
+                        line += &format!("</{0}>", litem);
+                    } else if let Some((_, open_item)) = open_lists.last_mut() {
+                        *open_item = Some(litem);
+                    }
                 }
 
                 for (k, v) in lists.clone().iter().rev() {
                     let indent = k.len();
-                    if next.map(|n| indent > n.level).unwrap_or(true) {
+                    // Either there are no more items or the next one is of a list
+                    // on a higher level or of another kind
+                    let ends = |n: &ListItem| indent > n.level || indent == n.level && !same_list(k, n.tl);
+                    if next.map(ends).unwrap_or(true) {
                         if *v != 2 {
-                            line += &format!("\n{0}</{1}>", tabs, list_type(k));
-                            if indent > 1 {
-                                line += "</";
-                                line += litem;
-                                line += ">";
+                            if let Some((closed_list, _)) = open_lists.pop() {
+                                line += &format!("\n{0}</{1}>", tabs, closed_list);
+                            }
+                            // The item which contains the closed list ends as well
+                            if next.map(|n| indent > n.level).unwrap_or(true) {
+                                if let Some(open_item) = open_lists.last_mut().and_then(|l| l.1.take()) {
+                                    line += &format!("</{0}>", open_item);
+                                }
                             }
                         }
                         lists.shift_remove(k);
                     }
                 }
-                prev = Some(item);
                 out.push(line);
             }
             let merged_out = out.join("\n");
@@ -1091,7 +1103,8 @@ impl <'t> ParserState<'t> {
                 return text.into()
             }
             // The <br> is not appropriate to insert after the following prefixes
-            const STOP_PREFIXES: [&str; 6] = ["</dd>", "</dt>", "</li>", "<br/>", "<br>", "<br />"];
+            const STOP_PREFIXES: [&str; 9] = [
+                "</dd>", "</dt>", "</li>", "</dl>", "</ol>", "</ul>", "<br/>", "<br>", "<br />"];
             let mut output = String::with_capacity(text.len() + num_newlines * br.len());
             let mut next_start = 0;
             while let Some(rel_newline_pos) = text[next_start..].find('\n') {
-- 
2.43.0


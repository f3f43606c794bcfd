#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe="return value of Textile::parse"):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":None}})
FIX="The suite replays about 200 fixed documents (and most of them only with network access); "
I=["inputs"]; IC=["inputs","configurations"]
p("C01","Parsing is total: it returns for every input and every configuration",
 "For every text and every combination of settings (including sanitizing and any uid), parsing returns a string: it never panics, overflows an arithmetic operation or the stack of an ordinary 2 MB thread, dies, or fails to come back. The size of the result stays proportional to what was typed, and inputs of a few kilobytes are converted in seconds at most.",
 IC,"every UTF-8 string, every setting","The panics found here needed multi-byte characters next to line breaks, huge list numbers, uneven paddings, unbalanced quotes or deep nesting: none of the fixtures contains them.",
 ["parser.rs","block.rs","table.rs","htmltools.rs","regextra.rs","urlutils.rs"],
 [("entry point","src/parser.rs Textile::parse"),("regex replacement that cannot fail","src/regextra.rs ReplaceOrKeep"),("line breaks","src/parser.rs do_tag_br"),("nesting limits","src/parser.rs span, redcloth_list")])
p("C02","Restricted mode lets no author-controlled markup or attribute through",
 "In restricted mode a browser reading the output finds only the elements Textile itself generates, with attributes only from Textile's own vocabulary: no class, id or style chosen by the author (alignment and padding marks, generated footnote/note ids and code languages excepted), no event handlers, no raw HTML, no comments. Whatever HTML the author typed appears as literal text, and the output is well-formed at the level of tags and attributes.",
 IC,"every text, with every other setting varied","One fixture for raw HTML and two for attributes cannot cover attacks through titles, summaries, aliases, acronyms, code, notes, tables and their combinations (several of which did get through).",
 ["parser.rs","block.rs","table.rs","htmltools.rs"],
 [("up-front encoding","src/parser.rs Textile::parse"),("attribute filtering","src/block.rs BlockAttributes::parse"),("attribute encoding","src/htmltools.rs quoteattr"),("decode/encode of code and URLs","src/parser.rs unrestrict, attribute_text")])
p("C03","Links and images only ever use allowed URL schemes",
 "Every href and src generated from Textile links, link aliases, images and image links is either relative or uses http, https, ftp or mailto, or (only outside of restricted mode) file, tel, callto, sftp or data, however the scheme is spelled, encoded or disguised. Links and images with an allowed scheme are generated in either mode; those with any other scheme are left as plain text.",
 IC,"every URL text in every URL position, restricted or not","Fixtures try a handful of schemes, mostly in plain links; case, control characters, aliases, image links and self-links are not combined with them.",
 ["parser.rs","urlutils.rs"],[("scheme lists","src/parser.rs RESTRICTED_URL_SCHEMES, UNRESTRICTED_URL_SCHEMES"),("link check","src/parser.rs replace_links"),("image check","src/parser.rs image, is_valid_url"),("aliases","src/parser.rs get_refs")])
p("C04","The sanitizing pass is applied last and to everything",
 "With sanitizing enabled the result is what Ammonia (default policy, without adding rel attributes, or as adjusted by the user's configurator) makes of the result without sanitizing; nothing bypasses it. In particular the output contains no elements, attributes or URL schemes outside of the policy, and switching sanitizing off again restores the unsanitized output.",
 IC,"every text, every configuration and configurator","The only tests are two doc examples with one harmless link.",
 ["parser.rs"],[("sanitizing step","src/parser.rs Textile::parse"),("configuration","src/parser.rs set_sanitize, adjust_sanitizer")])
p("C05","Internal placeholders never leak and cannot be forged",
 "No internal placeholder text ever remains in the output, even if the input contains text which imitates placeholders of this very parser. The uid influences nothing but the generated ids and the links to them: using another uid gives the same output with the ids renamed.",
 IC,"every text (including those built from the uid itself) and every uid","Fixtures run with one uid each and one of them contains one placeholder-like line.",
 ["parser.rs"],[("shelving","src/parser.rs shelve, shelve_url, store_tags"),("retrieval","src/parser.rs retrieve_all"),("input scrubbing","src/parser.rs Textile::parse"),("uid","src/parser.rs set_uid")])
p("C06","Parsing is a pure function of the settings and the text",
 "The output depends only on the text and on the last value given to each setting: not on texts parsed earlier (with this parser or another one, on this or another thread), nor on how often the same text is parsed, nor on the order in which settings were made or values they had before.",
 ["histories","schedules","configurations"],"every sequence of setter and parse calls, on any number of threads each having its own parser","Every test builds a fresh parser and parses once; state that survives (regex cache, counters) is never observed.",
 ["parser.rs"],[("per-parse state","src/parser.rs ParserState::new"),("regex cache","src/parser.rs Textile::regex_cache"),("setters","src/parser.rs impl Textile")],"results of whole histories of calls")
p("C07","No text of the author gets lost, duplicated or reordered",
 "Every word typed in a place where text is displayed (paragraphs, headings, quotes, lists, definitions, tables, links, code, raw HTML, notes that are listed) appears exactly once in the text of the output, in the order it was typed (notes at their list), whatever markup surrounds it and whether or not this markup is well-formed.",
 IC,"every document of marked words amid correct or broken markup","Fixtures only contain well-formed constructs of a few words.",
 ["parser.rs","block.rs","table.rs","regextra.rs"],[("splitting","src/regextra.rs split_with_capture"),("lists","src/parser.rs textile_lists, redcloth_list"),("tables","src/table.rs process_table"),("blocks","src/parser.rs block")])
p("C08","Code, preformatted and notextile content is reproduced verbatim",
 "The content of inline code (@, <code>), code and preformatted blocks (bc., pre., <pre>, extended ones included) reads in a browser exactly as typed, character for character, in both normal and restricted mode. The content of notextile (blocks, tags and ==) is emitted unchanged (HTML-escaped in restricted mode), and nothing of these is ever interpreted as Textile.",
 IC,"every content, in paragraphs, lists, tables, links and quotes","Fixtures use short snippets; double encoding, entities, placeholders and markup inside of code vary without limit.",
 ["parser.rs","block.rs","htmltools.rs"],[("inline","src/parser.rs code, no_textile, do_special"),("blocks","src/block.rs Block::new"),("encoding","src/htmltools.rs encode_html, reverse_encode_html")])
p("C09","Blocks are converted to the right elements with the right attributes",
 "Paragraphs, headings, quotations (with their citation), code, preformatted, notextile and comment blocks become the corresponding elements carrying exactly the class, id, style, language, alignment and padding given; single line breaks inside of paragraphs and headings become <br>. Extended blocks (..) apply to all following blocks up to the next explicit block, each of the others only to itself.",
 IC,"every sequence of blocks with every combination and order of attributes","Fixtures combine few attributes and short sequences.",
 ["parser.rs","block.rs"],[("block splitting and extension","src/parser.rs block"),("elements","src/block.rs Block::new"),("attributes","src/block.rs BlockAttributes::parse"),("line breaks","src/parser.rs do_p_br")])
p("C10","Lists keep their items, nesting, numbering and attributes",
 "Bulleted, numbered, mixed and definition lists (both syntaxes) are converted to well-nested list elements with every item exactly once, in order, at the depth and of the kind given by its marker, including multi-line items and inline markup. Numbering starts where the author says (#5), and a list marked with #_ continues after the last item of the previous list of the same depth and kind.",
 IC,"every sequence of items of every depth, kind, start and attributes","About ten fixtures with fixed shapes.",
 ["parser.rs"],[("lists","src/parser.rs textile_lists"),("definition lists","src/parser.rs redcloth_list"),("line breaks","src/parser.rs do_tag_br"),("numbering","src/parser.rs ParserState::ol_starts")])
p("C11","Tables keep their rows, cells, sections, spans and attributes",
 "A table is converted to a table element with its caption, summary, column group, sections (head, foot, body), rows and cells in order, each carrying exactly its header kind, colspan, rowspan, alignment, class, id, style and language. Every cell holds its own content (inline markup and lists included), and none is lost, merged or moved.",
 IC,"every table shape and every combination of attributes at every level","About fifteen fixtures with fixed shapes.",
 ["table.rs","parser.rs","block.rs"],[("table","src/table.rs process_table"),("recognition","src/parser.rs table"),("cell attributes","src/block.rs BlockAttributes::parse")])
p("C12","Phrase modifiers become the right, properly nested elements",
 "Each phrase modifier (* ** _ __ - + ^ ~ % ??) around a phrase becomes its element with its attributes (and citation), wherever in a block it occurs: nested in another one (up to the supported depth of five), in square brackets within a word, next to punctuation, brackets, quotes or other markup. Marks that do not enclose a phrase stay literally in the text, and the elements are always properly nested.",
 IC,"every nesting, context and attribute combination","Fixtures contain each modifier in a few contexts.",
 ["parser.rs","block.rs","regextra.rs"],[("recognition","src/parser.rs span_re"),("replacement","src/parser.rs span, store_tags, retrieve_tags"),("brackets","src/parser.rs get_special_options")])
p("C13","Links lead where the author wrote, with the text and title given",
 "A link (inline, bracketed, self-referencing \"$\" or through an alias defined anywhere before or after its use) becomes one anchor whose href means the same URL as written (normalized, HTML-escaped, its query and fragment intact), with exactly its text, title, attributes and the configured rel. Punctuation and unbalanced brackets following the URL are left outside of it, in the text; balanced ones belong to it.",
 IC,"every URL, text, title and surrounding","Fixtures list some dozens of URLs; brackets, punctuation, entities and attributes are not combined.",
 ["parser.rs","urlutils.rs"],[("start of links","src/parser.rs mark_start_of_links"),("URL end, text and title","src/parser.rs replace_links"),("aliases","src/parser.rs get_refs, retrieve_urls"),("normalization","src/urlutils.rs UrlBits, UrlString")])
p("C14","Images keep their source, alternative text, alignment and link",
 "An image becomes one img element with the URL as written, alt text (empty if none is given) and title, its attributes, its alignment as a class or an align attribute depending on the settings (by default a class in HTML5 and the attribute in XHTML), wrapped in a link (with the configured rel) if one is given. With images disabled no img is ever generated from Textile syntax and the source stays as text.",
 IC,"every combination of alignment, attributes, alt, link, context and setting","Few fixtures, hardly any combination; set_align_class is not tested.",
 ["parser.rs","block.rs"],[("images","src/parser.rs image"),("class merging","src/block.rs insert_css_class"),("settings","src/parser.rs set_images, set_align_class")])
p("C15","Footnote references and footnotes are linked to each other",
 "Every footnote reference [n] becomes a superscript link (plain with !) to the id of the footnote fn n that follows, repeated references lead to the same footnote, and a footnote with a backlink (^) leads to the id of its first reference. All generated ids are unique within the document and no generated link is dangling when both ends exist.",
 IC,"every number, order and repetition of references and footnotes","Four fixtures with one or two footnotes.",
 ["parser.rs","block.rs"],[("references","src/parser.rs footnote_ref"),("footnotes","src/block.rs Block::new")])
p("C16","Notes are numbered by first reference and linked with their references",
 "Note references are numbered from one in the order of their first appearance, all references to one note showing the same number, and a note list shows the referenced notes in the order of these numbers with exactly the defined content, wherever the definitions stand, followed on request (+) by the unreferenced ones. Backlinks lead to the actual references (all, the first or none, as the note or else the list says), a definition's first reference leads to the note, undefined notes are reported as such, and all generated ids are unique.",
 IC,"every arrangement of definitions, references and list options","Four fixtures with up to five notes (their numbering never reaches two digits).",
 ["parser.rs","block.rs"],[("definitions","src/parser.rs parse_note_defs"),("references","src/parser.rs note_ref"),("lists","src/parser.rs place_note_lists, make_back_ref_link")])
p("C17","Typographic replacements happen exactly where they should",
 "Quotes and apostrophes within a run of text become the curly ones of the right direction; ellipses, dashes, dimension signs, trademark, registered, copyright, degree, plus/minus signs, fractions and lone ampersands become their characters; capitals of three or more letters and acronyms get marked up. Ordinary text without such sequences, attribute values, URLs and code stay untouched.",
 IC,"every sequence of words, numbers and glyph sources in every context","Fixtures contain some dozens of sentences.",
 ["parser.rs","regex_snips.rs"],[("glyphs","src/parser.rs make_glyph_replacers, glyphs"),("quoted quotes","src/parser.rs glyph_quoted_quote"),("capitals","src/parser.rs DYN_3PLUS_RE")])
p("C18","XHTML and HTML5 outputs only differ in the documented ways",
 "For every text the XHTML output differs from the HTML5 output only in the spelling of line breaks (<br />), the element for acronyms (acronym instead of abbr) and the way images are aligned unless that is set explicitly. Content, structure, ids and all other attributes are the same.",
 IC,"every text and every other setting","Only a handful of fixtures run in XHTML mode.",
 ["parser.rs"],[("flavour","src/parser.rs set_html_kind, proper_br_tag"),("acronyms","src/parser.rs make_glyph_replacers"),("final br pass","src/parser.rs Textile::parse")])
p("C19","Each mode switch does what it promises and nothing else",
 "Lite mode only supports paragraphs, quotations and bc. markers as blocks (no headings, lists, tables, inline code or notextile) but keeps inline formatting; disabled block tags leave only phrase modifiers and typographic replacements, without any block elements, links or images; disabled images leave their source as text; rel adds itself to all Textile links and nothing else; raw blocks keep blocks of unknown elements as they are. Documents not using the switched feature give the same output with the switch on or off.",
 IC,"every text with every pair of settings differing in one switch","Each switch is covered by zero to three fixtures.",
 ["parser.rs","htmltools.rs"],[("lite and block tags","src/parser.rs graf, block, Textile::parse"),("raw blocks","src/htmltools.rs is_raw_block"),("setters","src/parser.rs impl Textile")])
p("C20","Line ending style and blank line contents do not matter",
 "Texts differing only in the style of their line endings (LF, CR LF or CR, even mixed), in spaces and tabs on blank lines, or in blank lines at the beginning and the end give the same output. Any number of blank lines between two blocks separates them as one blank line does.",
 IC,"every text and every such variation of it","No fixture contains CR; blank lines always are empty.",
 ["parser.rs"],[("normalization","src/parser.rs normalize_newlines"),("block splitting","src/parser.rs block")])
p("C21","Blocks are converted independently of each other",
 "The output for two texts joined by a blank line is the output of the first followed by the output of the second, unless one of them uses a construct that by definition reaches further (extended blocks, link aliases, notes, footnotes, continued lists). In particular broken or unusual markup never affects another block.",
 IC,"every pair of texts","Fixtures are small and run separately.",
 ["parser.rs","block.rs"],[("block loop","src/parser.rs block"),("per-parse counters","src/parser.rs ParserState")])
p("C22","Image sizes are only fetched when asked for, and failures are harmless",
 "Unless getting image sizes was enabled, parsing makes no network request at all. When enabled, each image with an absolute URL is requested once and gets the width and height found at the beginning of its data; relative images cause no request, and missing, broken, slow or truncated responses merely leave the sizes out, changing nothing else of the output.",
 ["inputs","configurations","fault_sequences"],"every document of images, every server behaviour","The only test needs the real Wikipedia.",
 ["parser.rs"],[("fetching","src/parser.rs get_image_size"),("attributes","src/parser.rs image"),("switch","src/parser.rs set_getting_image_size")],"requests seen by a local server and the return value of Textile::parse")
p("C23","Raw HTML in unrestricted mode passes through intact",
 "Outside of restricted mode inline tags, block-level HTML, comments and divider blocks typed by the author appear in the output with their names, attributes and text unchanged; blocks consisting of block-level HTML or dividers are not wrapped in paragraphs, phrases in inline elements are. Textile within inline and block elements is still converted, typographic replacements never touch tags.",
 IC,"every element, attribute and mixture with Textile","About fifteen fixtures.",
 ["parser.rs","htmltools.rs","regex_snips.rs"],[("wrapping","src/htmltools.rs has_raw_text"),("dividers","src/regex_snips.rs DIVIDER_RE"),("tags kept by glyphs","src/parser.rs glyphs"),("comments","src/parser.rs get_html_comments")])
p("C24","Attribute values survive exactly and cannot break out of the attribute",
 "Every value placed into an attribute (titles of links, images and acronyms, alternative texts, summaries, citations, styles, classes, ids, languages, URLs, rel) reads back from the HTML as the text the author (or the caller) gave (values Textile does not accept, like malformed classes, ids and languages, are left out), whatever quotes, brackets, ampersands or other special characters it contains. It never ends the attribute or the tag early.",
 IC,"every value in every attribute position, in both modes","Fixtures use plain words and a few entities.",
 ["htmltools.rs","block.rs","parser.rs","table.rs"],[("quoting","src/htmltools.rs quoteattr, encode_html, join_html_attributes"),("shelved values","src/parser.rs attribute_text"),("attribute parsing","src/block.rs BlockAttributes::parse")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import sys; print(len(P))

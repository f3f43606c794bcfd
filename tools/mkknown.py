#!/usr/bin/env python3
"""Writes /verif/known_findings.json (run by hand; no check calls it)."""
import json,subprocess
def cfg(**k):
    d={"restricted":False,"lite":False,"xhtml":False,"images":True,"block_tags":True,"raw_blocks":False,"rel":None,"align_class":None,"sanitize":False,"uid":"xyz"}
    d.update(k); return d
F=[]
def f(p,inp,obs,what,**k): F.append({"property":p,"input":inp,"config":cfg(**k),"observed":obs,"what":what})
f("C16",'a[#x] b[#x]\n\nnotelist.\n\nnote#x. y','href="#note"','the second and later references to one note link to "#note" instead of the id of the note (the project\'s own fixture expects this output): a[#x] b[#x]')
f("C16",'a[#x]\n\nnote#x. y\n\nnotelist.\n\nnotelist^.','id="notexyz-2"> </span>y</li>\n\t</ol>\n\n<ol>','a second, differently flagged note list repeats the ids of the first one: notelist. notelist^.')
f("C24",'|{a:*(b)x*}. foo|','style="a:<strong class="b">x','phrase markup within the style of a table cell is converted into an element: |{a:*(b)x*}. foo|')
f("C24","table(t). a '' b\n|c|",'summary="a &amp;#8216;&amp;#8217; b"',"a pair of single quotes within a table summary is replaced by curly ones and encoded twice: table(t). a '' b")
f("C23",'x <b title="*y*">z</b>','title="<strong>y</strong>"','phrase markup within an attribute of a raw tag is converted: x <b title="*y*">z</b>')
f("C23",'x <b\ntitle="a">z</b>','&lt;b<br>','a raw tag spanning two lines gets a line break inside and is no longer a tag: x <b\\ntitle="a">z</b>')
f("C23",'x <!-- ==y== --> z','<!-- y -->','== within a comment is interpreted: x <!-- ==y== --> z')
f("C17",'a "<b>x</b>" c','</b>&#8220; c','the closing quote directly following a raw tag gets the opening form: a "<b>x</b>" c')
f("C15",'fn1. foo\n\nbar[1]','id="fnxyz-1"','a reference which follows its footnote leads to an id that does not exist: fn1. foo\\n\\nbar[1]')
f("C08",'@a ==b== c@','<code>a b c</code>','== within inline code is interpreted before the code is: @a ==b== c@')
f("C08",'<pre>a\n\n*b*</pre>','<strong>b</strong>','a raw <pre> element spanning blank lines is not verbatim: <pre>a\\n\\n*b*</pre>')
f("C08",'<pre>a @b@ c</pre>','<code>b</code>','@ within a raw <pre> element is interpreted: <pre>a @b@ c</pre>')
PROP={ # words of the commit subject -> property
"close list elements properly":"C10","decode &amp;":"C01","multi-byte":"C01","counter of an ordered":"C01","keep the definition of a note":"C16","order of their numbers":"C16","repeated definitions":"C16",
"for links around images":"C03","for link aliases":"C03","\"rel\" attribute":"C14","cached regular":"C06","escape the uid":"C05","set_align_class":"C14","backtracking limit":"C01",
"limit the nesting":"C01","every occurrence of the uid":"C05","set_raw_blocks":"C19","self-referencing":"C02","malformed languages":"C02","encode code twice":"C08","shelved text":"C24",
"lose \">\"":"C13","break entities":"C13","uneven paddings":"C01","punctuation at the end":"C12","loop endlessly":"C01","quotes of a footnote":"C15","titles of acronyms":"C24",
"id of a quotation":"C09","vertical alignment":"C11","brackets within a style":"C09","bracket and a link alias":"C07","multi-line cells":"C11","end the link of an image":"C14",
"interleave":"C12","internal marker":"C05","preceding a table":"C07","between the rows":"C07","preceding the first section":"C11","titles of links":"C24","citation phrase":"C12",
"symbols of note backlinks":"C16","one letter":"C17","definition lists only once":"C10","HTML comment lost":"C07","unusual definition list":"C07","URL of a link":"C02","part of a link alias":"C02","part of an image":"C18"}
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
fixed=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    ps=[p for k,p in PROP.items() if k in s]
    assert len(ps)==1,(s,ps)
    fixed.append(f"fixed: property={ps[0]} {h} {s[5:]}")
json.dump({"findings":F,"fixed":fixed},open("/verif/known_findings.json","w"),indent=1,ensure_ascii=False)
print(len(F),len(fixed))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":hook}})

p("P01","Concurrent calls do not affect one another",
 "Any number of include, preprocess, tokenize, parse and render calls may run at the same time on different threads, on the same or on different documents (also rendering one shared syntax tree at once). Whatever the interleaving, none of them crashes, deadlocks or blocks for ever, and each returns exactly what the same call returns alone in a fresh process (generated ids and the current time apart).",
 ["schedules","inputs"],"every interleaving of every set of calls, including the ones which race on the first use of lazily initialised state",
 "The tests run each call to completion on one thread; the order in which threads reach lazily initialised globals or any shared state is never controlled.",
 ["src/lib.rs","src/tokenizer.rs","src/preproc/typography.rs","src/preproc/whitespace.rs","src/includes/mod.rs","src/parsing/mod.rs","src/parsing/rule/impls/block/mapping.rs","src/render/html/mod.rs","src/render/text/mod.rs"],
 [("once_cell Lazy statics hold only immutable tables and regexes","src/preproc/typography.rs"),("all mutable state is per call (Parser, HtmlContext, TextContext)","src/parsing/parser.rs")],
 state=[("BLOCK_RULE_MAP and other Lazy statics","lookup tables built on first use","src/parsing/rule/impls/block/mapping.rs")],
 observe=["ftml::include","ftml::preprocess","ftml::tokenize","ftml::parse","HtmlRender::render","TextRender::render"])

p("P02","Results do not depend on earlier or abandoned calls",
 "The result of a call depends only on its arguments: not on which calls were made before it in the process or on the thread, not on rendering the same tree before, and not on whether earlier calls failed or were cut short by a panic which unwound out of them. Rendering leaves the syntax tree unchanged.",
 ["histories","fault_sequences","inputs"],"every history of calls on any number of documents and settings, with any of them cut short at any point by unwinding",
 "The tests call each function once on fresh input; no test abandons a call midway and carries on in the same process.",
 ["src/lib.rs","src/parsing/parser.rs","src/parsing/mod.rs","src/render/html/context.rs","src/render/text/context.rs","src/includes/mod.rs"],
 [("per-call state is created in parse() and render() and dropped at their end","src/parsing/mod.rs")],
 observe=["ftml::include","ftml::parse","HtmlRender::render","TextRender::render"])

p("P03","Output does not depend on hash seeds, entropy or the clock",
 "Given the same source text, page information and settings, every run yields the same included text, syntax tree, errors, HTML, text and backlinks, whatever hash map seeds, random bytes and clock the process happened to get. Only generated element ids, and dates that the source asks to be computed from the current time, may differ, and the places where ids occur are the same.",
 ["configurations","inputs"],"every value of the random bytes and of the clock the environment supplies",
 "The test build replaces the id generator by a fixed seed and compares maps structurally; no test varies hash seeds or the clock.",
 ["src/render/html/random.rs","src/render/html/attributes.rs","src/tree/attribute/mod.rs","src/parsing/rule/impls/block/arguments.rs","src/render/html/element/date.rs","src/tree/variables.rs"],
 [("attributes are kept in ordered maps","src/tree/attribute/mod.rs")],
 observe=["serialised SyntaxTree","HtmlOutput.body, .meta, .backlinks","TextRender output"])

p("P04","An includer's failure reaches the caller unchanged",
 "When the caller's includer fails to fetch the pages, or fails to produce the replacement for a missing page, include returns exactly that error, at once, without asking the includer for anything further. It never turns a failure into partial or silently wrong text, and a later attempt with a working includer gives the result as if nothing had failed.",
 ["fault_sequences","inputs"],"every document and every point at which an includer call fails",
 "The tests use includers which cannot fail.",
 ["src/includes/mod.rs","src/includes/includer/mod.rs"],
 [("errors are propagated with ?","src/includes/mod.rs")],
 observe=["ftml::include result","calls received by the Includer"])

p("P05","Mismatched include responses are refused",
 "If the includer answers with a different number of pages than asked for, or with a page other than the one asked for at that position, include fails with the caller's invalid-return error. It never substitutes a page in place of another and never drops a block silently.",
 ["fault_sequences","inputs"],"every document and every response which lost, gained, duplicated, swapped or renamed a page",
 "The tests' includers always answer correctly.",
 ["src/includes/mod.rs","src/data/page_ref.rs"],
 [("length and page reference comparison","src/includes/mod.rs")],
 observe=["ftml::include result"])

p("P06","Include replaces each block once and keeps all other text",
 "include asks its includer once, for exactly the include blocks of the text in source order with their page references; in its output every block is replaced by the fetched content (or by the missing-page replacement, asked for exactly when the page has no content), and every other byte of the source is kept. The returned page list is the list of requested pages in source order, and repeating include over successive rounds gives the same text as expanding each page by itself.",
 ["inputs","histories","fault_sequences"],"every text, page store and sequence of rounds, with pages that are missing, empty, changed between rounds or fetched only after retries",
 "Unit tests only check which page references are found, in about sixty inputs with one echoing includer.",
 ["src/includes/mod.rs","src/includes/parse.rs","src/includes/grammar.pest"],
 [("substitution from the last block to the first","src/includes/mod.rs")],
 observe=["ftml::include result","calls received by the Includer"])

p("P07","Included pages see exactly their own include's arguments",
 "In an included page's content, each {$name} is replaced by the value the include block gave for that name (the first value, where one is repeated, that is not just the unset variable itself), and names not given are left as they are. Values are inserted verbatim and not expanded again, and values given to one include never reach another page or the including text.",
 ["inputs","histories"],"every set of includes, arguments and page contents, over several rounds of nesting",
 "No test runs an include whose page uses variables.",
 ["src/includes/mod.rs","src/includes/parse.rs","src/tree/variables.rs"],
 [("replace_variables with the variables of one include","src/includes/mod.rs"),("first argument takes precedence","src/includes/parse.rs")],
 observe=["ftml::include result","IncludeRef::variables"])

p("P08","Generated ids are unique and every reference resolves",
 "In one HTML output no two elements carry the same generated or numbered id, whatever the entropy source delivers, and what is generated differs from one rendering to the next unless the source repeats itself; every link or ARIA reference to such an id (tabs and their panels, footnotes and footnote references, bibliography items, and headings where fixed ids are in use) leads to an element which exists in that output, in the direction which belongs together. With ids isolated, every id of the user's carries the prefix, so that none collides with the page's own.",
 ["configurations","inputs"],"every document and every sequence of random bytes",
 "The test build fixes the id generator's seed, so the shipped generator is never run.",
 ["src/render/html/random.rs","src/render/html/element/tabs.rs","src/render/html/element/footnotes.rs","src/render/html/element/toc.rs","src/render/html/element/bibliography.rs","src/id_prefix.rs"],
 [("16 random alphanumeric characters per generated id","src/render/html/random.rs")],
 observe=["HtmlOutput.body"])

p("P09","Dates follow the clock exactly where asked to",
 "A date given explicitly renders the same moment whatever the clock says, now or after any jump; a date of the current time is the clock's moment during the parse. The relative age attached to a date is the difference between that date and the clock at rendering, so it moves with the clock and nothing else in the output does, and no value of the clock makes a call fail.",
 ["configurations","inputs","histories"],"every clock value, jump and drift between parse and render",
 "Tests of dates avoid the current time since it is not under their control.",
 ["src/parsing/rule/impls/block/blocks/date.rs","src/tree/date.rs","src/render/html/element/date.rs"],
 [("OffsetDateTime::now_utc at parse, difference at render","src/tree/date.rs")],
 observe=["HtmlOutput.body: data-timestamp, data-delta"],)

p("P10","Footnotes appear exactly once, numbered in order",
 "Every footnote which appears in the document gets one reference, numbered 1, 2, 3, ... in order of appearance, and one entry in the footnote block under the same number with that footnote's own contents. This holds whatever parts of the document the parser tried and gave up on around it: an abandoned attempt leaves no footnote behind, and none is lost, repeated or given another's contents.",
 ["inputs","fault_sequences"],"every document and every set of parse attempts abandoned in it",
 "Tests use well-formed footnotes in isolation; whether backtracking leaves stale entries depends on where attempts fail.",
 ["src/parsing/parser.rs","src/parsing/rule/impls/block/blocks/footnote.rs","src/render/html/element/footnotes.rs","src/parsing/mod.rs"],
 [("shared list restored when an attempt fails","src/parsing/rule/mod.rs"),("footnote block appended if there is none","src/parsing/mod.rs")],
 state=[("Parser::footnotes","contents of all footnotes, in order","src/parsing/parser.rs")],
 observe=["SyntaxTree.footnotes","HtmlOutput.body"],hook="rule_fault: makes a rule which succeeded count as failed")

p("P11","The table of contents matches the headings",
 "The table of contents lists exactly the headings of the document which are not excluded from it, in order, with their text and nesting by level, and each entry links to its own heading. This holds whatever parse attempts were abandoned around or inside of them.",
 ["inputs","fault_sequences"],"every document and every set of parse attempts abandoned in it",
 "Tests cover a few well-formed tables of contents.",
 ["src/parsing/parser.rs","src/parsing/rule/impls/header.rs","src/parsing/depth.rs","src/parsing/mod.rs","src/render/html/element/toc.rs"],
 [("shared list restored when an attempt fails","src/parsing/rule/mod.rs")],
 state=[("Parser::table_of_contents","level and text of all headings, in order","src/parsing/parser.rs")],
 observe=["SyntaxTree.table_of_contents","HtmlOutput.body"],hook="rule_fault")

p("P12","Code and HTML blocks are listed exactly once, in order",
 "The syntax tree's lists of code blocks and of HTML blocks hold exactly the blocks which occur in the document, once each, in order, with their contents verbatim, their language and their name, no code block name occurring twice; the rendered blocks show the same contents. This holds whatever parse attempts were abandoned around them.",
 ["inputs","fault_sequences"],"every document and every set of parse attempts abandoned in it",
 "Only single well-formed blocks are tested.",
 ["src/parsing/parser.rs","src/parsing/rule/impls/block/blocks/code.rs","src/parsing/rule/impls/block/blocks/html.rs","src/tree/code.rs"],
 [("shared lists restored when an attempt fails","src/parsing/rule/mod.rs"),("names are checked against the earlier blocks'","src/parsing/parser.rs")],
 state=[("Parser::code_blocks, Parser::html_blocks","the blocks seen so far","src/parsing/parser.rs")],
 observe=["SyntaxTree.code_blocks","SyntaxTree.html_blocks","HtmlOutput.body"],hook="rule_fault")

p("P13","Citations and bibliography entries agree",
 "Each bibliography shows its own entries in order, every label once; a citation of a label shows the number and the contents of the first bibliography entry in the document which defines this label, and links to it; a citation of a label nothing defines says so. This holds whatever parse attempts were abandoned around them.",
 ["inputs","fault_sequences"],"every set of bibliographies and citations, in every order, and every set of parse attempts abandoned in the document",
 "Tests cover single bibliographies without broken surroundings.",
 ["src/tree/bibliography.rs","src/parsing/rule/impls/block/blocks/bibliography.rs","src/render/html/element/bibliography.rs"],
 [("first definition wins","src/tree/bibliography.rs")],
 state=[("Parser::bibliographies","all bibliographies seen so far","src/parsing/parser.rs")],
 observe=["SyntaxTree.bibliographies","HtmlOutput.body"],hook="rule_fault")

p("P14","Failed markup loses and duplicates no text",
 "When markup is unfinished, malformed, wrongly nested or given up on for any other reason, the text within and around it still comes out: every word of the source's running text appears in the rendered HTML and text exactly once and in source order. No combination of failing constructs drops, repeats or reorders words.",
 ["inputs","fault_sequences"],"every combination of broken constructs, and every parse attempt made to fail",
 "Fixtures sample single failures; how an attempt's partial result is discarded depends on what fails where.",
 ["src/parsing/consume.rs","src/parsing/collect/consume.rs","src/parsing/collect/text.rs","src/parsing/paragraph/mod.rs","src/parsing/rule/impls"],
 [("fall back to plain text on a cloned parser","src/parsing/consume.rs")],
 observe=["SyntaxTree.elements","HtmlOutput.body","TextRender output"],hook="rule_fault")

p("P15","Diagnostics point at the text they are about",
 "Every reported parse error carries a span within the parsed text, on character boundaries, which is the span of one of the tokens the text was split into, and it names that very token; that no rule matched is reported once for each token which is then taken as plain text, in the order of the text, and the failures reported just before it lie at that token or behind it; errors are found again on parsing the same text. This holds for every text, also when source was damaged or attempts were abandoned.",
 ["inputs","fault_sequences"],"every text, damaged text and set of abandoned parse attempts",
 "Tests compare the errors of a few dozen inputs.",
 ["src/parsing/error.rs","src/parsing/parser.rs","src/parsing/token/mod.rs","src/utf16.rs"],
 [("errors are built from the current token","src/parsing/parser.rs")],
 observe=["ParseOutcome::errors"],hook="rule_fault")

p("P16","Damaged source never crashes a call",
 "However a source text was truncated, corrupted, spliced, repeated or deeply nested, and in every mode, layout and setting and with any page information, preprocess, tokenize, parse and both renderers return normally: no panic, no stack overflow, no endless loop. The returned tree can be rendered and serialised.",
 ["inputs","crash_points","configurations"],"every text, in particular every torn or corrupted version of a valid text",
 "The repository's property tests draw small trees or short random strings; fixtures are well-formed.",
 ["src/parsing","src/tokenizer.rs","src/preproc","src/render/html","src/render/text","src/parsing/parser.rs"],
 [("recursion limit","src/parsing/parser.rs"),("plain text fallback","src/parsing/consume.rs")],
 observe=["return from each call"])

p("P17","Progress is made in bounded work",
 "Each call finishes within work proportional to the length of its input, up to a modest factor, as long as constructs are not nested more than a few deep without being closed: adding further text, lines, rows, list items or finished constructs one after another never makes the work for the existing ones grow out of proportion, nor the stack.",
 ["inputs","fault_sequences"],"every document made of any number of consecutive constructs, broken ones included",
 "Tests contain small documents and measure nothing.",
 ["src/parsing/consume.rs","src/parsing/parser.rs","src/parsing/rule/impls","src/parsing/collect"],
 [("each attempt consumes at least a token","src/parsing/consume.rs")],
 observe=["number of simulator steps taken by a call"])

p("P18","Saved documents reload intact, torn ones are rejected",
 "A syntax tree, page information, settings, parse outcome or HTML output which is saved as JSON and loaded again is the same: it serialises to the same data and renders to the same HTML and text. An owned copy of a tree is equal to it and outlives its source, and a saved document cut off at any point is rejected with an error, never accepted as another document.",
 ["inputs","crash_points","histories"],"every document and every point at which a write of it can be torn",
 "Tests deserialise single fixtures and compare trees; nothing is cut off or rendered after reloading.",
 ["src/tree/mod.rs","src/tree/element/object.rs","src/tree/clone.rs","src/tree/variables.rs","src/tree/bibliography.rs","src/data/page_info.rs","src/settings/mod.rs"],
 [("serde derive on all tree types","src/tree/element/object.rs"),("to_owned on each element","src/tree/element/object.rs")],
 observe=["serde_json round trip","SyntaxTree::to_owned","renderers"])

p("P19","Links agree with page existence and with the backlinks",
 "Within one HTML rendering all links to the same page, however its site is written, agree on whether it exists even when the site's answer changes meanwhile: each page is asked about at most once, and links to pages which do not exist are marked as such. The backlinks of the output list exactly the internal and external text links which the document shows, each once per time it is shown, in order, and no existence lookup is made for external addresses or for pages without a link.",
 ["fault_sequences","histories","inputs"],"every document and every sequence of answers the site gives",
 "The stub in the crate answers that every page exists, so no changing answer is ever seen.",
 ["src/render/html/context.rs","src/render/html/element/link.rs","src/url.rs","src/data/backlinks.rs"],
 [("cache of answers per rendering","src/render/html/context.rs")],
 state=[("HtmlContext::pages_exists","answers received so far","src/render/html/context.rs")],
 observe=["HtmlOutput.body","HtmlOutput.backlinks"],hook="simulated site answers for page lookups")

p("P20","Failed lookups degrade to a placeholder, and only there",
 "When looking up a user, a page title or an image gives nothing, the output shows the documented fallback at exactly that place: the user's name as an error, the page as its own label, no image but a message. The rest of the output stays byte for byte as with a successful lookup, and each lookup is about the item it is for.",
 ["fault_sequences","inputs"],"every document and every subset of lookups failing",
 "The stub never fails a user or title lookup, so the fallback paths are not run.",
 ["src/render/handle.rs","src/render/html/element/user.rs","src/render/html/element/link.rs","src/render/html/element/image.rs","src/render/text/elements.rs"],
 [("Option results of the handle","src/render/handle.rs")],
 observe=["HtmlOutput.body","TextRender output"],hook="simulated site answers for lookups")

p("P21","Text from users and from the site is escaped in the HTML",
 "The HTML output is well-formed, with every element closed in the right order and every attribute quoted, and the only elements and attributes in it are the ones the renderer makes: no text of the document, page information or answer of the site (titles, user names, URLs, messages) can add markup, and it reads back as the same text. This holds for damaged source and failing lookups alike.",
 ["inputs","fault_sequences"],"every document, damaged or not, and every answer of the site",
 "Fixtures check escaping in a handful of places with benign answers.",
 ["src/render/html/escape.rs","src/render/html/builder.rs","src/render/html/attributes.rs","src/render/html/element"],
 [("escaped writes except for raw pushes","src/render/html/builder.rs"),("attribute allow list","src/tree/attribute/safe.rs")],
 observe=["HtmlOutput.body"],hook="simulated site answers for lookups")

p("P22","Unsafe attributes and addresses are never rendered",
 "No attribute outside of the allow list and no javascript: or data: address, however disguised with case, spaces or control characters, gets from the document into an href or src of the HTML. This holds for damaged source, for parts left behind by parse attempts which were given up, and where lookups fail; only an address which does nothing (javascript:;) and the site's own avatars are exempt.",
 ["inputs","fault_sequences"],"every document, damaged or not, and every set of parse attempts and lookups failing in it",
 "Unit tests call the filters on a list of strings; whether each address in the output went through them is not tested.",
 ["src/tree/attribute/safe.rs","src/url.rs","src/render/html/element/link.rs","src/render/html/element/image.rs","src/render/html/element/iframe.rs"],
 [("dangerous_scheme() on links and attributes","src/url.rs"),("attribute allow list","src/tree/attribute/safe.rs")],
 observe=["HtmlOutput.body"],hook="simulated site answers for lookups")

# Not claimed: pure functions of their input.
NA=[
("N01","Preprocessing normalises text the same way wherever it occurs","Preprocessing turns tabs, line endings, typographic marks and trailing whitespace into their normal forms everywhere in the text, and changes nothing else; doing it twice is the same as doing it once.",["src/preproc"]),
("N02","Tokens cover the text without gaps or overlaps","The tokens of a text cover it completely, in order, without gap or overlap, and each token's slice is the text of its span.",["src/tokenizer.rs","src/parsing/lexer.pest"]),
("N03","UTF-16 conversion maps each index to the same character","Converting a span to UTF-16 indices, as for JavaScript callers, denotes the same characters as the byte span.",["src/utf16.rs"]),
("N04","Markup is parsed as Wikidot does","Each construct of the Wikidot syntax is parsed to the element Wikidot renders for it, apart from the differences documented.",["src/parsing/rule"]),
("N06","Page conditions are evaluated as documented","iftags and ifcategory keep their body exactly when the documented condition on the page's tags or category holds.",["src/parsing/condition.rs"]),
("N07","Layouts differ only in the documented markup","The Wikidot and the Wikijump layout of a document have the same contents and differ only in the documented element markup.",["src/layout.rs","src/render/html"]),
("N08","Messages and numbering follow the page's language","Text inserted by the renderer is in the language of the page.",["src/render/handle.rs"]),
("N09","The JavaScript bindings return what the library returns","Each WebAssembly export returns the converted result of the library call it wraps.",["src/wasm"]),
("N10","Interwiki prefixes expand to their sites","An interwiki link is expanded to the address configured for its prefix, and is plain text for an unknown prefix.",["src/settings/interwiki.rs"]),
]
for i,t,s,f in NA:
    p(i,t,s,["inputs"],"every input","Tests sample a few inputs.",f,[("pure function of its input",f[0])])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as fh:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        fh.write(json.dumps(x)+"\n")
print(len(P))

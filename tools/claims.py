INC = "Texts are generated from include blocks, near misses and filler; the oracle is a second, independent reading of the include grammar (harness/src/props/include.rs). "
DOC = "Documents are generated from a grammar so that what they must show is known, with constructs left unfinished and successes of parse rules turned into failures at seeded points. "
MORE = {
"P04": ("a simulated page store which fails at seeded requests, histories of attempts compared with a reference model",
  INC + "The includer is the only party which can fail."),
"P05": ("a simulated page store whose answers are lost, duplicated, reordered or about other pages, checked against a reference model",
  INC),
"P06": ("seeded rounds of includes against a simulated page store with missing pages and faults, refinement against a reference model",
  INC),
"P07": ("seeded rounds of includes with arguments against a simulated page store with faults, refinement against a reference model",
  INC),
"P15": ("seeded damage to the source and parse rules made to fail, every diagnostic looked up among the tokens",
  "Faults are injected into single successes of parse rules."),
"P16": ("seeded damage to the source under a step budget in forked processes, which tells panics, overflows and endless loops apart",
  "Time is counted in steps (log lines and allocations). Texts with many unfinished constructs may run out of steps without it counting, see the known findings."),
"P17": ("seeded growth of one document by repetition, with constructs left open and parse rules made to fail, work counted in simulator steps",
  "Work is counted in log lines, basic blocks of the library, allocations, allocated bytes and stack, not in time; growth is judged between n and 4n repetitions."),
"P18": ("seeded saves to storage which tears writes, loads compared with what was saved",
  "Storage is JSON through serde_json."),
"P10": ("seeded abandonment of parse attempts (rule failures, unfinished constructs, damage), footnotes in tree and HTML compared with a model of the document",
  DOC + "Footnotes in entries of hidden bibliographies are left out, see the known findings."),
"P11": ("seeded abandonment of parse attempts, table of contents and headings compared with a model of the document",
  DOC + "Headings in footnotes are compared in the tree only, see the known findings."),
"P12": ("seeded abandonment of parse attempts, listed blocks compared with a model of the document and with what the simulated site was given",
  DOC),
"P13": ("seeded abandonment of parse attempts, bibliographies and citations compared with a model of the document",
  DOC),
"P14": ("seeded abandonment of parse attempts over words and ill-fitting marks, conservation and order of words checked in both outputs",
  DOC + "Marks which legitimately take text as a name or address (images, users, single links) are left out where they would do so."),
"P08": ("simulated entropy with faults (constant, repeating, interrupted and short reads) over documents with abandoned parse attempts, ids and references of the HTML resolved",
  "Constant bytes of entropy are allowed to repeat an id from one rendering to the next, not within one. Bibliographies in footnotes are a known finding."),
"P09": ("simulated clock with jumps and drift between parse and renderings, dates compared with the moments meant",
  "The clock stays between 1970 and 2262, the range of a Linux kernel."),
"P19": ("a simulated site which changes its answers while it is asked, links in the HTML compared with what was asked and with the backlinks",
  "Links of images and [[a]] are not listed among the backlinks, as now."),
"P20": ("lookups of a simulated site made to fail by number, output compared byte for byte with the one where they succeed",
  "HTML snippets always get an address, the interface has no failure for it."),
"P21": ("hostile answers of a simulated site, seeded damage to the source and parse rules made to fail, HTML read back by a strict parser",
  "Whether a browser reads the HTML as the strict parser does is assumed."),
"P22": ("seeded damage to the source, parse rules and lookups made to fail, every address in the HTML judged as a browser reads it",
  "Addresses in href and src are judged; style sheets are left to the site."),
}

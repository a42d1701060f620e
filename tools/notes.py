REF = " Trusts the reference CSS parser in harness/css.go."
NOTES["C01"] = ("bounded exhaustive enumeration of inputs and configurations on the real compiler in worker processes with crash, hang and memory detection",
 "All byte strings of 3 characters, token sequences of 2-3 lexemes in every context, all single edits of a corpus, nesting and reference chains at scale, all import graphs over 3 files; deeper in the thorough tier. No claim for longer arbitrary inputs.")
NOTES["C02"] = ("bounded exhaustive enumeration of selector lists on the real compiler against a reference selector parser",
 "All complex selectors of up to 3 simple selectors with every joiner, all attribute selector and An+B forms within the grammar." + REF)
NOTES["C03"] = ("bounded exhaustive enumeration of declaration values on the real compiler against a css-syntax-3 reference parser",
 "All values of up to 3-4 components with every separator in every block position." + REF)
NOTES["C04"] = ("bounded exhaustive enumeration of rule sequences, at-rules and media conditions on the real compiler against a reference parser",
 "All sheets of up to 3-4 rules over the supported at-rules and all media conditions up to the grammar bound." + REF)
NOTES["C22"] = ("bounded exhaustive enumeration of token sequences on the real compiler against a css-syntax-3 reference parser",
 "Holds for every token sequence up to the stated length in every listed context." + REF)
BE = "bounded exhaustive enumeration of "
NOTES["C05"] = (BE + "equivalent spellings on the real compiler, comparing canonical outputs", "All single and (thorough) paired respellings of newlines, whitespace, comments, quotes, urls and escapes at every position of bounded sheets. Escaped leading hyphens are excluded." + REF)
NOTES["C06"] = (BE + "sheets and configurations, compiling the output of the real compiler again", "All sheets of the bounded grammars of the other checks, transforms off, on and one at a time.")
NOTES["C07"] = (BE + "sheets of 2-3 constructs under all 96 transform configurations on the real compiler against a table of results", "21 constructs at top level, in @media and in imported files; no claim about interactions of more than three constructs." + REF)
NOTES["C08"] = (BE + "selector lists on the real compiler; both sides are reduced to the exact set of link states that they match", "Lists of up to 3 selectors, 4 compounds and 3-9 occurrences." + REF)
NOTES["C09"] = (BE + "media queries on the real compiler; both sides are evaluated in every distinguishable environment", "Two-sided ranges with mixed strictness are reported as unsupported and not covered. Values within .001 of a strict bound are not compared." + REF)
NOTES["C10"] = (BE + "definitions and uses on the real compiler; both sides are evaluated in every distinguishable environment", "Up to 3 definitions with 23 bodies, chains of up to 7." + REF)
NOTES["C11"] = (BE + "definition graphs and uses on the real compiler against a reference substitution", "Up to 3 mutually recursive definitions, chains of up to 10, 26 values, 33 uses, 11 places." + REF)
NOTES["C12"] = (BE + "calc() expressions on the real compiler against an exact rational evaluator", "All expressions of up to 4 operands over 9 operand kinds with all parenthesisations, in every context." + REF)
NOTES["C13"] = (BE + "import graphs and file contents on the real compiler against the compilation of the textually flattened file", "Up to 3 files with 2 imports each, 12 kinds of contents, 8 paths; trusts the compiler for the flattened text, which C03 to C12 check.")
NOTES["C14"] = (BE + "projects, entry sequences and path spellings on the real compiler against the compilation of each file alone", "Up to 3 files with 2 imports each, up to 3-4 entries in 7 spellings, 64 files at most. No symbolic links.")
NOTES["C15"] = ("stateless exploration of all schedules of the real concurrent code up to a preemption bound: a controlled scheduler replaces its goroutines, locks and joins by a build overlay, with happens-before state caching and the race detector on every schedule", "About 320 small compilations (two files in the quick tier) with up to 6 concurrent jobs; preemptions unlimited for 2 jobs, 3 for 3, 2 for 4, 1 for 5. Blocking system calls are atomic. Code that the overlay cannot control (select) only runs freely under the race detector.")
NOTES["C16"] = (BE + "directory trees and specifiers on the real resolver against a reference resolver on a model of the file system", "About 3 million trees (thorough) with up to five levels, 23 forms of package.json and symbolic links. No permissions (root), no link cycles.")
NOTES["C17"] = (BE + "stylesheets on the real compiler; source maps are decoded independently and compared with rule positions found by the reference parser", "Sequences of up to 3 rules with trivia, distances up to 2^19 lines and columns, inlined files. Newlines are LF, CR and CRLF." + REF)
NOTES["C18"] = ("exhaustive enumeration of all 2^31-1 integers (thorough; 2^28 in the quick tier plus all digit patterns) on the real encoder and decoder against the definition", "Complete for the stated range in the thorough tier.")
NOTES["C19"] = (BE + "texts in front of 70 faulty constructs on the real compiler, comparing places with those of the construct alone", "Up to 2-3 added constructs out of 28 rules and 19 declarations. The underline below a quoted line is not checked (a unit test fixes its odd width of tabs).")
NOTES["C20"] = (BE + "projects and fault assignments on the real compiler against the same projects without faults", "Up to 3-4 files and 2-3 simultaneous faults of 8 kinds. Permissions are not exercised (the checks run as root); reads that fail half-way are not either.")
NOTES["C21"] = (BE + "stylesheets, options and load histories on the real plugin callback and real esbuild builds, against direct compilations", "18 sheets with 11 configurations, histories of 3 loads, builds of a stylesheet or of a script with three of them. esbuild itself is trusted.")
NOTES["C23"] = (BE + "histories of compilations on the real compiler, each history in a process of its own, and stateless exploration of the schedules of two concurrent compilations with the controlled scheduler of C15 and the race detector; the oracle is each compilation alone", "All histories of 3 (thorough: 4) of 28 compilations, 666 pairs at once with one preemption (thorough: more, and triples). State in files outside of the project is not covered.")
NOTES["C24"] = (BE + "projects with problems on the real compiler with options given and left out, comparing outputs, errors and what is written to the standard streams", "13 kinds of problems in two files, 64 package layouts, pairs of 14 sheets.")

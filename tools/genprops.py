#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe or ["cssc.Compile result and reporter"], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

LEX, PAR, SEL, PRI, TRA, API = ("internal/lexer/lexer.go", "internal/parser/parser.go", "internal/parser/selectors.go",
    "internal/printer/printer.go", "internal/transformer/transformer.go", "api.go")

prop("C01", "Every compilation terminates without crashing and accounts for each entry",
 "For any file contents and any transform options, Compile returns: it never hangs, panics or crashes the process, and the work per declaration or media query stays bounded however definitions refer to each other. Every entry file then has either an output in the result or at least one error handed to the reporter.",
 ["inputs", "configurations"], "all byte strings and token sequences (bounded length), valid or malformed, under every transform configuration",
 "The tests compile a few well-formed sheets and a handful of errors; termination and absence of panics is a claim about all inputs, in particular truncated and malformed ones.",
 [LEX, PAR, SEL, PRI, TRA, API],
 [("lexer always advances", LEX), ("parse errors are recovered and returned", "parser.Parse"), ("fallback to verbatim declarations", "parser.parseRaw"), ("print errors are recovered", "printer.Print")])

prop("C02", "Selectors keep their meaning",
 "Every valid style rule in the supported selector syntax (type, universal, class, id, attribute selectors with all operators and case flags, pseudo-classes and pseudo-elements with arguments, An+B, all combinators, selector lists) compiles without error with transforms off. The rule in the output has the same selectors: the same compounds joined by the same combinators in the same order, attribute tests with the same operator, value and flag, and An+B arguments denoting the same indices.",
 ["inputs"], "all selector lists built from the supported simple selectors and combinators, with all whitespace/comment placements, up to a bounded size",
 "Tests print a few selectors; the interaction of whitespace retention, attribute brackets, pseudo arguments and combinators has combinatorially many cases.",
 [SEL, PRI, LEX], [("parseSelector / parseAttributeSelector / parseANPlusB", SEL), ("selector printing", PRI)])

prop("C03", "Declarations and values keep their meaning",
 "With transforms off, every syntactically valid declaration survives compilation: same property name, same value tokens in the same order with nothing merged, split, dropped or duplicated (strings, urls, numbers, units, functions and their arguments, brackets, delimiters, custom properties), same !important flag, and the same position among its siblings. Declarations that the compiler does not understand (legacy hacks, nested blocks, unusual tokens) are passed through verbatim and never affect neighbouring declarations or rules.",
 ["inputs"], "all declaration values up to a bounded number of component values over an alphabet with one member per token kind and known lexical hazard, in every position of a block",
 "Tests cover about ten values. Token merging, quoting and recovery mistakes only show for particular token pairs and particular neighbours.",
 [PAR, PRI, LEX], [("parseDeclaration / parseValue / parseRaw", PAR), ("value printing and separators", PRI)])

prop("C04", "Rule structure, at-rules and media queries keep their meaning",
 "With transforms off, the output contains exactly the input's rules, in the input's order and nesting: style rules, @media with every query, @keyframes with every selector and frame, @import with its target and conditions, and block at-rules such as @font-face. No rule, prelude part, query or keyframe selector is dropped, duplicated, merged or reordered; only rules without any declarations may be omitted.",
 ["inputs"], "all stylesheets with a bounded number of rules over the supported at-rules, media query forms and keyframe selectors",
 "Tests check one @keyframes, one @media and one @import shape each; order and completeness are claims about every combination.",
 [PAR, PRI, TRA], [("parseAtRule and its variants", PAR), ("transformNodes passes nodes through in order", TRA), ("at-rule printing", PRI)])

prop("C05", "Equivalent spellings compile to equivalent output",
 "Replacing part of an input by a lexically equivalent spelling never changes the meaning of the output nor whether it is accepted: LF, CRLF, CR or form feed newlines, any whitespace or comments between tokens, single or double quotes, quoted or unquoted urls, escaped or literal characters in identifiers, strings and urls, and non-ASCII text. Escapes at the start of an identifier that hide a hyphen are not meant.",
 ["inputs"], "every base stylesheet of a fixed corpus with one spelling per lexical feature, and every combination of up to a bounded number of respellings",
 "There is one CRLF test and one comment fixture, which only check that parsing succeeds.",
 [LEX, PRI], [("newline conversion", "lexer.step"), ("escapes", "lexer.nextEscaped"), ("comments and whitespace", "lexer.Next"), ("string printing", PRI)])

prop("C06", "Compiled output is accepted again and is a fixed point",
 "Whenever a stylesheet compiles without errors, feeding the emitted CSS back to the compiler with the same transform options succeeds without errors and, apart from the source map comment, emits exactly the same CSS again.",
 ["inputs", "configurations"], "all accepted inputs of the bounded stylesheet grammar under the transform configurations",
 "No test ever re-parses printed output.",
 [PAR, PRI, TRA], [("printing emits parseable css", PRI)])

prop("C07", "Transforms are off by default and independent of each other",
 "With zero-value options no construct is rewritten. For every combination of transform options, each option that is off leaves its construct (@import, media ranges, :any-link, var() and custom properties, @custom-media, math functions) exactly as written whatever other options are on, and an option that is on rewrites its construct the same way whatever the other options are, wherever the construct appears (top level, inside @media).",
 ["configurations", "inputs"], "all combinations of the six transform options crossed with stylesheets containing bounded combinations of the constructs",
 "Each test switches on one transform and uses a stylesheet with just that construct.",
 [TRA, "transforms/transforms.go", API], [("option checks before each rewrite", TRA), ("options forwarded", API)])

prop("C08", ":any-link rewriting preserves matching",
 "With the any-link transform on, no top-level compound of any selector contains :any-link, and each rewritten selector list matches exactly the elements the original matched: every occurrence independently stands for :link or :visited. All other selectors and all declarations of the rule are unchanged.",
 ["inputs"], "all selector lists with 0..3 occurrences of :any-link in any compounds, positions and list members",
 "Tests use a single occurrence per selector.",
 [TRA], [("transformSelectors", TRA)])

prop("C09", "Media range rewriting preserves the query's truth value",
 "With the media range transform on, every range feature is replaced by min-/max- features such that the whole query list evaluates the same in every environment, whichever operator, operand order, one- or two-sided form, and whatever not/and/or/media type context it appears in, up to the documented .001 precision for strict comparisons. Non-range features and the block are unchanged, and a range that is not rewritten is reported.",
 ["inputs"], "all media query lists of bounded size over all range forms and boolean contexts, evaluated in every environment around the boundary values",
 "Tests compare a few strings for positive contexts only.",
 [TRA, PRI], [("transformMediaFeatureRange", TRA), ("addToValue", TRA)])

prop("C10", "Custom media substitution preserves the query's truth value",
 "With the custom media transform on, every (--name) that has a definition anywhere in the compiled sheet is replaced so that the query evaluates as the definition (the last one for a repeated name, definitions may refer to each other and come after their use) dictates in every environment and boolean context, and definitions are removed. Where no equivalent query can be written an error is reported; undefined names are left as they are.",
 ["inputs"], "all sheets with up to three definitions (including references, redefinitions, cycles) and uses in all boolean contexts and orders",
 "The test has one definition used in a conjunction.",
 [TRA], [("custom media collection and replacement", TRA)])

prop("C11", "Custom property substitution follows CSS semantics",
 "With the custom property transform on, every var() reference in a parsed declaration anywhere in the sheet, including inside functions and other variables' values, is replaced by the tokens of the last :root definition of that name (the last !important one if there is any) regardless of source order, or by its fallback (itself substituted) if :root never defines it. Only definitions in rules whose sole selector is :root are collected and removed; all other declarations, including custom properties under other selectors, are unchanged, and references that cannot be substituted are left intact and reported.",
 ["inputs"], "all sheets with bounded definitions, redefinitions, chains, cycles, selector shapes, and uses in all value positions",
 "Tests use one definition before one top-level use.",
 [TRA], [("variable collection and transformValues", TRA)])

prop("C12", "calc() reduction preserves the computed value",
 "With calc reduction on, any calc() that is replaced by a single value is replaced by one equal to its mathematical value with the right unit, obeying precedence, left associativity and parentheses; a calc() that cannot be fully reduced (mixed units, non-numeric operands) keeps its meaning and is not an error. Ill-typed expressions (number plus dimension, product of two dimensions, division by zero or by a dimension) are left unreduced and reported.",
 ["inputs"], "all calc expression trees up to a bounded depth over operands of several units and all operators, parenthesised or not",
 "Tests list a dozen two-operand expressions.",
 [TRA, PAR], [("evaluateMathExpression", TRA), ("parseMathSum/Product", PAR)])

prop("C13", "Inlining imports equals textual inclusion",
 "With inline imports, the output of an entry contains, at the place of each resolvable @import, exactly the rules of the imported file (recursively, each occurrence independently, with paths relative to the importing file), and nothing for an import that would close a cycle. Definitions in imported files (custom properties, custom media) take part in the entry's transforms exactly as if they had been written there; imports that cannot be loaded are reported and left in place.",
 ["inputs", "configurations"], "all import graphs over a few files: chains, diamonds, repeated and cyclic imports, missing targets, any import position, several entries",
 "Tests inline a chain of three files and only count outputs.",
 [API, TRA], [("parseFile recursion", API), ("ImportReplacements", TRA)])

prop("C14", "Outputs are exactly the requested files",
 "The result maps absolute paths (cleaned, links not followed) to outputs: one per distinct entry file however it is spelled or repeated, plus, when following imports, one per file reachable through @import, and nothing else. Each file's output is the same as when it is compiled alone with the same options, and does not depend on the other entries.",
 ["inputs", "configurations"], "all import graphs over a few files with all entry subsets and spellings, in all import modes",
 "Tests count outputs for one chain.",
 [API], [("addSource path deduplication", API), ("outputsByIndex", API)])

prop("C15", "Results do not depend on scheduling; no data races",
 "For given files and options, every interleaving of the compiler's concurrent work gives the same output files and the same multiset of reported errors, with no data race, deadlock, lost or duplicated work. The user's Reporter is never entered by two goroutines at once, and nothing is reported or written after Compile returned.",
 ["schedules"], "all interleavings (bounded preemptions) of compilations with several entries, shared, diamond and cyclic imports, and concurrent errors",
 "The tests run one arbitrary schedule of tiny inputs without the race detector.",
 [API], [("mutexes around shared maps", API), ("errgroup joins", API)],
 state=[("sources, sourcesByIndex, astsByIndex, outputsByIndex", "shared file tables", API), ("reporter", "user callback shared by all goroutines", API)])

prop("C16", "Node-style resolution finds exactly the file the rules name",
 "Resolve returns the file chosen by the documented search: relative specifiers against the importing directory, others against BaseURL if set and then node_modules in the importing directory and each ancestor, nearest first; at each candidate the exact file, then the file with .css added, then a directory's package.json style file or, without package.json, its index.css. A nil error always comes with the path of an existing file that is no directory, and if no candidate matches an error is returned; it always terminates.",
 ["inputs", "configurations"], "all small directory trees over the candidate names (absent, file, directory, package.json variants) crossed with specifier forms, base directories and BaseURL settings",
 "Tests cover eleven fixed layouts.",
 ["resolver/node_resolver.go"], [("Resolve / resolve / resolveAsDir / resolveFromNodeModules", "resolver/node_resolver.go")], observe=["NodeResolver.Resolve result"])

prop("C17", "Source maps point at the right source positions",
 "The emitted source map is valid JSON that names the input files, embeds their contents, and has for every rule and at-rule in the output a segment at exactly that rule's position in the generated text pointing to exactly that rule's position in the source it comes from (also when that is an inlined file), in the units the source map format prescribes (zero-based lines, UTF-16 columns). Segments are in order and no segment points outside either text.",
 ["inputs"], "all stylesheets of bounded size over constructs that affect positions: newlines of every kind, multi-line comments, strings and verbatim declarations, multi-byte and astral characters, nesting",
 "No test looks at mappings, only the VLQ codec is tested on four values.",
 [PRI, "internal/printer/sourcemaps.go", "internal/sources/source.go", LEX], [("addMapping", PRI), ("LineAndCol over Lines", "internal/sources/source.go"), ("line table filled by lexer", LEX)])

prop("C18", "VLQ encoding round-trips and is canonical",
 "For every integer of magnitude below 2^30, encoding yields the canonical base64 VLQ string of the source map specification, and decoding it (alone or followed by further data) returns the same integer and consumes exactly the encoded characters.",
 ["inputs"], "all 2^31-1 integers of magnitude below 2^30, and all pairs from a boundary set concatenated",
 "Tests check four values, all non-negative.",
 ["internal/printer/sourcemaps.go"], [("VLQEncode / VLQDecode", "internal/printer/sourcemaps.go")], observe=["encoder and decoder results"])

prop("C19", "Diagnostics carry the right location",
 "Every reported syntax error or transform warning names the file it is in, the line and column of the offending construct, and quotes that line. Text placed before the construct (blank lines, comments, other rules and declarations of any kind, any newline style) shifts the reported line accordingly and leaves the rest of the diagnostic unchanged, also when the construct sits in an imported file. The style of the newlines, in front of, inside and after the construct, makes no difference to any of it.",
 ["inputs"], "every erroneous construct of the corpus crossed with every bounded combination of preceding context and newline style",
 "One lexer error and one parser error are compared as strings.",
 ["internal/logging/logging.go", "internal/sources/source.go", LEX, PAR, TRA], [("LineAndCol", "internal/sources/source.go"), ("LocationErrorf", "internal/logging/logging.go")])

prop("C20", "A faulty file never affects the others",
 "Whatever subset of the project's files is missing, unreadable, a directory or unparsable, and whichever imports fail to resolve, Compile reports each fault, emits no output for a faulty file, and emits for every healthy output file exactly what it would emit otherwise (failed imports stay in place).",
 ["fault_sequences", "configurations"], "all assignments of a fault kind to every file and import of small projects, in all import modes",
 "Tests have one missing entry and one broken import.",
 [API], [("errors are reported and parseFile returns nil", API)])

prop("C21", "The esbuild plugin delivers the compiled CSS or located errors",
 "For every .css file loaded through the plugin, esbuild receives exactly the compiler's output for that file with the plugin's configured transforms and resolver. If compilation reported anything, the build fails with one message per reported problem, each carrying the file, one-based line, zero-based column and line text of the problem when it has a location.",
 ["inputs", "configurations"], "all healthy and faulty sheets of a corpus crossed with plugin options",
 "The plugin has no tests.",
 ["esbuildplugin/plugin.go"], [("OnLoad callback", "esbuildplugin/plugin.go"), ("toEsbuild", "esbuildplugin/plugin.go")], observe=["esbuild build result"])

prop("C22", "Malformed input is reported, never silently altered",
 "For any stylesheet whatsoever, well-formed or not: if Compile with transforms off reports no error for it, the output has the same rules, preludes and declarations, token for token, as the input. Anything the compiler cannot represent is reported as an error instead of being dropped, merged or reinterpreted.",
 ["inputs"], "all token sequences up to a bounded length in selector, media prelude, import, keyframe, at-rule and declaration position and at top level",
 "Tests only feed well-formed input and three malformed ones.",
 [LEX, PAR, SEL, PRI], [("explicit parse errors", PAR), ("verbatim fallback", "parser.parseRaw")])

prop("C23", "Compilations in one process do not influence each other",
 "Whatever compilations came before in the same process or run at the same time, with whichever files, options, errors or working directory, each Compile call gives the outputs, reported errors and writes to standard error that it gives as the only one in a process, reading the files as they are at that time. It changes neither its options nor earlier results and errors, and concurrent calls have no data race.",
 ["histories", "schedules", "configurations"], "all histories of a few compilations that differ in file contents, entries, options and faults, and all bounded interleavings of two concurrent compilations",
 "Every test compiles once in a fixed order, and never at the same time as another.",
 [API, LEX, PAR, TRA, PRI, "internal/logging/logging.go", "resolver/node_resolver.go"],
 [("all state is in the compilation", "newCompilation"), ("default reporter", "internal/logging/logging.go"), ("default resolver", API)],
 state=[("compilation", "tables of one compilation", API)])

prop("C24", "Options that are left out behave as documented",
 "Without a Reporter, every problem that a Reporter would have received is written to standard error completely and exactly once, and nothing else is; with a Reporter nothing is written to the standard streams. Without a Resolver imports resolve as with the node-style resolver, and zero transforms equal the named passthrough options. Compile never changes any file.",
 ["inputs", "configurations"], "all pairs of problem kinds in two files in several relations, all import modes, entries spelled absolutely and relatively, package layouts",
 "No test leaves the reporter out or looks at the standard streams.",
 [API, "internal/logging/logging.go", "transforms/transforms.go"], [("newCompilation defaults", API), ("WriterReporter.AddError", "internal/logging/logging.go")], observe=["standard error and output", "cssc.Compile result"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

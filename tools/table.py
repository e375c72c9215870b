GEN = "seeded generators with size tails; the same seed gives the same cases"
REF = "differential monitor against an independent reference model"

prop("C01", "No query, document or sample makes the library panic or hang",
     "Whatever text is given as a query, whatever bytes are given as a document or as a sample, and whatever message is printed about a query, the call returns a result or an error. It never panics, never runs forever and never exhausts the stack or memory for inputs of ordinary size.",
     ["inputs"], "All byte strings as queries, documents and samples, including truncated, corrupted, deeply nested and very wide ones.",
     "The tests call the library with a few hundred well-formed inputs; a crash needs one particular malformed or extreme input.",
     G + P + J + ["jsonmatcher/json_values.go", "sampler/sampler.go", "parser/fmtmsg/formatter.go", "parser/fmtmsg/truncate.go"],
     ["recovery and error returns in the grammar", "error returns of the document scanner", "bounds kept by the message printer"],
     "crash, hang and memory monitor over hostile inputs", "No panic, hang or crash was observed on the generated inputs; inputs are capped in size.")

prop("C02", "Queries are accepted or rejected, and structured, as the language defines",
     "A query is accepted exactly when it is a sentence of the query language, and the parsed tree has the structure the language gives it: NOT binds tighter than AND, AND tighter than OR, parentheses group, keywords need their separators, and field paths keep their pieces in order. Spacing and redundant parentheses never change the tree, and a rejected query gives a parse error with a message.",
     ["inputs", "programs"], "All query texts: valid ones of any size and layout, and texts a few edits away from valid ones.",
     "The tests parse fewer than a hundred fixed queries and mostly look only at whether parsing succeeded.",
     G + P, ["the grammar rules and their actions", "the tree builder"], REF,
     "Agreement with an independently written parser on generated valid, mutated and random texts and on all short token sequences.")

prop("C03", "Literals keep exactly the value that was written",
     "Every literal of a query, and every quoted piece of a field path, is read as exactly the value its text denotes: integers and floats up to their limits, strings after decoding every escape, regular expressions, addresses and blocks, dates and date-times to the nanosecond and with their offset. A literal that denotes no value of its type (out of range, impossible date, broken escape, invalid expression) makes the query be rejected, never silently altered, and lists keep all their values in order.",
     ["inputs"], "All literals of every type, at and beyond the limits of the type, in every escape and spelling.",
     "The tests use a couple of everyday literals per type and never look at limits or most escapes.",
     G + ["parser/ast/ast.go"], ["literal rules of the grammar", "the conversions from literal text to values"], REF,
     "Agreement with an independent reader of literals on a table of limits and on generated literals.")

prop("C04", "A query matches a document exactly when its Boolean reading is true",
     "A query built of conditions with AND, OR, NOT and parentheses matches a document exactly when the Boolean combination of the outcomes of its conditions on that document is true. This holds for every nesting, every size and whichever fields and types the conditions mix.",
     ["inputs", "programs"], "All query trees and all documents.",
     "The tests try single conditions and a few two-condition queries.",
     J + ["jsonmatcher/expr_eq.go", "jsonmatcher/valueprovider.go"], ["evaluation of the Boolean nodes", "the builder that turns the tree into matching nodes"], REF,
     "Agreement with a reference evaluator on generated pairs, plus complete truth tables of up to six variables for random shapes.")

prop("C05", "Field paths reach exactly the values they name",
     "A path reaches a value exactly when following its pieces as object keys from the root leads there, with arrays on the way entered transparently one level deep, and a field that is an array stands for all scalars in it. A condition on a path is decided by all values it reaches and by nothing else; keys compare exactly, whatever characters they contain and however they are escaped in the document.",
     ["inputs"], "All documents and all paths, including empty, escaped, non-ASCII, bracketed and dotted keys, deep paths, and roots that are arrays or scalars.",
     "The tests follow a handful of paths with plain names in a few fixed documents.",
     ["jsonmatcher/json_values.go", "jsonmatcher/field_expr.go", "jsonmatcher/valueprovider.go"], ["the walk over objects and arrays of the document", "key comparison after decoding"], REF,
     "Agreement with a reference resolver on generated documents; duplicate keys in one object are outside the claim.")

prop("C06", "Numeric conditions compare the numeric reading of values",
     "A numeric term under equality, <, <=, >, >= or a range holds exactly when some number, or some string that reads as a number, reached by the path stands in that relation to the term, with both ends of a range included. The spelling of the number on either side does not matter, and values without a numeric reading never hold.",
     ["inputs"], "All numeric terms, operators and values, in particular at, just below and just above a bound.",
     "The tests try a few small numbers well away from the bounds.",
     ["jsonmatcher/expr_numeric.go", "jsonmatcher/expr_float.go", "jsonmatcher/expr_between.go", "jsonmatcher/json_values.go"], ["the comparators", "the numeric reading of document values"], REF,
     "Agreement with a reference comparison in double precision; integers beyond 2^53 compare as doubles, as in the code.")

prop("C07", "String terms match words, phrases and wildcards as documented",
     "A string term in ASCII holds exactly when it occurs in the text of a reached string or number as a whole (not glued to further letters, digits or underscores at an end of the term that is a word or a wildcard), ignoring case, with a question mark standing for one character, an asterisk for any run, and an escaped one for itself. A term with other characters holds when it occurs anywhere in the text, ignoring case and, without wildcards, also width and diacritics. All other characters of the term stand only for themselves.",
     ["inputs"], "All string terms and texts, in particular punctuation, regular-expression characters, wildcards at the ends and non-ASCII text.",
     "The tests have about a dozen terms and texts of plain words.",
     ["jsonmatcher/str_matchers.go", "jsonmatcher/expr_eq.go", "jsonmatcher/build_matcher.go"], ["translation of a term to a text matcher"], REF,
     "Agreement with a reference matcher that simulates the term directly; loose comparison of non-ASCII terms trusts the text search library.")

prop("C08", "Regular expression terms match as the Go engine says",
     "A regular expression term holds exactly when the expression as written between the slashes (an escaped slash standing for a slash) matches somewhere in the text of a reached string or number, case-sensitively unless the expression says otherwise. Several expressions in a list or query do not influence each other.",
     ["inputs"], "All regular expressions and texts.",
     "The tests try a few expressions on plain words.",
     ["jsonmatcher/expr_regexp.go", "jsonmatcher/build_matcher.go"] + G[:1], ["extraction of the expression from the literal", "matching against the textual reading of values"], REF,
     "Agreement with the standard library's engine on generated expressions and with tables of known outcomes.")

prop("C09", "Timestamp conditions compare instants in time",
     "A timestamp term under equality, <, <=, >, >= or a range holds exactly when some reached value that reads as a date stands for an instant in that relation to the term, whatever format and offset either is written in; values without an offset are UTC whatever the local zone of the process. Equality with a date-only term holds for every instant of that UTC day and no other.",
     ["inputs", "configurations"], "All instants of the supported years, all formats and offsets, all operators, and any local time zone.",
     "The tests compare a few dates of recent years in one format and in the zone of the machine.",
     ["jsonmatcher/expr_datetime.go", "jsonmatcher/expr_between.go", "jsonmatcher/build_matcher.go"], ["reading dates from values", "instant comparison", "day range of date-only terms"], "oracle by construction: instants are known before they are written",
     "Decided by instants known by construction under a non-UTC local zone; formats are those the date library reads unambiguously.")

prop("C10", "Address conditions match contained addresses and overlapping blocks",
     "An address or block term holds exactly when the text of a reached value contains a valid IPv4 address or block that overlaps the term: equal addresses, an address inside a block, or blocks sharing an address. Host bits after the prefix do not matter, and every address in the text counts.",
     ["inputs"], "All addresses, prefix lengths 0 to 32 on both sides, and texts with any number of addresses.",
     "The tests try a handful of private addresses and prefix lengths.",
     ["jsonmatcher/expr_net.go"], ["extraction of addresses from text", "overlap of prefixes"], REF,
     "Agreement with bit arithmetic for all pairs of prefix lengths with each deciding bit flipped, and on generated texts.")

prop("C11", "Presence, null and Boolean conditions are exact",
     "exists holds exactly when the path reaches at least one value of any kind, and null exactly when it reaches at least one value and every reached value is null. A Boolean term holds exactly when a reached scalar is that Boolean; strings, numbers and nulls never count as Booleans.",
     ["inputs"], "All documents in which the field is missing, null, of any type, or reached several times through arrays.",
     "The tests use one small document.",
     ["jsonmatcher/expr_exists.go", "jsonmatcher/expr_null.go", "jsonmatcher/expr_equal_bool.go", "jsonmatcher/field_expr.go"], ["the presence, null and Boolean nodes"], REF,
     "Complete enumeration of triples of leaf kinds through an array, plus generated documents.")

prop("C12", "Equivalent ways of writing a condition match the same documents",
     "On every document, an equality list matches exactly when one of its values would on its own, whatever their number, order and types; the similarity operator matches exactly what equality does; and double negation, the two spellings of NOT, De Morgan's laws and swapping the sides of AND or OR change nothing. On a field with a single value, a range matches exactly what >= AND <= of its ends match.",
     ["inputs", "programs"], "All conditions, lists, queries and documents.",
     "The tests never compare two queries with each other.",
     J + ["jsonmatcher/expr_eq.go", "jsonmatcher/expr_between.go"], ["the builder treats lists, ranges and negation uniformly"], "metamorphic monitor on the real matcher",
     "No model is involved: the code is compared with itself on rewritten queries.")

prop("C13", "Conditions an operator cannot take are rejected at the right place",
     "A query is rejected when an operator is given a type it does not support, the wrong number of values, a range that does not run from a smaller to a larger value of the same kind, repeated values in a list, or both Booleans, and for no other reason once it is well-formed. The error is placed at the offending value, or at the condition when the number of values is wrong, wherever in the query that is.",
     ["inputs", "programs"], "All operators with all combinations of types, counts and orders of values, at any place of any query.",
     "The tests cover about a dozen rejected combinations, each as the whole query.",
     ["parser/validators.go", "parser/parser.go", "parser/ast/ast.go"], ["the operator validator run over the tree"], REF,
     "Agreement with an independent validator on all operator and type combinations, including the position of the complaint.")

prop("C14", "Matching depends on what a document says, not on how it is written",
     "Rewriting a document without changing its meaning (spacing, order of keys, escapes in keys and strings, spelling of numbers) never changes whether a query matches it. Matching never writes to the bytes of the document or to the memory behind them.",
     ["inputs"], "All documents in all equivalent spellings, for all queries.",
     "The tests write every document in one way.",
     ["jsonmatcher/json_values.go", "jsonmatcher/jsonmatcher.go"], ["decoding of keys, strings and numbers while scanning"], "metamorphic monitor with guard bytes around the document",
     "The code is compared with itself over respelled documents; bytes around and inside the buffer are compared before and after.")

prop("C15", "A matcher's answers do not depend on its history",
     "The answer of a matcher on a document is the same as that of a fresh matcher, whatever documents it has seen before, including ones that failed, and whatever other matchers or queries exist. The matcher keeps the text of its query, and neither it nor a parsed tree is affected when the caller reuses or overwrites the buffers it passed in.",
     ["histories"], "All sequences of parsing and matching calls over any number of matchers, documents and reused buffers.",
     "The tests use each matcher once.",
     J + ["jsonmatcher/node_stats.go", "parser/parser.go"], ["matching nodes hold no per-document state"], "history monitor: long-lived objects against fresh ones",
     "Compared with fresh objects and with the reference model along seeded histories of thousands of calls.")

prop("C16", "Parsing, matching and printing are safe to use concurrently",
     "Goroutines that share matchers, formatters, messages and statistics, or that parse at the same time, get exactly the answers they would get one after the other. There is no data race in the library.",
     ["schedules"], "All interleavings of parsing, matching, reading statistics, reading messages and printing.",
     "The tests run everything on one goroutine.",
     J + ["jsonmatcher/node_stats.go", "jsonmatcher/valueprovider.go", "parser/parser.go", "parser/fmtmsg/formatter.go"], ["immutable matching nodes", "atomic counters"], "race detector plus sequential oracle under stress",
     "Seeded concurrent workloads in a build with the race detector; only interleavings that occurred are covered.")

prop("C17", "Match statistics count every evaluation exactly",
     "The statistics of a matcher mirror the structure of its query, and each node reports how often it was evaluated and how often that came out true, under left-to-right evaluation that skips the right side once the left decides. Once no match is running the counts equal what the matched documents imply, however many goroutines matched, and counts never decrease.",
     ["histories", "schedules"], "All queries, all sequences of documents, and all interleavings of matching with reading statistics.",
     "The tests never read statistics.",
     ["jsonmatcher/node_stats.go", "jsonmatcher/nodes.go", "jsonmatcher/field_expr.go", "jsonmatcher/jsonmatcher.go"], ["counters incremented by each evaluation"], "conservation check against a reference evaluator, sequential and concurrent under the race detector",
     "Counts compared exactly at quiescence; snapshots taken while matching are checked for monotonicity.",
     state=[("per-node counters", "evaluations and successes so far")])

prop("C18", "Positions of tree nodes and errors point at their text",
     "Every value, condition and error reports the line, column, byte offset and length of exactly the text it comes from, also with multibyte characters, line breaks and any spacing. The position of a syntax error lies within the query or at its end.",
     ["inputs", "programs"], "All query layouts, in particular multi-line and multibyte ones.",
     "The tests check the offset of a few errors in one-line ASCII queries.",
     G + ["parser/ast/ast.go", "parser/parser.go", "parser/validators.go"], ["positions attached by the grammar actions"], REF,
     "Positions compared with those of an independent parser for every value and condition of generated queries.")

prop("C19", "Visitors see every node once and decide the outcome of a parse",
     "Each registered visitor is called for every node of an accepted tree exactly once, parents before children and left before right, in the order of registration; skipping leaves out exactly the subtree, and skipping everything ends only that visitor. The first error a visitor returns or records fails the parse with that message and position, later visitors are then not run, and recorded hints and warnings are kept in order and never fail it.",
     ["inputs", "programs", "configurations"], "All trees, all combinations of visitors, and all places at which they skip, record or fail.",
     "The tests register at most one trivial visitor.",
     ["parser/visitors.go", "parser/parser.go", "parser/message.go"], ["the tree walk", "the message tape"], "trace checker over visitor call histories",
     "Recorded call traces are compared with those a reference walk predicts.")

prop("C20", "Advisories point at the terms they are about and change nothing",
     "A matcher reports its hints and warnings in the order of the terms, each placed at exactly the term that causes it, and only for terms for which the advice applies: needless similarity operator, exact date-times, and regular expressions that are redundant, needlessly grouped, plain alternations or unlikely to ignore case as intended. Advisories never change which queries are accepted or which documents match.",
     ["inputs", "programs"], "All accepted queries.",
     "The tests never look at messages.",
     ["jsonmatcher/query_messages.go", "jsonmatcher/jsonmatcher.go", "parser/visitors.go"], ["the advisory visitor run while building a matcher"], REF,
     "Kind, position and order of advisories compared with an independent statement of when each applies.")

prop("C21", "Printed messages mark exactly the text they are about",
     "A printed message shows its kind and text, and when it has a position, the query with markers under (or a highlight around) exactly the characters it is about, also for multibyte queries. With a width limit the shown part stays within it, is cut only with an ellipsis on the cut side, and still contains the start of the marked text.",
     ["inputs", "configurations"], "All queries, positions, widths and formatters.",
     "The formatter has no tests.",
     ["parser/fmtmsg/formatter.go", "parser/fmtmsg/truncate.go", "parser/fmtmsg/functions.go", "parser/message.go"], ["the window computed around the marked text", "the marker line"], "invariant monitor over printed output",
     "The shown window is located in the query and the marks are compared with the position; the choice of window is free within the stated limits.")

prop("C22", "The cost of parsing and matching stays in proportion to the input",
     "Parsing a query takes work and memory in proportion to its length, whatever its nesting, and matching takes work in proportion to the sizes of query and document. Doubling the input never multiplies the cost beyond a small factor.",
     ["inputs"], "All families of growing queries and documents: nesting, chains, lists, long literals, wide and deep documents.",
     "The tests use inputs of a few dozen bytes, where any cost is invisible.",
     G[:1] + ["parser/parser.go"] + J, ["memoization in the parser", "single-pass document scanning"], "allocation and work counting on doubling inputs",
     "Decided by counted allocations and calibrated work, not by the clock, on families of inputs doubled several times. One family is a known finding.")

prop("C23", "The sampler reports exactly the field paths of the documents it saw",
     "After sampling documents the reported keys are exactly the paths that lead to scalars within the depth limit, with arrays entered transparently and arrays directly inside arrays left out, each once. Keys that are not plain names are quoted so that different paths never become the same key.",
     ["inputs", "configurations"], "All documents and depth limits.",
     "The tests sample four fixed documents with plain names.",
     ["sampler/sampler.go"], ["the recursive walk with a shared path buffer"], REF,
     "Reported keys compared with those of a reference walk over generated documents.")

prop("C24", "Sampling histories count documents and thresholds exactly",
     "Through any sequence of samples, failures and resets, the number of documents scanned is the number sampled successfully since the last reset, and the keys at a threshold are exactly those present in at least that percentage of them. A failed sample leaves everything as it was, a reset leaves a sampler equal to a new one, and each document counts a key once however often it occurs in it.",
     ["histories"], "All sequences of successful samples, failing samples, resets and queries on any number of samplers.",
     "The tests sample a fixed cycle of three documents and ask once.",
     ["sampler/sampler.go"], ["per-document set of found keys merged on success"], "history monitor against a reference sampler",
     "After every step the whole observable state is compared with the model's.",
     state=[("key counts", "number of documents with the key since the last reset"), ("documents scanned", "successful samples since the last reset")])

prop("C25", "Every sampled key is a field path that finds the sampled documents",
     "Every key the sampler reports can be used as it is as the field of a query, and asking whether that field exists matches every sampled document that had the key and no sampled document that lacks the path. Asking for the value found there matches the document it came from.",
     ["inputs"], "All documents, including hostile keys.",
     "Sampler and matcher are never tested together.",
     ["sampler/sampler.go", "jsonmatcher/json_values.go", "internal/grammar/parser_gen.go"], ["quoting of sampled keys", "field syntax of the grammar"], "end-to-end monitor of sampler, parser and matcher",
     "The code is compared with itself across components and with the reference resolver.")

prop("C26", "Query graphs show the query they are drawn from",
     "The graph of a query has exactly one node for each operator and condition of the query and edges exactly from each operator to its operands, and shows every field, operator and value as in the query, whatever characters they contain, under the query itself as the title. Every accepted query gives a graph in every output format, and drawing twice gives the same graph.",
     ["inputs", "programs"], "All accepted queries, including values with markup, quotes, backslashes and non-ASCII text.",
     "The graph package has no tests.",
     ["aqlgraph/graph.go", "aqlgraph/node_html.go"], ["construction of the graph from the tree", "escaping in labels"], "isomorphism check of the emitted graph against the tree",
     "The emitted graph text is read back and compared with the tree node by node.")

prop("C27", "Parsing from a reader does not depend on how the text arrives",
     "Parsing from a reader gives the same tree or the same error as parsing the whole text, however the reader splits it into pieces, and with diagnostics switched on. When reading fails, parsing fails with that reason whatever was read before, and no query text from a failed read is ever treated as complete.",
     ["inputs", "fault_sequences"], "All queries, all ways of splitting them, and read failures at every position.",
     "The tests always parse whole strings.",
     ["parser/parser.go", "internal/grammar/parser_gen.go"], ["the reader is read to its end before parsing"], "fault injection at every byte offset", "Every offset of each generated query is used as a failure point, in several ways of failing.", level="fault_enumeration")

prop("C28", "The test command agrees with the library",
     "The command for trying a query on a document prints the same result, statistics and advisories as the library gives for the same query and document, whether the query is an argument or in a file. It fails with a message, a nonzero status and no result exactly when the query, the document or an argument cannot be used, and it changes no files.",
     ["inputs", "configurations"], "All queries, documents and argument lists given to the command.",
     "The command has no tests.",
     ["cmd/aqltest/main.go"], ["command-line handling around the matcher"], "end-to-end differential of the built command",
     "The built command is run as a process in a scratch directory. Queries of more than five thousand nested levels are a known finding.")

prop("C29", "The playground module agrees with the parser",
     "For every query typed into the playground the module reports a tree exactly when the parser accepts the query and otherwise the parser's error, with advisories, and the ranges it reports cover exactly the characters concerned as a browser counts them. It stays usable for any number of queries.",
     ["inputs", "histories"], "All sequences of queries.",
     "The module is built for another platform and has no tests.",
     ["wasm/aqlparse/main.go", "wasm/aqlparse/warnings.go"], ["conversion of positions and results for the browser"], "end-to-end differential of the built module in a JavaScript host",
     "The built module runs in a JavaScript host with a recording page. Nesting that exhausts the stack of the host is a known finding.")

prop("C30", "The playground server serves its files and nothing else",
     "The playground server answers requests for its own page, script, style and module files with exactly their current contents, and every other path, however written, with an error and never with the contents of another file. It keeps serving after any request.",
     ["inputs", "histories"], "All request paths and sequences of requests.",
     "The server has no tests.",
     ["wasm/aqlparse/server/main.go"], ["the fixed list of files"], "black-box monitor of the running server",
     "The built server runs on loopback over a scratch directory with secret files around it.")

prop("C31", "Long use keeps no memory and leaves nothing running",
     "However many queries are parsed, documents matched, messages printed and samples taken, memory retained afterwards depends only on the objects still held, and nothing keeps running or holds on to documents that were only passed in. Repeating the same calls makes nothing grow.",
     ["histories"], "All long sequences of calls.",
     "The tests stop after a few hundred calls and never look at memory.",
     J + ["sampler/sampler.go", "parser/parser.go"], ["no global state"], "retention monitor with finalizers and heap accounting",
     "Retained heap and goroutines are measured after forced collections along repeated workloads.")

prop("C32", "The graph command draws the given query or fails cleanly",
     "The command for drawing queries writes the graph of the given query in the format its output name asks for, and exits with success only if all of it was written. A query that is rejected, a format that is not known or an output that cannot be written gives a message and a nonzero status, and files other than the output are never touched.",
     ["inputs", "configurations", "fault_sequences"], "All queries and output names, and outputs that cannot be written.",
     "The command has no tests.",
     ["cmd/aqlgraph/main.go", "aqlgraph/graph.go"], ["format selection by extension", "error exits"], "end-to-end monitor of the built command",
     "The built command is run as a process in a scratch directory.")

prop("C33", "Exactly the valid JSON documents can be matched",
     "Matching succeeds for every single valid JSON document and fails with an error, the result false and no change to the statistics for everything else, whatever the query and wherever in the document the mistake is. A document that failed does not influence the documents matched after it.",
     ["inputs", "histories"], "All byte sequences passed as documents, with all queries.",
     "The tests use a handful of well-formed documents.",
     J, ["validation before matching"], "differential against an independent recognizer of JSON",
     "Every document, valid or corrupted at any place, is judged by an independent recognizer.")

prop("C34", "A printed tree shows exactly what was parsed",
     "The printed form of a parsed query shows its tree and nothing else: AND, OR and NOT before their operands in order, and for each condition its operator, its field path and all its values in order, with strings and unusual names quoted, a single address as a block of one, fractions in plain decimal and all else as written. The short form of a condition names the same field, operator and values, and printing changes nothing.",
     ["inputs", "programs"], "All queries, and trees built by hand from the same values.",
     "The tests compare a few dozen printed trees of small queries with everyday values.",
     ["parser/ast/ast.go"], ["the printing methods of nodes and values"], REF,
     "Agreement with a printer that works on the tree of an independent parser.")

prop("C35", "Formatted messages show query and message as text, never as markup",
     "Whatever characters a query or message contains, a formatter made for HTML shows them as text in every place of its template, and a formatter made for plain text shows them unchanged. A template that is not valid is refused when the formatter is made, one that fails while printing says so in its output, and the padding, repetition and upper-casing a template can ask for give exactly that.",
     ["inputs", "configurations"], "All templates, queries, messages and positions, in both modes.",
     "The formatter has no tests.",
     ["parser/fmtmsg/formatter.go", "parser/fmtmsg/functions.go"], ["the choice of template engine", "the pieces of text a template can use"], "invariant monitor over printed output",
     "Printed text is taken apart by the form of its template and decoded strictly, for text, attribute and script contexts.")

prop("C36", "The same call gives the same result in every process and environment",
     "Parsing the same query gives the same tree or the same error, with the same message and position, and matching and sampling the same documents gives the same results, advisories and statistics, every time and in every process. Date and time of day, time zone, language settings and other environment variables, working directory, number of processors, garbage collection, order of the calls and debugging output make no difference.",
     ["configurations", "histories", "schedules"], "All queries and documents, and all environments and orders in which they are processed.",
     "The tests run once, in one environment and one order.",
     P + J + ["sampler/sampler.go"], ["no dependence on map order, global state or the environment"], "differential between processes in different environments",
     "Everything a client can observe is compared between kinds of processes that differ in environment, clock, order and load.")

prop("C37", "The playground page shows what the module reports, as text",
     "After every change of the input the page shows the tree of a query that has no messages, and otherwise every message in order with its kind, and marks exactly the reported ranges; an emptied input clears everything. Text of the query and of messages is never taken for markup, and what is shown depends only on the current input.",
     ["inputs", "histories"], "All sequences of inputs, from the one that is there when the page loads.",
     "The page has no tests.",
     ["wasm/aqlparse/index.html"], ["the script that shows results"], "end-to-end monitor of the page over a model of a browser",
     "The page's own scripts and the built module run over a model of a browser and of the two libraries the page loads; styles are not modelled.")

prop("C38", "The shipped parser is the one its grammar defines",
     "Generating the parser anew from the grammar file of the repository gives a parser that accepts the same queries as the shipped one, with the same trees, values and positions, and that rejects the others with the same errors.",
     ["programs", "inputs"], "All queries, for the grammar and the generated parser of the current tree.",
     "No test looks at the grammar file.",
     G, ["the generated code and its source are kept in step by hand"], "translation validation by differential runs of the regenerated parser",
     "Behaviour of the shipped and the regenerated parser is compared on generated queries; the generator itself is trusted.", level="translation_validation")

prop("C39", "Errors, messages and statistics say the same in every form",
     "The text of an error or message consists of its position (line, column and offset, left out for a message without one), its kind and its message, and its JSON form holds the same position, message and kind under their documented names. Statistics written as JSON hold the same names, counts and nesting, and a message or error made by a visitor has exactly the position and text it was made with.",
     ["inputs"], "All rejected queries, all messages visitors record with and without a position, and all statistics.",
     "The tests look at error texts of a few queries and never at JSON.",
     ["parser/message.go", "parser/visitors.go", "parser/parser.go", "jsonmatcher/node_stats.go"] + G, ["the textual and JSON forms"], "round-trip monitor over texts and JSON",
     "Forms are compared with ones written independently from the values and read back.")

prop("C40", "What else a document holds, and in which order, does not matter",
     "Whether a query matches, and how each of its conditions comes out, depends only on the values its paths lead to. Adding or removing members that no path of the query mentions, reordering the members of objects or the elements of arrays, and repeating elements of arrays never change the result or the statistics of the match.",
     ["inputs"], "All queries and documents, and all such changes to a document.",
     "The tests match each query against one or two fixed documents and never vary what they do not look at.",
     J + ["jsonmatcher/json_values.go"], ["values are collected for a path as a set", "a condition holds when any value meets it"], "metamorphic monitor over variants of documents",
     "The library is compared with itself on generated variants, so no model can be wrong.")

prop("C41", "What a call returned belongs to its caller",
     "Trees, errors, messages, statistics and lists of keys that a call returned may be changed by their owner without any effect on other or later calls, for the same or another query, document, matcher or sampler. Later calls never change what was returned before: statistics and keys stay as they were when taken. A visitor that changes the tree it is shown changes no other tree.",
     ["histories", "inputs"], "All sequences of calls, and all changes of what they returned through exported fields, elements and appending.",
     "The tests never change a result nor look at one again after another call.",
     P + J + ["jsonmatcher/node_stats.go", "parser/message.go", "sampler/sampler.go"], ["every call makes its results anew", "statistics are copied when taken"], "history monitor with results kept and written over",
     "Results are written over by reflection; the message list of one and the same matcher and compiled regular expressions are not claimed.")

prop("C42", "A value alone and in an array count alike; more values never undo a match",
     "Putting a value of a document that is not itself an array into an array of its own changes no answer of a query without tests for null. Adding elements or members to a document, which adds to the values its paths lead to, never turns a match of a query without negations and tests for null into a non-match. An array of documents matches a single such condition exactly when one of them does.",
     ["inputs"], "All queries and documents, and all such changes to a document.",
     "The tests match a few fixed documents, mostly without arrays.",
     J + ["jsonmatcher/json_values.go"], ["arrays are searched through", "a condition holds when any value meets it"], "metamorphic monitor over variants of documents",
     "The library is compared with itself on generated variants, so no model can be wrong.")

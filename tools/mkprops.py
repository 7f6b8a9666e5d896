import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=[],obs=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
FM="fastMatcher.go";BT="bintree.go"
p("C01","Concurrent matchers that share a compiled filter do not affect each other",
"A filter is compiled once and any number of goroutines may then match documents against it at the same time, each with its own matcher (and compile other filters or remove members from documents meanwhile). Every call completes with the verdict, status, per-expression results and error outcome that the same call gives when it runs alone, however the calls interleave and whether or not calls of other goroutines fail. There are no data races between them.",
["schedules","inputs","fault_sequences"],"every interleaving of 2-4 callers that share compiled filters, expressions, source documents and member lists; every document, also torn and corrupt ones; every point at which one of the callers stalls",
"The existing tests are single-threaded throughout; no test runs two matchers at the same time, so state shared by accident through package variables or the compiled definition is never observed.",
[FM,"fastMatcherDef.go","fastval.go","fastval_date.go","pcre_wrapper_interface.go","slowmatcher.go","jsonComposer.go","transform.go"],
[("mutable state lives in the matcher only: slots, tree state, tokenizer",FM+" FastMatcher/NewFastMatcher"),("values convert to JSON strings in a buffer of their own","fastval.go toJsonStringInternal"),("the compiled definition is only read while matching","fastMatcherDef.go MatchDef")],
[("compiled definition","shared by all callers, must be read-only","fastMatcherDef.go MatchDef"),("package variables","regular expressions and tables, must be read-only","simpleParser.go, fastval_date.go, constants.go")],
["FastMatcher.Match/MatchWithStatus/ExpressionMatched","SlowMatcher.Match","MatchAndRemoveItemsFromJsonObject"])
p("C02","A reused matcher answers like a fresh one",
"After any history of calls on a matcher (matches that succeed, match early, fail on a torn or corrupt document, or are cut off by a fault while reading the document), a reset followed by a match gives the same verdict, status, error outcome and per-expression results as a newly created matcher for the same filter. Nothing of an earlier document is ever visible in a later result.",
["histories","fault_sequences","inputs"],"every sequence of matches and resets on one matcher, every document in it, every position at which one of its documents ends, is corrupt or becomes unreadable",
"Tests match a handful of well-formed documents per matcher and never reuse one after an error; leftovers show only for particular pairs of an aborted and a later document.",
[FM,BT,"slowmatcher.go","jsontokenizer.go","filterExprParser.go"],
[("reset clears slots, tree state and collate status",FM+" Reset"),("tree state and stall index are cleared",BT+" Reset"),("the tokenizer starts afresh with every document","jsontokenizer.go Reset"),("variables and results are cleared","slowmatcher.go Reset")],
[("slots","where stored values of the current document are",FM+" slots"),("tree state","which parts of the expression are resolved",BT+" binTreeState"),("collate status","whether an invalid comparison was seen",FM+" collateUsed")],
["Matcher.Reset","Matcher.Match","MatchWithStatus","ExpressionMatched"])
p("C03","A corrupt document is contained: an error or a verdict, never a crash or a hang",
"Whatever bytes a document consists of (torn, overwritten, spliced from other documents, or arbitrary), matching it against any compiled filter returns a verdict or an error in a number of steps bounded by its size. It never panics, never reads outside of the document, and never loops forever.",
["inputs","fault_sequences"],"every sequence of corruptions applied to a stored document, every filter; bit flips, overwritten, dropped, duplicated and spliced blocks, torn ends, and arbitrary bytes",
"Tests feed well-formed documents, plus two or three malformed ones to the tokenizer; the matcher runs as a state machine over tokens and each state has to cope with each unexpected token.",
[FM,"jsontokenizer.go","fastlitparse.go","fastlitescape.go","fastval.go","slowmatcher.go"],
[("unexpected tokens become errors",FM+" unexpectedTokenError, matchExec, matchObjectOrArray, matchLoop"),("tokens at the end of the input are detected","jsontokenizer.go Step"),("escape decoding is bounded by the literal","fastlitescape.go")],
[],["Match","MatchWithStatus"])
p("C04","A torn document never produces a wrong verdict",
"When a well-formed object or array document is cut short at any byte after its first, matching what is left either returns an error or returns the verdict of the whole document. A value, a member or an array element that the cut removed or shortened is never silently treated as absent or as complete. The same holds when zeros are read in the place of the lost tail (unless it begins inside a number), and when one value or name was damaged such that no JSON token begins there.",
["crash_points","inputs"],"every strict, non-empty prefix of every well-formed object or array document, every filter",
"No test matches a truncated document; each cut position meets a different state of the single pass, most of them unreachable with whole documents.",
[FM,"jsontokenizer.go"],
[("errors of nested values are passed up",FM+" matchExec/matchObjectOrArray/matchLoop"),("the end of the input inside a container is an error",FM+" leaveValue, unexpectedTokenError"),("a number that ends with the input is not trusted",FM+" matchExec")],
[],["Match"])
p("C05","Caller-owned input buffers are never modified and never kept",
"Matching, compiling and removing members only read the buffers and lists they are given: no byte of a document, of a filter text or of a list of names is ever written. Once a call has returned, the caller may overwrite or unmap those buffers without changing any result of a matcher, a compiled filter or a later call (the values that a removal hands back are parts of its source by contract).",
["histories","inputs","fault_sequences"],"every document, filter and list of names; documents in write-protected memory; every sequence of calls in which buffers are scribbled over or unmapped after a call returned",
"Tests use string literals and never look at the input buffer again; writing into it or keeping a reference is invisible until a buffer is reused.",
[FM,"fastlitparse.go","fastlitescape.go","fastval.go","jsonComposer.go","expression_json.go"],
[("escape sequences are decoded into a buffer of the parser","fastlitparse.go, fastlitescape.go"),("the tokenizer only slices the document","jsontokenizer.go"),("the composer writes to the destination only","jsonComposer.go")],
[],["Match","ParseJsonExpression","MatchAndRemoveItemsFromJsonObject"])
p("C06","Removing members conserves the rest of the document",
"Removing named members from a well-formed JSON object yields a well-formed document that holds exactly the members which were not named, at every depth, each with its value, and in their order; every removed value is handed back complete, and the reported length, count and emptiness are right. A source that was cut short, or whose tail reads as zeros, is always reported as an error and never taken for a success; one that is corrupt in other ways gives an error or output, never a panic or a hang. Concurrent removals from the same source do not influence each other.",
["inputs","schedules","fault_sequences"],"every object and list of names, with and without destination and result buffers of the caller; every tear and corruption of the source; every interleaving of concurrent removals",
"Tests remove a few names from a few documents one at a time; where the removed member stands, what precedes it and how it nests decide which separators are written.",
["jsonComposer.go","jsontokenizer.go"],
[("separators are dropped together with the member they belong to","jsonComposer.go Write/MatchAndRemoveItemsFromJsonObject"),("depth accounting rejects unbalanced sources","jsonComposer.go")],
[],["MatchAndRemoveItemsFromJsonObject"])
p("C07","A destination that is too small is an error, never a torn or stray write",
"Removing members into a destination buffer of any size either succeeds with exactly the result a large destination gets or returns an error. It never panics, never reports success for a truncated result, and never writes a byte behind the end of the destination, even if there is spare capacity.",
["fault_sequences","inputs"],"every destination length from zero to beyond the size of the result, with and without spare capacity, every object and list of names",
"The one test about destination size tries a single length; each other length makes a different write of the composition the one that does not fit.",
["jsonComposer.go"],
[("every write is checked against the space that is left","jsonComposer.go Write")],
[],["MatchAndRemoveItemsFromJsonObject"])
p("C08","The verdict does not depend on the order in which members arrive",
"Two documents that differ only in the order of the members of their objects and in insignificant white space give the same verdict and the same per-expression results for every filter (an object or array that a filter compares as a whole counts by its text, so that stays the same). In particular comparisons between fields and loops over fields that need values from several places work whichever of them arrives first.",
["inputs","schedules"],"every order of arrival of the members of every object in a document (names unique within an object), every placement of white space, every filter",
"Tests fix one member order per document; the single pass evaluates, stores and defers operations differently for every order.",
[FM,BT,"transform.go"],
[("operations that need several values wait until all were seen",FM+" matchAfter; transform.go pickBaseNode"),("values are remembered while the pass goes on",FM+" slots"),("results propagate in any order",BT+" MarkNode/checkNode")],
[("slots","values remembered in this pass",FM)],["Match","ExpressionMatched"])
p("C09","One pass over the document gives the verdict of the whole expression",
"The verdict of a compound filter equals the logical combination (and, or, not, any / every / any-and-every over arrays, constants) of the verdicts of its parts, with a missing value making a comparison false (not-equals and not-exists are negations), in whatever order the pass gets to know them and wherever it stops early. Expressions matched together in one pass each get the result they get on their own. Comparing two ordinary numbers, strings or booleans has its ordinary outcome wherever in the document they come from, a filter of the grammar always compiles, also when it is joined to others by AND or OR, and a compiled filter gives every well-formed document a verdict, not an error.",
["inputs","programs","schedules"],"every expression built from leaf tests, logical operators, constants, nested loops and field references into outer loops; every document; every set of expressions matched together; every order of arrival",
"Tests sample a few shapes; early exit, deferred operations, loop bodies and shared nodes interact, and only particular combinations of shape and document expose a wrong resolution.",
[FM,BT,"transform.go","expression_utils.go"],
[("results resolve upwards, unresolved leaves become false at the end",BT+" MarkNode/checkNode/Resolve"),("each loop iteration starts from a reset subtree",FM+" matchLoop"),("shared fields share nodes of the compiled tree","transform.go getExecNode")],
[("tree state","three-valued state of each part",BT)],["Match","ExpressionMatched"])
p("C10","Compiling is repeatable and isolated",
"Compiling a filter gives a matcher with the same behaviour every time: again from the same parsed expression, in a used compiler object, next to concurrent compilations of other filters, and after a restart from the stored filter text. Compiling changes neither the expression nor any filter that was compiled before.",
["histories","schedules","crash_points"],"every sequence of compilations with fresh and reused compilers, every interleaving with other compilations and with matches on filters compiled before, a restart at every point after which only the texts of the filters are left",
"Tests compile each filter once, on one goroutine, with a new compiler; leftovers from an earlier compilation and shared tables show only in histories.",
["transform.go","expression_json.go","filterExprParser.go","expression_utils.go","simpleParser.go"],
[("a compilation starts from fresh state","transform.go Transform"),("parsers are built per filter","filterExprParser.go NewFilterExpressionParser")],
[("compiler state","slots, buckets, context stack","transform.go Transformer")],["Transformer.Transform","GetFilterExpressionMatcher","ParseJsonExpression","ParseSimpleExpression"])
p("C11","Results do not depend on the host: clock, time zone, map order, randomness",
"For the same filter text and the same document, compilation succeeds or fails alike and the verdict, status and per-expression results are the same on every host and at every time. Neither the clock and its jumps, the local time zone, the environment, the number of processors, iteration order of maps nor randomness has any influence.",
["configurations","inputs","schedules"],"every clock value, clock jump, time zone, map iteration order, random seed and processor count; every filter, in particular those with dates, several expressions and many fields; every document",
"Tests run on one host in one time zone; map iteration order varies by itself but a test samples a handful of orders and cannot replay a failing one.",
["fastval_date.go","fastval.go","transform.go","slowmatcher.go","filterExprParser.go",FM],
[("dates are parsed with an explicit zone","fastval_date.go"),("object members are visited in a fixed order","slowmatcher.go matchAnyInExpr"),("comparison of objects does not depend on map order","fastval.go")],
[],["Match","GetFilterExpressionMatcher","Transform"])
p("C12","Every call makes progress on its own",
"Every match, reset, compilation and removal ends after a number of steps that its own input bounds, and doubling a document does not more than about double the steps a filter takes on it, unless it has nested loops or a loop which refers to values outside of it. No call ever waits for another caller: however long other callers are stalled in the middle of theirs, it completes.",
["schedules","fault_sequences","inputs"],"every interleaving, every caller stalled at every point for as long as the others run, every filter and every document size",
"Tests never stop a call half way, and a unit test can only show that a call ended, not that its end does not depend on someone else.",
[FM,"fastMatcherDef.go","transform.go","jsonComposer.go","jsontokenizer.go"],
[("no locks and no shared mutable state on the match path",FM),("the pass visits each byte a bounded number of times",FM+" matchExec; jsontokenizer.go Step")],
[],["Match","Reset","Transform","GetFilterExpressionMatcher","MatchAndRemoveItemsFromJsonObject"])
p("C13","A torn or corrupt filter text is rejected or accepted, never a crash or a hang",
"Whatever a stored filter text (in the N1QL-like or the legacy notation) or JSON-encoded expression consists of after it was torn or corrupted, parsing it returns an error or a filter, after a bounded number of steps. Parsing never panics, and a matcher that was obtained from a N1QL-like text can match documents without a panic.",
["inputs","fault_sequences"],"every tear, bit flip, overwrite, duplication and splice of a stored filter text in any of its three notations",
"Tests parse some forty hand-written texts, all but a few well-formed; the legacy parser rewrites its token list while it scans and the JSON notation is decoded from untyped values.",
["filterExprParser.go","expression_json.go","simpleParser.go","transform.go"],
[("arity and type of each JSON expression are checked","expression_json.go parseJsonSubexpr"),("paths, functions and regular expressions are validated","filterExprParser.go"),("token list rewriting terminates","simpleParser.go")],
[],["GetFilterExpressionMatcher","ParseJsonExpression","ParseSimpleExpression"])
p("C14","A long life does not wear a matcher out",
"However many documents are matched, filters compiled and members removed, and however many of these calls fail, what the matchers, the compiled filters, a reused compiler object and the package keep in memory is bounded by the filters and the documents at hand rather than by the number of calls, and the same call takes no more steps than it took at first.",
["histories","fault_sequences"],"every history of calls, of any length, with values that never repeat and calls that fail in between",
"Tests use a matcher for a handful of documents and never look at what it keeps; a leak or a list which grows with every call only shows in a long-running process.",
[FM,"bintree.go","transform.go","filterExprParser.go","jsonComposer.go"],
[("a matcher has a fixed number of slots and buckets which Reset clears in place",FM+" Reset; bintree.go"),("the compiler object starts anew for every Transform","transform.go"),("the package has no caches","constants.go")],
[],["Match","Reset","Transform","GetFilterExpressionMatcher","MatchAndRemoveItemsFromJsonObject"])
na=[("N01","Values compare and collate correctly","Comparing two JSON values of the same or of different types gives the documented result: numbers numerically, strings by content whatever their escapes, dates by instant, and mismatched types by collation order with the collate status reported.",["fastval.go"]),
("N02","Filter texts mean what the filter grammar says","A filter text is parsed with the documented operator precedence, field path and escaping rules, and exactly the texts of the grammar are accepted.",["filterExprParser.go","simpleParser.go"]),
("N03","Arithmetic and functions are exact","Arithmetic operators and built-in functions give the mathematically right result over the whole range of integers and floats.",["fastval_math.go"]),
("N04","String escapes do not matter to equality","Two string literals that denote the same text compare equal however they are escaped.",["fastlitescape.go","fastval.go"]),
("N05","Matching does not allocate","Matching a document against a compiled filter allocates no memory.",[FM,"alloctrack.go"])]
for id,t,s,f in na:
    p(id,t,s,["inputs"],"every input","Tests sample some inputs only.",f,[],[],[])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,x['id']

import json
DS="deterministic simulation with fault injection: "
common=(" Trusts the instrumenter (a source-to-source copy of the working tree, statement granularity), the simulator runtime and, "
 "for inputs, the generators; a clean run is evidence from sampling, not a proof.")
C=[]
def c(id,tech,level,note):
    C.append(dict(property=id,quick_cmd="./check.sh %s quick"%id,thorough_cmd="./check.sh %s thorough"%id,technique=DS+tech,level=level,level_note=note+common))
c("C01","seeded schedules of 2-4 callers over shared filters; refinement against each caller alone, plus the race detector on the serialised execution","exploration",
 "Every outcome of every interleaved call equals that of the same call alone; data races are found by happens-before analysis of runs whose only synchronisation is the program's own.")
c("C02","histories of matches with torn, corrupt and unreadable documents on one matcher; refinement against a fresh matcher","exploration",
 "Each match of a reused matcher is compared in full with a new matcher.")
c("C03","storage faults on documents in page-protected memory, step budgets for hangs","exploration",
 "Panics, reads beyond the document (guard page), and exhausted step budgets are violations.")
c("C04","every tear position of each sampled document, compared with the verdict of the whole","fault_enumeration",
 "For each sampled filter and document all prefixes are tried; documents and filters are sampled.")
c("C05","documents in write-protected memory, buffers overwritten and unmapped after calls, compared with untouched buffers","exploration",
 "Any write to an input faults at once; anything kept shows as a changed later result or a fault.")
c("C06","seeded removals, tears and corruptions of the source and schedules of concurrent removals; reference model of removal","exploration",
 "Output, removed values, length, count and emptiness are compared with an independent model over a strict JSON reader.")
c("C07","every destination size for each sampled removal, guard page and canaries behind the destination","fault_enumeration",
 "For each sampled removal all destination lengths up to the full result are tried with and without spare capacity.")
c("C08","reordered arrival of members and white space, compared run by run","exploration",
 "Verdict and per-expression results are compared across arrival orders of the same document.")
c("C09","arrival orders of documents against a reference model of the filter's logic, loops and missing values","exploration",
 "The model takes the outcome of a single comparison from the code (values are out of scope) and combines them by itself.")
c("C10","histories, interleavings and process restarts of compilations; behaviour compared with a first compilation","exploration",
 "Behaviour means verdict, status and per-expression results over all documents of the run.")
c("C11","simulated hosts: clock, clock jumps, zone, environment, processors, map order, randomness; outcomes compared across hosts","exploration",
 "All uses of these sources in the code go through the simulator.")
c("C12","stalled callers, step budgets and step counts of growing documents","exploration",
 "Progress is measured in executed statements, not in time.")
c("C13","storage faults on filter texts and JSON expressions, step budgets for hangs","exploration",
 "Panics and exhausted step budgets while parsing, and panics while matching with what was accepted from a N1QL-like text.")
c("C14","long histories of calls with new values each time, faults in between; reachable memory and step counts compared along the history","exploration",
 "Memory is what can be reached from matchers, compiled filters, the compiler object and the package variables, by walking their objects; memory held by closures, by goroutines or outside of the package is not seen.")
pure="It is a pure function of its input: no schedule, clock, fault, history or interleaving is involved, so a simulator has nothing to decide; generating inputs for it would be property-based testing. "
NA=[("N01",pure+"(The checks of C08 and C09 only rely on a comparison giving the same answer every time.)"),
("N02",pure+"(C10, C11 and C13 decide that parsing is repeatable and contained, not that the grammar is right.)"),
("N03",pure),("N04",pure),
("N05","Allocation is a performance property of the compiled program; the instrumented copy that the simulator runs has different inlining and escape analysis, so it cannot decide it.")]
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=C,not_applicable=[dict(property=a,reason=b.strip()) for a,b in NA],
 notes="No hooks in /repo: check.sh instruments a scratch copy of the working tree (sim/gen) and builds it with the simulator. replay.sh FILE executes a replay file."),open('/verif/MANIFEST.json','w'),indent=1)

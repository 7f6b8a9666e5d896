//go:build go1.24

package main

import (
	"fmt"
	"strings"

	"github.com/couchbaselabs/gojsonsm/simrt"
)

type prop struct {
	id   string
	gen  func(r *simrt.Rng, run uint64) *Plan
	exec func(p *Plan) *Violation
	race bool // some of the workers run the build with the race detector
	rule string
}

var props = []*prop{
	{id: "C01", gen: genC01, exec: execC01, race: true,
		rule: "a run is a simulated process in which 2-4 callers share compiled filters and documents; counted once per distinct combination of observed results and schedule, if at least one caller was interrupted inside of an operation"},
	{id: "C02", gen: genC02, exec: execC02,
		rule: "a case is one match on a reused matcher compared with a fresh one; counted once per distinct (filter, previous outcomes on the matcher, document), if the matcher had been used before"},
	{id: "C03", gen: genC03, exec: execC03,
		rule: "a case is one match of a document that was corrupted in storage; counted once per distinct (filter, document as it arrived), if the corruption changed it"},
	{id: "C04", gen: genC04, exec: execC04,
		rule: "a case is one cut position of one document matched against one filter; every position of a document below 2000 bytes is tried, a sample of larger ones; counted once per distinct (filter, prefix)"},
	{id: "C05", gen: genC05, exec: execC05,
		rule: "a case is one call on write-protected input whose memory is overwritten or unmapped afterwards; counted once per distinct (operation, input)"},
	{id: "C06", gen: genC06, exec: execC06, race: true,
		rule: "a case is one removal compared with the reference model, alone, concurrently, or from a torn source; counted once per distinct (source, names) in which something was removed"},
	{id: "C07", gen: genC07, exec: execC07,
		rule: "a case is one removal into a destination of one length; every length is tried for sources below 2000 bytes, a sample for larger ones; counted once per distinct (source, names, length)"},
	{id: "C08", gen: genC08, exec: execC08,
		rule: "a case is one order of arrival of the members of a document compared with another order; counted once per distinct (filter, document, order), if the text differs"},
	{id: "C09", gen: genC09, exec: execC09,
		rule: "a case is one filter over one document compared with the reference model; counted once per distinct (filter, document), if the filter has at least two tests"},
	{id: "C10", gen: genC10, exec: execC10, race: true,
		rule: "a case is one compilation in a history (again, reused compiler, concurrent, after a restart) whose filter is compared with the first; counted once per distinct (kind, filters, documents, schedule)"},
	{id: "C11", gen: genC11, exec: execC11,
		rule: "a case is one operation on one simulated host compared with another host; counted once per distinct (operation, input, host)"},
	{id: "C12", gen: genC12, exec: execC12,
		rule: "a case is one run in which a caller is stalled for good inside an operation while the others have to finish, or one document measured at two sizes; counted once per distinct (operations, place of the stall) or (filter, document)"},
	{id: "C13", gen: genC13, exec: execC13,
		rule: "a case is one stored filter text which was torn or corrupted before it is parsed; counted once per distinct text"},
	{id: "C14", gen: genC14, exec: execC14,
		rule: "a case is one life of at least 72 cycles of the same operations with new values each; counted once per distinct (operations, filters, documents)"},
}

func findProp(id string) *prop {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}

func viol(class, where, f string, a ...interface{}) *Violation {
	return &Violation{Class: class, Where: where, Detail: fmt.Sprintf(f, a...)}
}

// ---- generators that several properties use

var clockPool = []int64{0, 1_600_000_000_000_000_000, 1_514_764_799_999_999_999, -86_400_000_000_000, 4_102_444_800_000_000_000, 951_782_400_000_000_000}
var zonePool = []int{0, 3600, -5 * 3600, 5*3600 + 1800, 14 * 3600, -11 * 3600}

func genHost(r *simrt.Rng, orders bool) simrt.Env {
	e := simrt.Env{ClockNS: clockPool[r.Intn(len(clockPool))], ClockStep: int64(r.Intn(1_000_000)), Zone: zonePool[r.Intn(len(zonePool))],
		RandSeed: r.U64() % 1000, CPUs: []int{1, 2, 8, 64}[r.Intn(4)]}
	if r.Chance(1, 3) {
		e.JumpEvery = int64(1 + r.Intn(5))
		e.JumpNS = []int64{-3_600_000_000_000, 3_600_000_000_000, 86_400_000_000_000 * 400, -1}[r.Intn(4)]
	}
	if r.Chance(1, 2) {
		e.PoolDrop = uint64(1 + r.Intn(4))
	}
	if orders {
		e.MapSeed = r.U64() % 1_000_000
	}
	return e
}

func genSched(r *simrt.Rng, n int) simrt.Sched {
	s := simrt.Sched{Seed: r.U64() >> 16, Gap: []int{1, 3, 10, 30, 100, 400}[r.Intn(6)]}
	switch r.Intn(8) {
	case 0, 1, 2:
		s.Policy = "random"
	case 3, 4:
		s.Policy = "pct"
		s.Depth = 1 + r.Intn(6)
	case 5, 6:
		s.Policy = "site"
	default:
		s.Policy = "roundrobin"
		s.Gap = 1 + r.Intn(40)
	}
	if r.Chance(1, 4) {
		s.StallOne = true
		s.StallT = r.Intn(n)
		s.StallAt = -int64(1 + r.Intn(999)) // permille of the steps which the task makes alone
	}
	return s
}

// settle turns the relative numbers of a schedule into steps.
func settle(s simrt.Sched, alone []int64) simrt.Sched {
	if s.Policy == "replay" {
		return s
	}
	total := int64(0)
	for _, n := range alone {
		total += n
	}
	if s.Horizon == 0 {
		s.Horizon = int(total)
	}
	if s.StallOne && s.StallAt < 0 {
		if s.StallT >= len(alone) {
			s.StallT = 0
		}
		s.StallAt = 1 + alone[s.StallT]*-s.StallAt/1000
	}
	more := s.More
	s.More = nil
	for _, m := range more {
		if m.T < len(alone) && m.T != s.StallT {
			if m.At < 0 {
				m.At = 1 + alone[m.T]*-m.At/1000
			}
			s.More = append(s.More, m)
		}
	}
	return s
}

type setting struct {
	v    *vocab
	sh   docShape
	docs []*JNode
	size string // what is large, if anything
	made []Filter
}

func genSetting(r *simrt.Rng, n int) *setting {
	st := &setting{v: genVocab(r), sh: genShape(r)}
	if r.Chance(1, 20) {
		st.enlarge(r)
		probe("large: " + st.size)
	} else if r.Chance(1, 8) {
		// Arrays of similar objects with few names and few values.
		st.v.rows = true
		st.v.names = st.v.names[:3]
		st.v.vals = st.v.vals[:2+r.Intn(3)]
		st.sh = docShape{depth: 3, members: 2 + r.Intn(3), elems: 3 + r.Intn(3), arrays: 7 + r.Intn(3), unused: 50}
		probe("tables")
	}
	for i := 0; i < n; i++ {
		if i > 0 && r.Chance(1, 2) {
			d := st.v.vary(r, st.docs[r.Intn(len(st.docs))], st.sh, 0)
			st.docs = append(st.docs, d)
			continue
		}
		st.docs = append(st.docs, st.v.doc(r, st.sh))
	}
	return st
}

func (st *setting) texts(r *simrt.Rng) []Blob {
	var out []Blob
	for _, d := range st.docs {
		out = append(out, Blob(renderJ(d, genWs(r))))
	}
	return out
}

func (st *setting) filter(r *simrt.Rng, kinds string) Filter {
	if n := len(st.made); n > 0 && r.Chance(1, 3) {
		of := st.made[r.Intn(n)]
		if of.Kind == "json" && strings.Contains(kinds, "j") || of.Kind == "slow" && strings.Contains(kinds, "s") {
			return twinFilter(r, st, of)
		}
		if of.Kind == "text" && strings.Contains(kinds, "t") || of.Kind == "simple" && strings.Contains(kinds, "p") {
			return Filter{Kind: of.Kind, Exprs: []Blob{Blob(twinText(r, string(of.Exprs[0])))}}
		}
	}
	f := st.newFilter(r, kinds)
	if len(f.Exprs) > 0 && len(f.Exprs[0]) < 2000 {
		st.made = append(st.made, f)
	}
	return f
}

func (st *setting) newFilter(r *simrt.Rng, kinds string) Filter {
	k := kinds[r.Intn(len(kinds))]
	switch k {
	case 't':
		return Filter{Kind: "text", Exprs: []Blob{Blob(genText(r, st.v, st.docs))}}
	case 'p':
		return Filter{Kind: "simple", Exprs: []Blob{Blob(genSimple(r, st.v, st.docs))}}
	case 's':
		f := newFgen(r, st.v, st.docs)
		f.slow = true
		f.funcs = false
		out := Filter{Kind: "slow", Exprs: f.filter(1 + r.Intn(2)).Exprs}
		return out
	case 'c':
		f := newFgen(r, st.v, st.docs)
		f.consts = 4
		return f.filter(1 + r.Intn(2))
	}
	f := newFgen(r, st.v, st.docs)
	n := 1
	if r.Chance(1, 4) {
		n = 2 + r.Intn(3)
		if r.Chance(1, 12) {
			n = 9 + r.Intn(70)
			probe("large: number of expressions")
		}
	}
	return f.filter(n)
}

func (st *setting) faults(r *simrt.Rng, text string, n int) []Fault {
	var out []Fault
	cur := text
	for i := 0; i < n; i++ {
		other := string(renderJ(st.docs[r.Intn(len(st.docs))], wsStyle{r: r}))
		f := genFault(r, cur, other)
		cur = f.apply(cur)
		out = append(out, f)
	}
	return out
}

// names picks members to remove, most of which exist.
func (st *setting) removeNames(r *simrt.Rng, d *JNode) []string {
	var have []string
	var walk func(n *JNode)
	walk = func(n *JNode) {
		for i, k := range n.Kids {
			if n.K == 'o' && !strings.Contains(n.Keys[i], "\\") {
				have = append(have, n.Keys[i])
			}
			walk(k)
		}
	}
	walk(d)
	var out []string
	seen := map[string]bool{}
	for k := r.Intn(4); k >= 0; k-- {
		nm := st.v.names[r.Intn(len(st.v.names))]
		if len(have) > 0 && !r.Chance(1, 5) {
			nm = have[r.Intn(len(have))]
		}
		if !seen[nm] {
			seen[nm] = true
			out = append(out, nm)
		}
	}
	if r.Chance(1, 10) {
		for _, nm := range have {
			if !seen[nm] {
				seen[nm] = true
				out = append(out, nm)
			}
		}
	}
	return out
}

// ---- C01

func genWorldTasks(r *simrt.Rng, st *setting, p *Plan, n int, mix string) {
	for t := 0; t < n; t++ {
		var ops []Op
		for k := 1 + r.Intn(4); k > 0; k-- {
			op := Op{D: r.Intn(len(p.Docs)), F: r.Intn(len(p.Filters)), Flag: r.Chance(1, 2)}
			switch mix[r.Intn(len(mix))] {
			case 'm':
				op.K = "match"
				op.M = r.Intn(2)
				if r.Chance(1, 5) {
					op.Fault = st.faults(r, string(p.Docs[op.D]), 1+r.Intn(2))
				} else if r.Chance(1, 25) {
					op.Fault = []Fault{{Kind: "unreadable", At: r.Intn(len(p.Docs[op.D]) + 1)}}
				}
			case 'r':
				op.K = "remove"
				if d, err := parseJNode(string(p.Docs[op.D])); err == nil {
					op.Names = st.removeNames(r, d)
				}
				if r.Chance(1, 6) {
					op.Fault = st.faults(r, string(p.Docs[op.D]), 1)
				}
				if r.Chance(1, 5) {
					op.N = 1 + r.Intn(len(p.Docs[op.D])+1)
				}
			case 'o':
				op.K = "own"
			case 'c':
				op.K = "recompile"
				op.M = r.Intn(2)
			case 'w':
				op.K = "show"
			case 'g':
				op.K = "match"
				for i, f := range p.Filters {
					if f.Kind == "text" {
						op.K, op.F = "get", i
					}
				}
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, TaskPlan{ops})
	}
}

// late adds a filter that the process does not know before callers compile it, most of
// them at the same time.
func (st *setting) late(r *simrt.Rng, p *Plan, kinds string) {
	f := st.filter(r, kinds)
	f.Late = true
	p.Filters = append(p.Filters, f)
	for t := range p.Tasks {
		if t > 1 && r.Chance(1, 3) {
			continue
		}
		ops := p.Tasks[t].Ops
		at := r.Intn(len(ops) + 1)
		if r.Chance(1, 2) {
			at = 0
		}
		add := []Op{{K: "own", F: len(p.Filters) - 1, Flag: r.Chance(1, 2)}, {K: "match", F: len(p.Filters) - 1, D: r.Intn(len(p.Docs)), Flag: r.Chance(1, 2)}}
		p.Tasks[t].Ops = append(append(append([]Op(nil), ops[:at]...), add...), ops[at:]...)
	}
}

func genC01(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 1+r.Intn(3))
	p := &Plan{Property: "C01", Kind: "world", Run: run}
	p.Docs = st.texts(r)
	for k := 1 + r.Intn(2); k > 0; k-- {
		p.Filters = append(p.Filters, st.filter(r, "jjjjjjccttsp"))
	}
	p.Host = genHost(r, false)
	n := 2 + r.Intn(3)
	mix := []string{"mmmm", "mmmmmr", "mmmmro", "mmmcrg", "mmoc", "mmwcw"}[r.Intn(6)]
	genWorldTasks(r, st, p, n, mix)
	for r.Chance(1, 4) && len(p.Filters) < 5 {
		st.late(r, p, "jjjjctsp")
	}
	p.Sched = genSched(r, n)
	return p
}

func (w *world) signature() uint64 {
	var sb strings.Builder
	for _, os := range w.outs {
		for _, o := range os {
			fmt.Fprintf(&sb, "%s%v%s%s;", o.Kind, o.V, o.Exprs, o.Out)
		}
		sb.WriteByte('|')
	}
	return hashStr(sb.String())
}

// runAlone executes every task in a process of its own.
func runAlone(p *Plan) ([][]Outcome, []int64) {
	outs := make([][]Outcome, len(p.Tasks))
	steps := make([]int64, len(p.Tasks))
	for ti := range p.Tasks {
		w := newWorld(p, p.Host)
		w.run(ti, simrt.Sched{Policy: "serial"}, p.Host)
		outs[ti] = w.outs[ti]
		steps[ti] = w.tasks[ti].Steps()
	}
	return outs, steps
}

// execC01 compares a concurrent execution with each caller running alone.
func execC01(p *Plan) *Violation {
	alone, steps := runAlone(p)
	w := newWorld(p, p.Host)
	races := simrt.RaceErrors()
	w.run(-1, settle(p.Sched, steps), p.Host)
	if simrt.RaceErrors() > races {
		p.Sched = recorded(p.Sched, w.sim)
		return viol("race", "", "data race between concurrent callers (see the report of the race detector on stderr)")
	}
	stats.evals++
	if w.sim.Switches > 0 {
		stats.nontrivial(hashStr(fmt.Sprint(w.signature(), w.sim.Hash)))
	}
	var v *Violation
	for ti := range p.Tasks {
		for oi := range p.Tasks[ti].Ops {
			a, b := alone[ti][oi], w.outs[ti][oi]
			stats.see(b)
			if v == nil && !a.same(b) {
				class := "result-changed"
				if b.Kind != a.Kind && b.bad() {
					class = b.Kind
				}
				op := p.Tasks[ti].Ops[oi]
				v = viol(class, op.K, "task %d operation %d (%s): alone: %v; next to %d other callers: %v", ti, oi, op.K, a, len(p.Tasks)-1, b)
			}
		}
	}
	if v != nil {
		p.Sched = recorded(p.Sched, w.sim)
	}
	return v
}

// recorded turns the schedule that was executed into one to replay.
func recorded(s simrt.Sched, sim *simrt.Sim) simrt.Sched {
	return simrt.Sched{Policy: "replay", Segments: append([]simrt.Segment(nil), sim.Trace...), Forever: s.Forever, StallOne: s.StallOne && s.Policy == "replay", StallT: s.StallT, More: s.More}
}

// ---- C02

func genC02(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 2+r.Intn(3))
	p := &Plan{Property: "C02", Kind: "history", Run: run}
	p.Docs = st.texts(r)
	p.Filters = []Filter{st.filter(r, "jjjjjjjjccts")}
	p.Host = soloEnv
	var ops []Op
	faulty := r.Intn(4) // swarm: how much goes wrong in this history
	for k := 3 + r.Intn(8); k > 0; k-- {
		op := Op{K: "match", D: r.Intn(len(p.Docs)), Flag: r.Chance(1, 4)}
		if r.Intn(4) < faulty {
			switch r.Intn(3) {
			case 0:
				op.Fault = []Fault{{Kind: "unreadable", At: r.Intn(len(p.Docs[op.D]) + 1)}}
			case 1:
				op.Fault = []Fault{{Kind: "torn", At: r.Intn(len(p.Docs[op.D]) + 1)}}
			default:
				op.Fault = st.faults(r, string(p.Docs[op.D]), 1+r.Intn(2))
			}
		}
		ops = append(ops, op)
	}
	p.Tasks = []TaskPlan{{ops}}
	if r.Chance(1, 16) {
		// Something is left behind, and turns up again when a counter has wrapped around.
		p.Kind = "gap"
		p.N = 252 + r.Intn(6)
		if r.Chance(1, 24) {
			p.N = 65532 + r.Intn(6)
		}
		p.Docs = append(p.Docs, Blob([]string{"{}", "{}", "1", "[]", "{", `{"zz":0}`}[r.Intn(6)]))
		ops[0].Fault, ops[0].Flag = nil, false
		ops[1] = Op{K: "match", D: len(p.Docs) - 1}
		for i := 2; i < len(ops); i++ {
			ops[i].Fault = nil
			if r.Chance(1, 2) {
				ops[i].D = ops[1].D
			}
		}
	} else if r.Chance(1, 6) {
		// The documents come in the same buffer, one after another.
		p.Kind = "buffer"
		if r.Chance(2, 3) {
			padDocs(p.Docs)
		}
	} else if r.Chance(1, 12) {
		// A long history: the same few calls again and again, and at last some others.
		// They are often all alike, or all of them fail.
		p.Kind = "long"
		at := 1 + r.Intn(len(ops)-1)
		p.Variants = []uint64{uint64(at)}
		p.N = 20 + r.Intn(600)
		size := 0
		for i := range ops {
			if i < at && faulty > 0 && (len(ops[i].Fault) == 0 || ops[i].Fault[0].Kind == "unreadable") {
				// The arena has too few guarded pages for one per repetition.
				ops[i].Fault = []Fault{{Kind: "torn", At: len(p.Docs[ops[i].D]) * r.Intn(100) / 100}}
			}
			if i >= at {
				ops[i].Fault = nil
			} else {
				size += len(p.Docs[ops[i].D]) + 50
			}
		}
		if most := 1 + 100_000/size; p.N > most {
			p.N = most
		}
	}
	return p
}

// padDocs gives documents the same length.
func padDocs(docs []Blob) {
	most := 0
	for _, d := range docs {
		most = maxInt(most, len(d))
	}
	for i, d := range docs {
		docs[i] = Blob(pad(string(d), most))
	}
}

// pad puts white space into a document, behind its first byte if it is one of a container.
func pad(d string, n int) string {
	if len(d) == 0 || len(d) >= n {
		return d
	}
	at := len(d)
	if d[0] == '{' || d[0] == '[' {
		at = 1
	}
	return d[:at] + strings.Repeat(" ", n-len(d)) + d[at:]
}

// long repeats the first operations of a history.
func (p *Plan) long() *Plan {
	ops := p.Tasks[0].Ops
	if p.Kind == "gap" && len(ops) > 2 && p.N > 1 {
		q := *p
		all := append([]Op(nil), ops[0])
		for i := 0; i < p.N; i++ {
			all = append(all, ops[1])
		}
		q.Tasks = []TaskPlan{{append(all, ops[2:]...)}}
		return &q
	}
	if p.N < 2 || len(p.Variants) == 0 || int(p.Variants[0]) >= len(ops) {
		return p
	}
	at := int(p.Variants[0])
	q := *p
	var all []Op
	for i := 0; i < p.N; i++ {
		all = append(all, ops[:at]...)
	}
	q.Tasks = []TaskPlan{{append(all, ops[at:]...)}}
	return &q
}

func execC02(p *Plan) *Violation {
	skip := 0
	if q := p.long(); q != p {
		skip = len(q.Tasks[0].Ops) - len(p.Tasks[0].Ops)
		p = q
	}
	w := newWorld(p, p.Host)
	if w.filters[0] == nil {
		return nil
	}
	w.run(0, simrt.Sched{Policy: "serial"}, p.Host)
	hist := hashStr(string(p.Filters[0].Exprs[0]))
	for oi, op := range p.Tasks[0].Ops {
		got := w.outs[0][oi]
		if got.Kind == "none" {
			break // an earlier operation hung
		}
		stats.see(got)
		if got.Kind == "skipped" || oi < skip && !got.bad() {
			continue // they are compared the last time
		}
		q := &Plan{Filters: []Filter{p.Filters[op.F]}, Docs: []Blob{p.Docs[op.D]}}
		fop := op
		fop.F, fop.D, fop.M = 0, 0, 0
		q.Tasks = []TaskPlan{{[]Op{fop}}}
		f := newWorld(q, p.Host)
		f.run(0, simrt.Sched{Policy: "serial"}, p.Host)
		want := f.outs[0][0]
		stats.evals++
		if oi > 0 {
			stats.nontrivial(hashStr(fmt.Sprint(hist), string(p.Docs[op.D]), fmt.Sprint(op.Fault)))
			probe("reuse after " + w.outs[0][oi-1].Kind)
		}
		hist = hashStr(fmt.Sprint(hist), got.Kind, got.Exprs, fmt.Sprint(got.V))
		if !got.same(want) {
			class := "leftover"
			if got.Kind != want.Kind && got.bad() {
				class = got.Kind
			}
			return viol(class, op.K, "match %d on a reused matcher: %v; a fresh matcher: %v", oi, got, want)
		}
	}
	return nil
}

// ---- C03

func genC03(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 2)
	p := &Plan{Property: "C03", Kind: "corrupt", Run: run, Host: soloEnv}
	p.Docs = st.texts(r)
	if r.Chance(1, 6) {
		p.Docs = append(p.Docs, Blob(arbitrary(r)))
	}
	if r.Chance(1, 12) {
		d := 20 + r.Intn(400)
		p.Docs = append(p.Docs, Blob(strings.Repeat(`{"a":[`, d)+"1"+strings.Repeat("]}", r.Intn(d+1))))
	}
	p.Filters = []Filter{st.filter(r, "jjjjjjjjccts")}
	if r.Chance(1, 3) {
		p.Filters = append(p.Filters, st.filter(r, "jjjc"))
	}
	var ops []Op
	for k := 10; k > 0; k-- {
		op := Op{K: "match", D: r.Intn(len(p.Docs)), F: r.Intn(len(p.Filters)), M: k}
		if r.Chance(1, 3) {
			op.M = 0
		}
		n := 1
		if r.Chance(1, 3) {
			n += r.Intn(4)
		}
		op.Fault = st.faults(r, string(p.Docs[op.D]), n)
		ops = append(ops, op)
	}
	p.Tasks = []TaskPlan{{ops}}
	return p
}

func arbitrary(r *simrt.Rng) string {
	const tok = "{}[]:,\"\\ \n0123456789.eE+-tfnu/\x00\x7f\x80\xff"
	words := []string{"true", "false", "null", "\"a\"", "\"\\u00e9\"", "1e5", "{}", "[]", "\"a\":", "{\"a\":"}
	var sb strings.Builder
	for k := r.Intn(30); k >= 0; k-- {
		if r.Chance(1, 2) {
			sb.WriteString(words[r.Intn(len(words))])
		} else {
			sb.WriteByte(tok[r.Intn(len(tok))])
		}
	}
	return sb.String()
}

func execC03(p *Plan) *Violation {
	w := newWorld(p, p.Host)
	w.run(0, simrt.Sched{Policy: "serial"}, p.Host)
	for oi, op := range p.Tasks[0].Ops {
		o := w.outs[0][oi]
		if o.Kind == "none" || o.Kind == "nofilter" {
			continue
		}
		stats.see(o)
		stats.evals++
		text := string(p.Docs[op.D])
		for _, f := range op.Fault {
			text = f.apply(text)
		}
		if text != string(p.Docs[op.D]) {
			stats.nontrivial(hashStr(string(p.Filters[op.F].Exprs[0]), text))
		}
		if o.bad() || o.Kind == "fault" {
			where := o.Detail
			if i := strings.LastIndex(where, " at "); i >= 0 {
				where = where[i+4:]
			}
			return viol(o.Kind, where, "document %q: %v", text, o)
		}
	}
	return nil
}

// ---- C04

// positions are all of [from,to), or a sample of them if they are many.
func positions(seed uint64, from, to int) []int {
	var out []int
	r := simrt.NewRng(seed)
	for i := from; i < to; i++ {
		if to-from < 2000 || i < from+100 || i > to-200 || r.Chance(700, to-from) {
			out = append(out, i)
		}
	}
	return out
}

func genC04(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 1)
	if st.docs[0].K == 'l' {
		st.docs[0] = &JNode{K: 'a', Kids: []*JNode{st.docs[0]}}
	}
	p := &Plan{Property: "C04", Kind: "cuts", Run: run, Host: soloEnv}
	p.Docs = st.texts(r)
	p.Filters = []Filter{st.filter(r, "jjjjjjjjjccts")}
	switch r.Intn(5) {
	case 0:
		p.Kind = "damage"
	case 1:
		p.Kind = "zeros"
	}
	return p
}

// noTokens are no JSON tokens, and do not begin with one.
var noTokens = []string{"-", "-x", "1.", "1.x", "1e", "1e+", "1ex", "2E-", "t", "tru", "trux", "nul", "nuxl", "fals", "falsx", "+1", ".5", "NaN", "Infinity", "undefined", "True", "'a'", "\x00", "\xff", "$", "\"a\\x\"", "\"\\u12G4\"", "\"a\x00b\"", "\"a\nb\"", "\"\\u00\"", "\"\\\x01\""}

// aLeaf is the place of a scalar value, or of the name of a member.
type aLeaf struct {
	from, to int
	name     bool
}

func leaves(text string) []aLeaf {
	var out []aLeaf
	for i := 0; i < len(text); {
		c := text[i]
		switch {
		case c == '"':
			j := i + 1
			for j < len(text) && text[j] != '"' {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			j = minInt(j+1, len(text))
			k := j
			for k < len(text) && strings.IndexByte(" \t\r\n", text[k]) >= 0 {
				k++
			}
			out = append(out, aLeaf{i, j, k < len(text) && text[k] == ':'})
			i = j
		case strings.IndexByte(" \t\r\n:,[]{}", c) >= 0:
			i++
		default:
			j := i
			for j < len(text) && strings.IndexByte(" \t\r\n:,[]{}", text[j]) < 0 {
				j++
			}
			out = append(out, aLeaf{i, j, false})
			i = j
		}
	}
	return out
}

// brokenDoc is the document after it was cut short or otherwise damaged.
func (p *Plan) brokenDoc(doc string, i int, at []aLeaf) (string, bool) {
	switch p.Kind {
	case "zeros":
		// What is left of a number is a number, and with zeros behind it even a whole one.
		const digits = "0123456789+-.eE"
		if i < 1 || i >= len(doc) || strings.IndexByte(digits, doc[i-1]) >= 0 && strings.IndexByte(digits, doc[i]) >= 0 {
			return "", false
		}
		return doc[:i] + strings.Repeat("\x00", len(doc)-i), true
	case "damage":
		k, with := i/len(noTokens), noTokens[i%len(noTokens)]
		if k >= len(at) {
			return "", false
		}
		return doc[:at[k].from] + with + doc[at[k].to:], true
	}
	if i < 1 || i >= len(doc) {
		return "", false
	}
	return doc[:i], true
}

func execC04(p *Plan) *Violation {
	doc := string(p.Docs[0])
	simrt.SetIdleEnv(p.Host)
	resetProcess()
	c, _ := hostCompile(p.Filters[0])
	if c == nil {
		return nil
	}
	fkey := string(p.Filters[0].Exprs[0])
	n := len(doc)
	var wanted Outcome
	getArena().reset()
	s := simrt.New(p.Host)
	cuts := p.Cuts
	at := leaves(doc)
	if cuts == nil && p.Kind == "damage" {
		r := simrt.NewRng(p.Run)
		for k := range at {
			for n := 0; n < 4 && len(cuts) < 500; n++ {
				cuts = append(cuts, k*len(noTokens)+r.Intn(len(noTokens)))
			}
		}
	} else if cuts == nil {
		cuts = positions(p.Run, 1, n)
	}
	texts := make([]string, len(cuts))
	whole := heapRegion(doc)
	outs := make([]Outcome, len(cuts))
	for i := range outs {
		outs[i].Kind = "none"
	}
	tk := s.Spawn("caller", func() {
		call(&wanted, matchBound(doc, c), func(o *Outcome) { doMatch(o, c.matcher(), len(c.exprs), whole.data, false) })
		if wanted.Kind != "ok" {
			return
		}
		for k, i := range cuts {
			text, ok := p.brokenDoc(doc, i, at)
			if !ok {
				continue
			}
			texts[k] = text
			getArena().reset()
			reg := getArena().place(text, -1)
			call(&outs[k], matchBound(doc, c), func(o *Outcome) { doMatch(o, c.matcher(), len(c.exprs), reg.data, false) })
		}
	})
	s.Run(simrt.NewPolicy(simrt.Sched{Policy: "serial"}))
	stats.steps += s.Steps
	for i := range outs {
		finish(s, tk, &outs[i])
	}
	finish(s, tk, &wanted)
	full := wanted
	if full.Kind != "ok" {
		return nil
	}
	fault := map[string]string{"cuts": "torn", "zeros": "torn, zeros behind", "damage": "token damaged"}[p.Kind]
	for k, i := range cuts {
		if outs[k].Kind == "none" {
			continue
		}
		o, text := outs[k], texts[k]
		stats.see(o)
		stats.evals++
		countFault(fault)
		stats.nontrivial(hashStr(fkey, text))
		if o.Kind == "err" {
			probe(p.Kind + ": error")
			continue
		}
		if o.Kind != "ok" {
			probe(p.Kind + ": " + o.Kind) // whether it may panic is for C03 to say
			continue
		}
		probe(p.Kind + ": verdict")
		if o.V != full.V {
			p.Cuts = []int{i}
			return viol("torn-verdict", "", "%s: %q gives %v; the whole document %q gives %v", fault, text, o, doc, full)
		}
		if o.Exprs != full.Exprs {
			p.Cuts = []int{i}
			return viol("torn-results", "", "%s: %q gives %v; the whole document %q gives %v", fault, text, o, doc, full)
		}
	}
	return nil
}

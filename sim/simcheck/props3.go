//go:build go1.24

package main

import (
	"encoding/json"
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
	"github.com/couchbaselabs/gojsonsm/simrt"
)

// matchAll matches documents against a filter, each with a fresh matcher, in one simulation.
func matchAll(c *compiled, docs []string, host simrt.Env) []Outcome {
	outs := make([]Outcome, len(docs))
	s := simrt.New(host)
	tk := s.Spawn("caller", func() {
		for i := range docs {
			call(&outs[i], matchBound(docs[i], c), func(o *Outcome) {
				doMatch(o, c.matcher(), len(c.exprs), []byte(docs[i]), false)
			})
		}
	})
	s.Run(simrt.NewPolicy(simrt.Sched{Policy: "serial"}))
	stats.steps += s.Steps
	for i := range outs {
		finish(s, tk, &outs[i])
		stats.see(outs[i])
	}
	return outs
}

// ---- C08

func genC08(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 1)
	if r.Chance(2, 3) {
		st.sh.members += 2
		st.docs = []*JNode{st.v.doc(r, st.sh)}
	}
	p := &Plan{Property: "C08", Kind: "order", Run: run, Host: soloEnv}
	p.Docs = st.texts(r)
	f := newFgen(r, st.v, st.docs)
	switch r.Intn(6) {
	case 0:
		p.Filters = []Filter{st.filter(r, "ts")}
	case 1:
		f.consts = 5
		p.Filters = []Filter{f.filter(1 + r.Intn(3))}
	case 2:
		p.Filters = []Filter{f.filter(2 + r.Intn(3))}
	default:
		f.fields = 3 + r.Intn(7)
		p.Filters = []Filter{f.filter(1)}
	}
	for k := 4; k > 0; k-- {
		p.Variants = append(p.Variants, r.U64()>>20)
	}
	return p
}

// freezer finds the objects and arrays which a filter compares as a whole (or passes
// to a function). Such a value is compared by its text, so that has to stay the same.
type freezer struct {
	env    map[g.VariableID][]*JNode
	frozen int
}

func (z *freezer) resolve(e g.FieldExpr) []*JNode {
	at := z.env[e.Root]
	for _, p := range e.Path {
		var next []*JNode
		for _, n := range at {
			for i, k := range n.Kids {
				if n.K == 'o' && keyName(n.Keys[i]) == p || n.K == 'a' && p == fmt.Sprintf("[%d]", i) {
					next = append(next, k)
				}
			}
		}
		at = next
	}
	return at
}

func (z *freezer) loop(v g.VariableID, in, sub g.Expression) {
	old := z.env[v]
	z.env[v] = nil
	if f, ok := in.(g.FieldExpr); ok {
		for _, n := range z.resolve(f) {
			z.env[v] = append(z.env[v], n.Kids...)
		}
	}
	z.walk(sub)
	z.env[v] = old
}

func (z *freezer) operands(es ...g.Expression) {
	for _, e := range es {
		switch e := e.(type) {
		case g.FieldExpr:
			for _, n := range z.resolve(e) {
				if n.K != 'l' {
					n.Frozen = true
					z.frozen++
				}
			}
		case g.FuncExpr:
			z.operands(e.Params...)
		}
	}
}

func (z *freezer) walk(e g.Expression) {
	switch e := e.(type) {
	case g.AndExpr:
		for _, k := range e {
			z.walk(k)
		}
	case g.OrExpr:
		for _, k := range e {
			z.walk(k)
		}
	case g.NotExpr:
		z.walk(e.SubExpr)
	case g.AnyInExpr:
		z.loop(e.VarId, e.InExpr, e.SubExpr)
	case g.EveryInExpr:
		z.loop(e.VarId, e.InExpr, e.SubExpr)
	case g.AnyEveryInExpr:
		z.loop(e.VarId, e.InExpr, e.SubExpr)
	case g.EqualsExpr:
		z.operands(e.Lhs, e.Rhs)
	case g.NotEqualsExpr:
		z.operands(e.Lhs, e.Rhs)
	case g.LessThanExpr:
		z.operands(e.Lhs, e.Rhs)
	case g.LessEqualsExpr:
		z.operands(e.Lhs, e.Rhs)
	case g.GreaterThanExpr:
		z.operands(e.Lhs, e.Rhs)
	case g.GreaterEqualsExpr:
		z.operands(e.Lhs, e.Rhs)
	case g.LikeExpr:
		z.operands(e.Lhs, e.Rhs)
	}
}

func execC08(p *Plan) *Violation {
	simrt.SetIdleEnv(p.Host)
	resetProcess()
	c, _ := hostCompile(p.Filters[0])
	if c == nil {
		return nil
	}
	base := string(p.Docs[0])
	tree, err := parseJNode(base)
	if err != nil || !tree.uniqueNames() {
		return nil
	}
	z := &freezer{env: map[g.VariableID][]*JNode{0: {tree}}}
	for _, e := range c.exprs {
		z.walk(e)
	}
	if z.frozen > 0 {
		probe("whole objects or arrays compared")
	}
	docs := []string{base}
	for _, seed := range p.Variants {
		r := simrt.NewRng(seed)
		docs = append(docs, renderJ(permuteJ(tree, r), genWs(r)))
	}
	outs := matchAll(c, docs, p.Host)
	for i := 1; i < len(docs); i++ {
		stats.evals++
		if docs[i] != base {
			stats.nontrivial(hashStr(string(p.Filters[0].Exprs[0]), base, docs[i]))
			countFault("reordered members")
		}
		if !outs[i].sameVerdict(outs[0]) {
			if len(p.Variants) > 1 {
				p.Variants = []uint64{p.Variants[i-1]}
			}
			return viol("order", "", "%q gives %v, but %q gives %v, for the filter %q", base, outs[0], docs[i], outs[i], p.Filters[0].Exprs)
		}
	}
	return nil
}

// ---- C09

func genC09(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 1+r.Intn(2))
	p := &Plan{Property: "C09", Kind: "model", Run: run, Host: soloEnv}
	if r.Chance(1, 12) {
		p.Kind = "text"
		for k := 2 + r.Intn(2); k > 0; k-- {
			p.Filters = append(p.Filters, Filter{Kind: "text", Exprs: []Blob{Blob(genText(r, st.v, st.docs))}})
		}
	} else {
		f := newFgen(r, st.v, st.docs)
		if r.Chance(1, 3) {
			f.consts = 3 + r.Intn(4)
		}
		if r.Chance(1, 3) {
			f.loops = 5 + r.Intn(4)
			f.depth = 3 + r.Intn(2)
			f.budget = 12
		}
		n := 1
		if r.Chance(1, 4) {
			n = 2 + r.Intn(3)
		}
		if r.Chance(1, 120) {
			// More filters in one pass than a word has bits, or a byte has values.
			n = []int{33, 65, 70, 129, 257, 260}[r.Intn(6)] + r.Intn(4)
			f.loops, f.depth = 0, 1
			probe("many filters in one pass")
		}
		if n < 5 && r.Chance(1, 10) {
			p.Filters = []Filter{st.filter(r, "s")}
		} else {
			p.Filters = []Filter{f.filter(n)}
		}
	}
	p.Docs = st.texts(r)
	for k := 2; k > 0; k-- {
		d := st.v.vary(r, st.docs[0], st.sh, 0)
		d.shorten(maxInt(4, st.docs[0].longest()))
		p.Docs = append(p.Docs, Blob(renderJ(permuteJ(d, r), genWs(r))))
	}
	return p
}

// compileFailure: a filter is compiled or rejected, nothing else.
func compileFailure(f Filter, why string) *Violation {
	for _, k := range []string{"panic", "hung", "blocked"} {
		if strings.HasPrefix(why, k) {
			return viol("compile-"+k, "", "compiling %q: %s", f.Exprs, why)
		}
	}
	return nil
}

func execC09(p *Plan) *Violation {
	simrt.SetIdleEnv(p.Host)
	resetProcess()
	if p.Kind == "text" {
		return execC09Text(p)
	}
	f := p.Filters[0]
	var xs []*X
	for _, t := range f.Exprs {
		x, err := parseX(string(t))
		if err != nil {
			return nil
		}
		xs = append(xs, x)
	}
	c, why := hostCompile(f)
	if c == nil {
		return compileFailure(f, why)
	}
	var docs []string
	for _, d := range p.Docs {
		docs = append(docs, string(d))
	}
	outs := matchAll(c, docs, p.Host)
	tests := 0
	for _, x := range xs {
		tests += x.tests()
	}
	for i, d := range docs {
		if o := outs[i]; o.Kind != "ok" {
			if f.Kind != "slow" && json.Valid([]byte(d)) {
				return viol("match-"+o.Kind, "", "filters %s over the well-formed document %s: %v", f.Exprs, d, o)
			}
			continue
		}
		tree, err := parseJNode(d)
		if err != nil || !tree.uniqueNames() {
			continue
		}
		stats.evals++
		if tests >= 2 {
			stats.nontrivial(hashStr(fmt.Sprint(f.Exprs), d))
		}
		memo := map[string]bool{}
		want := true
		bits := ""
		bad := false
		missing := false
		for _, x := range xs {
			var v bool
			var o Outcome
			m := newModel(tree, memo)
			m.slow = f.Kind == "slow"
			solo(&o, callBound, func(o *Outcome) {
				var err error
				v, err = m.eval(x)
				missing = missing || m.missing
				if err != nil {
					o.Kind, o.Detail = "err", err.Error()
					return
				}
				o.Kind = "ok"
			})
			if o.Kind != "ok" {
				bad = true
				probe("model gave up: " + o.Kind)
				break
			}
			if v {
				bits += "1"
			} else {
				bits += "0"
				want = false
			}
		}
		if bad {
			continue
		}
		if f.Kind == "slow" && missing {
			// It takes a missing member for a null.
			continue
		}
		if len(xs) == 1 && outs[i].V != want {
			return viol("verdict", "", "filter %s over %s: verdict %v; the parts of the filter make it %v", f.Exprs[0], d, outs[i].V, want)
		}
		if outs[i].Exprs != bits {
			return viol("results", "", "filters %s over %s: results %s; on their own and by their parts they are %s", f.Exprs, d, outs[i].Exprs, bits)
		}
		if len(xs) > 1 {
			// What several filters in one pass come to is the same for the same results.
			any := strings.Contains(bits, "1")
			if f.Kind != "slow" && outs[i].V != any {
				return viol("verdict", "", "filters %s over %s: verdict %v although the results are %s", f.Exprs, d, outs[i].V, bits)
			}
		}
	}
	return nil
}

func (x *X) tests() int {
	if !x.logical() || x.Op == "true" || x.Op == "false" {
		return 1
	}
	n := 0
	for _, k := range x.Kids {
		n += k.tests()
	}
	return n
}

func execC09Text(p *Plan) *Violation {
	var parts []string
	for _, f := range p.Filters {
		parts = append(parts, string(f.Exprs[0]))
	}
	var bad *Violation
	one := func(text string) *compiled {
		f := Filter{Kind: "text", Exprs: []Blob{Blob(text)}}
		c, why := hostCompile(f)
		if bad == nil {
			bad = compileFailure(f, why)
		}
		return c
	}
	var cs []*compiled
	for _, t := range parts {
		c := one(t)
		if c == nil {
			return bad
		}
		cs = append(cs, c)
	}
	and := one("(" + strings.Join(parts, ") AND (") + ")")
	or := one("(" + strings.Join(parts, ") OR (") + ")")
	if bad != nil {
		return bad
	}
	if and == nil || or == nil {
		return viol("text-rejected", "", "filters %q are accepted, but not joined by AND or OR", parts)
	}
	var docs []string
	for _, d := range p.Docs {
		docs = append(docs, string(d))
	}
	ao, oo := matchAll(and, docs, p.Host), matchAll(or, docs, p.Host)
	all, any := make([]bool, len(docs)), make([]bool, len(docs))
	okd := make([]bool, len(docs))
	for i := range docs {
		all[i] = true
		okd[i] = ao[i].Kind == "ok" && oo[i].Kind == "ok"
	}
	for _, c := range cs {
		for i, o := range matchAll(c, docs, p.Host) {
			okd[i] = okd[i] && o.Kind == "ok"
			all[i] = all[i] && o.V
			any[i] = any[i] || o.V
		}
	}
	for i, d := range docs {
		if !okd[i] {
			if json.Valid([]byte(d)) {
				return viol("match-err", "", "filters %q, alone or joined, over the well-formed document %s: no verdict, joined by AND %v, by OR %v", parts, d, ao[i], oo[i])
			}
			continue
		}
		stats.evals++
		stats.nontrivial(hashStr(strings.Join(parts, "\x00"), d))
		if ao[i].V != all[i] {
			return viol("text-and", "", "filters %q over %s: all hold is %v, but joined by AND they give %v", parts, d, all[i], ao[i].V)
		}
		if oo[i].V != any[i] {
			return viol("text-or", "", "filters %q over %s: any holds is %v, but joined by OR they give %v", parts, d, any[i], oo[i].V)
		}
	}
	return nil
}

// ---- C10

func genC10(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 1+r.Intn(2))
	p := &Plan{Property: "C10", Run: run, Host: soloEnv}
	p.Docs = st.texts(r)
	p.Kind = []string{"again", "again", "again", "concurrent", "restart"}[r.Intn(5)]
	n := 2 + r.Intn(3)
	kinds := "jjjjjjcct"
	if p.Kind != "again" {
		n = 1 + r.Intn(2)
	}
	if r.Chance(1, 4) {
		kinds = "jjttp"
	}
	for i := 0; i < n; i++ {
		p.Filters = append(p.Filters, st.filter(r, kinds))
	}
	switch p.Kind {
	case "again":
		// A history of compilations: which filter, in a used compiler or a new one,
		// from the expressions that were parsed before or from the text.
		var ops []Op
		for k := 3 + r.Intn(5); k > 0; k-- {
			ops = append(ops, Op{K: "compile", F: r.Intn(n), Flag: r.Chance(1, 3), M: r.Intn(3)})
		}
		p.Tasks = []TaskPlan{{ops}}
	case "concurrent":
		k := 2 + r.Intn(2)
		genWorldTasks(r, st, p, k, []string{"mco", "cco", "moc", "mmcg", "ccwm"}[r.Intn(5)])
		for r.Chance(1, 3) && len(p.Filters) < 5 {
			st.late(r, p, kinds)
		}
		for t := range p.Tasks {
			// Each ends by using what it has compiled.
			p.Tasks[t].Ops = append(p.Tasks[t].Ops, Op{K: "match", D: r.Intn(len(p.Docs)), F: r.Intn(len(p.Filters))})
		}
		p.Host = genHost(r, false)
		p.Sched = genSched(r, k)
	case "restart":
		k := 1 + r.Intn(3)
		genWorldTasks(r, st, p, k, "mmoocg")
		p.Host = genHost(r, false)
		p.Sched = genSched(r, k)
		p.Sched.StallOne = false
		p.CrashAt = -int64(1 + r.Intn(999))
	}
	return p
}

func execC10(p *Plan) *Violation {
	switch p.Kind {
	case "again":
		return execC10Again(p)
	case "concurrent":
		v := execC10World(p)
		return v
	}
	return execC10Restart(p)
}

// behaviour is what a compiled filter does with the documents of the run.
func behaviour(c *compiled, p *Plan) []Outcome {
	var docs []string
	for _, d := range p.Docs {
		docs = append(docs, string(d))
	}
	return matchAll(c, docs, p.Host)
}

func firstLife(p *Plan) ([]string, [][]Outcome) {
	var names []string
	var behs [][]Outcome
	for _, f := range p.Filters {
		simrt.SetIdleEnv(p.Host)
		resetProcess()
		c, _ := hostCompile(f)
		if c == nil {
			names = append(names, "")
			behs = append(behs, nil)
			continue
		}
		names = append(names, describe(c))
		behs = append(behs, behaviour(c, p))
	}
	return names, behs
}

func diffBehaviour(a, b []Outcome) (int, bool) {
	for i := range a {
		if !a[i].same(b[i]) {
			return i, true
		}
	}
	return 0, false
}

func execC10Again(p *Plan) *Violation {
	names, behs := firstLife(p)
	simrt.SetIdleEnv(p.Host)
	resetProcess()
	parsed := make([]*compiled, len(p.Filters))
	var trans g.Transformer
	type made struct {
		f  int
		op int
		c  *compiled
	}
	var all []made
	for oi, op := range p.Tasks[0].Ops {
		f := op.F
		if op.F >= len(p.Filters) || behs[f] == nil {
			continue
		}
		var c *compiled
		var o Outcome
		solo(&o, callBound, func(o *Outcome) {
			t := &trans
			if op.Flag {
				t = new(g.Transformer)
			}
			if parsed[f] == nil || op.M == 0 {
				var err error
				c, err = compileFilter(p.Filters[f], t)
				if err != nil {
					o.Kind, o.Detail = "err", err.Error()
					return
				}
				if parsed[f] == nil {
					parsed[f] = c
				}
			} else {
				c = &compiled{kind: parsed[f].kind, exprs: parsed[f].exprs, length: parsed[f].length}
				if op.M == 2 {
					show(parsed[f])
					var err error
					if c.exprs, err = parsed[f].again(); err != nil {
						o.Kind, o.Detail = "err", err.Error()
						return
					}
				}
				if c.kind != "slow" {
					c.def = t.Transform(c.exprs)
				}
			}
			o.Kind = "ok"
		})
		stats.evals++
		stats.nontrivial(hashStr("again", fmt.Sprint(p.Filters[f].Exprs), fmt.Sprint(op.Flag, op.M, len(all))))
		if o.Kind != "ok" {
			return viol("rejected", "", "compilation %d, of filter %d: %v; it compiles in a new process", oi, f, o)
		}
		all = append(all, made{f, oi, c})
		if d := describe(c); d != names[f] {
			return viol("expression-changed", "", "compilation %d, of filter %d: the expression is %s; it was %s", oi, f, d, names[f])
		}
	}
	for _, m := range all {
		got := behaviour(m.c, p)
		if i, bad := diffBehaviour(behs[m.f], got); bad {
			return viol("compiled-differently", "", "compilation %d, of filter %d (%s), over %s: %v; compiled in a new process: %v", m.op, m.f, p.Filters[m.f].Exprs, p.Docs[i], got[i], behs[m.f][i])
		}
	}
	for f, c := range parsed {
		if c != nil && describe(c) != names[f] {
			return viol("expression-changed", "", "after all compilations, the expression of filter %d is %s; it was %s", f, describe(c), names[f])
		}
	}
	return nil
}

func execC10World(p *Plan) *Violation {
	names, behs := firstLife(p)
	alone, steps := runAlone(p)
	w := newWorld(p, p.Host)
	races := simrt.RaceErrors()
	w.run(-1, settle(p.Sched, steps), p.Host)
	if simrt.RaceErrors() > races {
		p.Sched = recorded(p.Sched, w.sim)
		return viol("race", "", "data race between concurrent compilations (see the report of the race detector on stderr)")
	}
	stats.nontrivial(hashStr("world", fmt.Sprint(w.signature(), w.sim.Hash)))
	var v *Violation
	for ti := range p.Tasks {
		for oi, op := range p.Tasks[ti].Ops {
			a, b := alone[ti][oi], w.outs[ti][oi]
			stats.see(b)
			stats.evals++
			if v == nil && !a.same(b) {
				v = viol("compiled-differently", "", "task %d operation %d (%s of filter %d): alone: %v; next to other compilations: %v", ti, oi, op.K, op.F, a, b)
			}
		}
	}
	if v == nil {
		// What was compiled before must be what it was.
		for f, c := range w.filters {
			if c == nil {
				continue
			}
			if d := describe(c); d != names[f] {
				v = viol("expression-changed", "", "the expression of filter %d is %s after others were compiled; it was %s", f, d, names[f])
				break
			}
			got := behaviour(c, p)
			if i, bad := diffBehaviour(behs[f], got); bad {
				v = viol("compiled-differently", "", "filter %d (%s) over %s, after others were compiled: %v; before: %v", f, p.Filters[f].Exprs, p.Docs[i], got[i], behs[f][i])
				break
			}
		}
	}
	if v != nil {
		p.Sched = recorded(p.Sched, w.sim)
	}
	return v
}

func execC10Restart(p *Plan) *Violation {
	names, behs := firstLife(p)
	_, steps := runAlone(p)
	q := *p
	if q.CrashAt < 0 {
		total := int64(0)
		for _, n := range steps {
			total += n
		}
		q.CrashAt = 1 + total*-q.CrashAt/1000
	}
	w := newWorld(&q, p.Host)
	w.run(-1, settle(p.Sched, steps), p.Host)
	// The process has died; what is left are the texts.
	next := newWorld(p, p.Host)
	for f, c := range next.filters {
		stats.evals++
		if (c == nil) != (behs[f] == nil) {
			return viol("rejected", "", "filter %d (%s) after a restart: %s", f, p.Filters[f].Exprs, next.ferr[f])
		}
		if c == nil {
			continue
		}
		stats.nontrivial(hashStr("restart", fmt.Sprint(p.Filters[f].Exprs), fmt.Sprint(q.CrashAt)))
		if d := describe(c); d != names[f] {
			return viol("expression-changed", "", "filter %d after a restart: %s; before: %s", f, d, names[f])
		}
		got := behaviour(c, p)
		if i, bad := diffBehaviour(behs[f], got); bad {
			return viol("compiled-differently", "", "filter %d (%s) over %s, after a restart: %v; before: %v", f, p.Filters[f].Exprs, p.Docs[i], got[i], behs[f][i])
		}
	}
	// The same processes as before the crash have to come to the same results as well.
	again := newWorld(p, p.Host)
	p2 := *p
	p2.CrashAt = 0
	again.plan = &p2
	again.run(-1, settle(p.Sched, steps), p.Host)
	for ti := range p.Tasks {
		for oi := range p.Tasks[ti].Ops {
			a, b := w.outs[ti][oi], again.outs[ti][oi]
			if a.Kind == "none" || a.Kind == "killed" || a.Kind == "running" {
				continue
			}
			if !a.same(b) {
				return viol("compiled-differently", "repeat", "task %d operation %d: before the crash %v; when it is repeated %v", ti, oi, a, b)
			}
		}
	}
	return nil
}

// ---- C11

func genC11(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 1+r.Intn(3))
	// Dates and objects are what the host could influence.
	if r.Chance(2, 3) {
		for i := range st.v.vals {
			if r.Chance(1, 2) {
				st.v.vals[i] = `"` + timePool[r.Intn(len(timePool))] + `"`
			}
		}
		for i := range st.docs {
			st.docs[i] = st.v.doc(r, st.sh)
		}
	}
	p := &Plan{Property: "C11", Kind: "hosts", Run: run}
	p.Docs = st.texts(r)
	if r.Chance(1, 8) {
		p.Docs[0] = Blob(st.faultedText(r, string(p.Docs[0])))
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		p.Filters = append(p.Filters, st.filter(r, "jjjjjctssp"))
	}
	if r.Chance(1, 6) {
		p.Filters = append(p.Filters, slowLoop(r, st))
	}
	base := genHost(r, true)
	p.Hosts = []simrt.Env{base}
	for k := 2; k > 0; k-- {
		h := base
		n := genHost(r, true)
		// One difference at a time, or everything.
		switch r.Intn(6) {
		case 0:
			h.ClockNS, h.ClockStep, h.JumpEvery, h.JumpNS = n.ClockNS, n.ClockStep, n.JumpEvery, n.JumpNS
		case 1:
			h.Zone = n.Zone
		case 2:
			h.MapSeed = n.MapSeed
		case 3:
			h.RandSeed, h.CPUs, h.PoolDrop = n.RandSeed, n.CPUs, n.PoolDrop
		default:
			h = n
		}
		p.Hosts = append(p.Hosts, h)
	}
	var ops []Op
	for f := range p.Filters {
		for d := range p.Docs {
			ops = append(ops, Op{K: "match", F: f, D: d, M: d})
			if p.Filters[f].Kind == "text" && d == 0 {
				ops = append(ops, Op{K: "get", F: f, D: d})
			}
		}
		ops = append(ops, Op{K: "own", F: f})
		ops = append(ops, Op{K: "match", F: f, D: r.Intn(len(p.Docs)), M: 9})
	}
	if d, err := parseJNode(string(p.Docs[0])); err == nil {
		ops = append(ops, Op{K: "remove", D: 0, Names: st.removeNames(r, d)})
	}
	p.Tasks = []TaskPlan{{ops}}
	return p
}

func (st *setting) faultedText(r *simrt.Rng, t string) string {
	for _, f := range st.faults(r, t, 1) {
		t = f.apply(t)
	}
	return t
}

// slowLoop is a loop of the slow matcher over something that is likely an object.
func slowLoop(r *simrt.Rng, st *setting) Filter {
	f := newFgen(r, st.v, st.docs)
	f.slow, f.funcs = true, false
	d := st.docs[r.Intn(len(st.docs))]
	x := &X{Op: "anyin", Var: 1, Kids: []*X{{Op: "field"}, nil}}
	var n *JNode
	for i, k := range d.Kids {
		if d.K == 'o' && k.K == 'o' {
			x.Kids[0].Path = []string{keyName(d.Keys[i])}
			n = k
		}
	}
	f.vars = []int{1}
	f.elem[1] = nil
	if n != nil && len(n.Kids) > 0 {
		f.elem[1] = n.Kids[r.Intn(len(n.Kids))]
	}
	if len(x.Kids[0].Path) == 0 {
		x.Kids[0].Path = []string{st.v.names[0]}
	}
	x.Kids[1] = f.leaf()
	return Filter{Kind: "slow", Exprs: []Blob{Blob(x.String())}}
}

func execC11(p *Plan) *Violation {
	var ref *world
	var refd []string
	for hi, h := range p.Hosts {
		before := simrt.Reads
		w := newWorld(p, h)
		var d []string
		for i, c := range w.filters {
			if c == nil {
				d = append(d, "rejected")
				_ = i
			} else {
				d = append(d, describe(c))
			}
		}
		w.run(-1, simrt.Sched{Policy: "serial"}, h)
		if simrt.Reads.Clock > before.Clock {
			probe("host: clock read")
		}
		if simrt.Reads.Map > before.Map {
			probe("host: map order used")
		}
		if simrt.Reads.Rand > before.Rand {
			probe("host: randomness used")
		}
		if simrt.Reads.Env > before.Env {
			probe("host: environment read")
		}
		for _, o := range w.outs[0] {
			stats.see(o)
		}
		if hi == 0 {
			ref, refd = w, d
			continue
		}
		countFault("another host")
		for f := range d {
			stats.evals++
			if d[f] != refd[f] {
				return viol("compile-differs", "", "filter %s: %q on host %+v, %q on host %+v", p.Filters[f].Exprs, refd[f], p.Hosts[0], d[f], h)
			}
		}
		for oi, op := range p.Tasks[0].Ops {
			stats.evals++
			a, b := ref.outs[0][oi], w.outs[0][oi]
			stats.nontrivial(hashStr(op.K, string(p.Docs[op.D]), fmt.Sprint(p.Filters[op.F].Exprs), fmt.Sprint(h)))
			if !a.same(b) {
				hb, _ := json.Marshal(h)
				ha, _ := json.Marshal(p.Hosts[0])
				return viol("result-differs", op.K, "%s of filter %s over %s: %v on host %s, %v on host %s", op.K, p.Filters[op.F].Exprs, p.Docs[op.D], a, ha, b, hb)
			}
		}
	}
	return nil
}

// ---- C12

func genC12(r *simrt.Rng, run uint64) *Plan {
	if r.Chance(1, 3) {
		return genC12Growth(r, run)
	}
	st := genSetting(r, 1+r.Intn(3))
	p := &Plan{Property: "C12", Kind: "stalled", Run: run}
	p.Docs = st.texts(r)
	for k := 1 + r.Intn(2); k > 0; k-- {
		p.Filters = append(p.Filters, st.filter(r, "jjjjjctsp"))
	}
	p.Host = genHost(r, false)
	n := 2 + r.Intn(3)
	many := r.Chance(1, 4)
	if many {
		n = 3 + r.Intn(14)
	}
	genWorldTasks(r, st, p, n, []string{"mmmm", "mmmr", "mmro", "mocrg"}[r.Intn(4)])
	if r.Chance(1, 5) {
		st.late(r, p, "jjjjctsp")
	}
	p.Sched = genSched(r, n)
	p.Sched.StallOne = true
	p.Sched.Forever = true
	p.Sched.StallT = r.Intn(n)
	p.Sched.StallAt = -int64(1 + r.Intn(999))
	if many {
		// Everybody but one is stalled.
		free := r.Intn(n)
		for i := 0; i < n; i++ {
			if i != free && i != p.Sched.StallT {
				p.Sched.More = append(p.Sched.More, simrt.Stall{T: i, At: -int64(1 + r.Intn(999))})
			}
		}
	}
	return p
}

func genC12Growth(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 1)
	p := &Plan{Property: "C12", Kind: "growth", Run: run, Host: soloEnv}
	// A document that can grow: an object with an array of similar elements, or many members.
	el := st.v.genNode(r, st.sh, 1)
	elems := &JNode{K: 'a', Kids: []*JNode{el}}
	for i := 0; i < 3; i++ {
		elems.Kids = append(elems.Kids, st.v.vary(r, el, st.sh, 2))
	}
	name := st.v.names[0]
	doc := &JNode{K: 'o'}
	for i, nm := range st.v.names[1:] {
		if i < 3 && r.Chance(1, 2) {
			doc.Keys = append(doc.Keys, st.v.key(r, nm))
			doc.Kids = append(doc.Kids, st.v.genNode(r, st.sh, 2))
		}
	}
	at := r.Intn(len(doc.Keys) + 1)
	doc.Keys = append(doc.Keys[:at], append([]string{quoteKey(name)}, doc.Keys[at:]...)...)
	doc.Kids = append(doc.Kids[:at], append([]*JNode{elems}, doc.Kids[at:]...)...)
	st.docs = []*JNode{doc}
	p.Docs = []Blob{Blob(renderJ(doc, wsStyle{r: r}))}
	for try := 0; ; try++ {
		f := newFgen(r, st.v, st.docs)
		f.loops = 5
		x := f.gen(0)
		if x.loopDepth() <= 1 {
			p.Filters = []Filter{{Kind: "json", Exprs: []Blob{Blob(x.String())}}}
			break
		}
	}
	p.N = 40 + r.Intn(120)
	if most := 100_000 / len(p.Docs[0]); p.N > most {
		p.N = most + 2
	}
	p.Tasks = []TaskPlan{{[]Op{{K: "remove", Names: st.removeNames(r, doc)}}}}
	how := r.Intn(3)
	if r.Chance(1, 2) {
		how = 3 + r.Intn(12)
	}
	p.Variants = []uint64{uint64(at), uint64(how)}
	if how < 2 && r.Chance(1, 2) {
		// Very many small ones
		p.Variants = append(p.Variants, 1)
		p.N = 400 + r.Intn(2000)
	}
	return p
}

func quoteKey(s string) string {
	q := quote(s, 0, nil)
	return q[1 : len(q)-1]
}

// loopDepth is how deep loops are nested in each other. The reference to a value from
// outside of a loop counts like a loop over it.
func (x *X) loopDepth() int { return x.loopsIn(0) }

func (x *X) loopsIn(own int) int {
	loop := x.Op == "anyin" || x.Op == "everyin" || x.Op == "anyeveryin"
	d := 0
	for i, k := range x.Kids {
		in := own
		if loop && i > 0 {
			in = x.Var
		}
		if n := k.loopsIn(in); n > d {
			d = n
		}
	}
	if loop || x.Op == "field" && x.Var != own {
		d++
	}
	return d
}

// grow repeats what the document has n times: elements of its arrays, members of
// its objects (under other names), characters of its strings, or its nesting.
func grow(d *JNode, at int, how int, n int, small bool) string {
	c := *d
	c.Kids = append([]*JNode(nil), d.Kids...)
	if d.K != 'o' || len(d.Kids) == 0 {
		return renderJ(&c, wsStyle{})
	}
	if at >= len(c.Kids) {
		at = len(c.Kids) - 1
	}
	e := c.Kids[at]
	if small {
		e = &JNode{K: 'l', Raw: "7"}
		if c.Kids[at].K == 'a' && how == 0 {
			e = &JNode{K: 'a', Kids: []*JNode{e}}
		}
	}
	switch {
	case how == 0 && e.K == 'a' && len(e.Kids) > 0:
		ne := &JNode{K: 'a'}
		for i := 0; i < n; i++ {
			ne.Kids = append(ne.Kids, e.Kids[i%len(e.Kids)])
		}
		c.Kids[at] = ne
	case how == 1:
		c.Keys = append([]string(nil), d.Keys...)
		for i := 0; i < n; i++ {
			c.Keys = append(c.Keys, fmt.Sprintf("g%d", i))
			c.Kids = append(c.Kids, e)
		}
	case how >= 3:
		n *= 6
		c.Kids[at] = &JNode{K: 'l', Raw: runOf(how, n)}
		if how == 8 || how == 9 {
			c.Keys = append([]string(nil), d.Keys...)
			lit := runOf(how-5, n)
			c.Keys = append(c.Keys, lit[1:len(lit)-1])
			c.Kids[at] = e
			c.Kids = append(c.Kids, e)
		}
	default:
		ne := &JNode{K: 'a', Kids: []*JNode{{K: 'l', Raw: `"` + strings.Repeat(`x\u00e9y`, n) + `"`}}}
		for i := 0; i < n/4; i++ {
			ne = &JNode{K: 'a', Kids: []*JNode{ne}}
		}
		c.Kids[at] = ne
	}
	return renderJ(&c, wsStyle{})
}

// runOf is a literal in which one thing repeats.
func runOf(how, n int) string {
	switch how {
	case 3:
		return `"` + strings.Repeat("x", 4*n) + `"`
	case 4:
		return `"` + strings.Repeat(`\\`, 2*n) + `"`
	case 5:
		return "1" + strings.Repeat("0", n)
	case 6:
		return "0." + strings.Repeat("1", 2*n)
	case 7:
		return `"` + strings.Repeat(`\ud83d\ude00`, n) + `"`
	case 10:
		return strings.Repeat(" \n\t", n) + "1" + strings.Repeat(" ", n)
	case 11:
		return `"` + strings.Repeat("é", 2*n) + `"`
	case 12:
		return strings.Repeat("[", n/4) + strings.Repeat("]", n/4)
	case 13:
		return strings.Repeat(`{"a":`, n/8) + "1" + strings.Repeat("}", n/8)
	case 14:
		return `[` + strings.Repeat(`{},`, n) + `[]]`
	}
	return "1"
}

func execC12(p *Plan) *Violation {
	if p.Kind == "growth" {
		return execC12Growth(p)
	}
	alone, steps := runAlone(p)
	for ti := range alone {
		for oi, o := range alone[ti] {
			if o.Kind == "hung" || o.Kind == "blocked" {
				op := p.Tasks[ti].Ops[oi]
				return viol("hung", op.K, "%s of filter %d over %q, alone: %v", op.K, op.F, op.text(p), o)
			}
		}
	}
	w := newWorld(p, p.Host)
	sched := settle(p.Sched, steps)
	w.run(-1, sched, p.Host)
	stats.evals++
	if w.sim.Stalls > 0 && w.tasks[sched.StallT].InOp() {
		stats.nontrivial(hashStr(fmt.Sprint(w.signature()), fmt.Sprint(w.tasks[sched.StallT].Site()), fmt.Sprint(w.sim.Hash)))
	}
	if w.sim.Stalls > 0 {
		stats.nontrivial(hashStr(fmt.Sprint(w.signature()), fmt.Sprint(w.sim.Hash)))
	}
	var v *Violation
	for ti := range p.Tasks {
		for oi, op := range p.Tasks[ti].Ops {
			o := w.outs[ti][oi]
			stats.see(o)
			if v == nil && (o.Kind == "hung" || o.Kind == "blocked") && !wasStalled(sched, w.sim, ti) {
				v = viol("waits", op.K, "task %d operation %d (%s) does not end while other callers are stalled (%d callers): %v", ti, oi, op.K, len(p.Tasks), o)
			}
		}
	}
	if v != nil {
		if sched.Policy != "replay" && len(w.sim.StalledIDs) > 0 {
			sched.StallT, sched.More = w.sim.StalledIDs[0], nil
			for _, id := range w.sim.StalledIDs[1:] {
				sched.More = append(sched.More, simrt.Stall{T: id})
			}
		}
		p.Sched = recorded(sched, w.sim)
	}
	return v
}

// wasStalled tells whether a task was one of those that were stalled.
func wasStalled(s simrt.Sched, sim *simrt.Sim, ti int) bool {
	if s.Policy != "replay" {
		for _, id := range sim.StalledIDs {
			if id == ti {
				return true
			}
		}
		return false
	}

	for _, m := range s.More {
		if m.T == ti {
			return true
		}
	}
	return ti == s.StallT
}

func execC12Growth(p *Plan) *Violation {
	simrt.SetIdleEnv(p.Host)
	resetProcess()
	c, _ := hostCompile(p.Filters[0])
	d, err := parseJNode(string(p.Docs[0]))
	if c == nil || err != nil || len(p.Variants) < 2 {
		return nil
	}
	at, how := int(p.Variants[0]), int(p.Variants[1])
	deep := false
	for _, t := range p.Filters[0].Exprs {
		if x, err := parseX(string(t)); err != nil || x.loopDepth() > 1 {
			deep = true
		}
	}
	var steps, rsteps [3]int64
	var size [3]int
	for k := range steps {
		text := grow(d, at, how, p.N<<uint(k), len(p.Variants) > 2)
		size[k] = len(text)
		getArena().reset()
		var o Outcome
		data := []byte(text)
		bound := 60_000_000 + 200*int64(len(text))
		solo(&o, bound, func(o *Outcome) { doMatch(o, c.matcher(), len(c.exprs), data, false) })
		stats.see(o)
		if o.Kind == "hung" {
			return viol("hung", "match", "a match of %d bytes does not end within %d steps: %v", len(text), bound, o)
		}
		steps[k] = o.Steps
		var ro Outcome
		names := p.Tasks[0].Ops[0].Names
		solo(&ro, bound, func(o *Outcome) {
			n, cnt, left, err := g.MatchAndRemoveItemsFromJsonObject(data, names, make([]byte, len(data)), map[string][]byte{})
			_, _, _ = n, cnt, left
			o.Kind = "ok"
			if err != nil {
				o.Kind = "err"
			}
		})
		if ro.Kind == "hung" {
			return viol("hung", "remove", "a removal from %d bytes does not end within %d steps: %v", len(text), bound, ro)
		}
		rsteps[k] = ro.Steps
		// Reset does not depend on the document at all.
	}
	stats.evals++
	stats.nontrivial(hashStr(string(p.Filters[0].Exprs[0]), string(p.Docs[0]), fmt.Sprint(at, how, p.N)))
	check := func(what string, st [3]int64) *Violation {
		for k := 1; k < 3; k++ {
			f := float64(size[k]) / float64(size[k-1])
			if float64(st[k]) > 1.3*f*float64(st[k-1])+20_000 && float64(st[k]-st[k-1]) > 1.3*2.05*float64(maxI64(st[k-1], 1)) {
				return viol("growth", what, "%s over a document of %d, %d and %d bytes takes %d, %d and %d steps", what, size[0], size[1], size[2], st[0], st[1], st[2])
			}
		}
		return nil
	}
	// An early exit may come to lie behind the end of the smaller document, so the
	// match is only held to what a pass over the whole document costs.
	if steps[0] > int64(size[0]) && !deep {
		if v := check("match", steps); v != nil {
			return v
		}
	}
	return check("remove", rsteps)
}

func maxI64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// ---- C13

func genC13(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 1+r.Intn(2))
	p := &Plan{Property: "C13", Kind: "texts", Run: run, Host: soloEnv}
	p.Docs = st.texts(r)
	kinds := []string{"raw", "raw", "simple", "simple", "text"}
	kind := kinds[r.Intn(len(kinds))]
	n := 8
	if kind == "text" {
		n = 3
	}
	mk := func() string {
		switch kind {
		case "text":
			return genText(r, st.v, st.docs)
		case "simple":
			return genSimple(r, st.v, st.docs)
		}
		f := newFgen(r, st.v, st.docs)
		x := f.gen(0).String()
		if r.Chance(1, 2) {
			x = mutateJSON(r, x)
		}
		return x
	}
	var ops []Op
	for i := 0; i < n; i++ {
		text := mk()
		p.Filters = append(p.Filters, Filter{Kind: kind, Exprs: []Blob{Blob(text)}})
		op := Op{K: "parse", F: i}
		cur := text
		for k := r.Intn(4); k > 0; k-- {
			f := genTextFault(r, cur, mk(), kind)
			cur = f.apply(cur)
			op.Fault = append(op.Fault, f)
		}
		ops = append(ops, op)
	}
	p.Tasks = []TaskPlan{{ops}}
	return p
}

var textToks = []string{"(", ")", " AND ", " OR ", " NOT ", " IS ", " NULL", "`", "\"", "'", ".", "[", "]", "-", "+", "*", "/", "%", "=", "==", "<>", "!=", "<", "<=", ">", ">=", "!", "&&", "||", " EXISTS", "EXISTS(", "PI()", "E()", "PI", "E", "ABS(", "DATE(", "POW(", ",", "TRUE", "FALSE", "true", "false",
	"1", "1.5", "a", " ", "REGEXP_CONTAINS(", "META()", "META().id", "META().xattrs.a", "=~", " LIKE ", "\\", "[-1]", "[0]", "[]", "[-0]", "[01]", "[1][2]", "[99999999999999999999]", "((", "))", "()", "``", "\"\"", "''", "$", "$a", "$doc", "..", ".a", "a.", "`a`.`b`", "` `", "`a.b`", "a[0]", "a[0].b[1]", "[0].a", "\"\\\"\"", "\"\\\"", "0", "-0", "00", ".5", "5.", "--1", "+1", "1e5", "1E400", "-9223372036854775808", "9223372036854775808", "123456789012345678901234567890", "0.0000000000000000000000000000001", "0x1", "\xff", "\u00e9", "\u65e5\u672c", "\x00", "\n", "\t", "\r\n",
	" IS NULL", " IS NOT NULL", " IS MISSING", " IS NOT MISSING", " IS NOT", " NOT NOT ", " MISSING", "REGEXP_CONTAINS(a,\"(\")", "REGEXP_CONTAINS(a,\"\")", "REGEXP_CONTAINS(a,\"[\")", "REGEXP_CONTAINS(a,\"(?=x)\")", "REGEXP_CONTAINS(a,\"x\\\\\")", "REGEXP_CONTAINS(a,\"\\\\y\")", "REGEXP_CONTAINS(a,\"\\\\pz\")", "REGEXP_CONTAINS(a,\"a**\")", "REGEXP_CONTAINS(a,\"a{2,1}\")", "REGEXP_CONTAINS(a,\"[b-a]\")", "\\\\", "\\y", "\\\\y", "REGEXP_CONTAINS(a,b)", "DATE(\"x\")", "DATE(\"\")", "DATE()", "DATE(a)", "DATE(\"2018-13-45\")", "DATE(\"2018-01-02T03:04:05Z\")", "ROUND()", "POW(a)", "POW(a,2)", "POW(a,b,c)", "POW(,)", "POW(2,a)", "ABS(ABS(a))", "ABS()", "ATAN2(a,1)", "MOD(a,0)", "/0", "%0", "SQRT(-1)", "LN(0)", "/*", "--", "//", ";", "{", "}", "#", "@", "~", "^", "&", "|", "?", ":"}

// lex splits a filter text into its tokens, roughly.
func lex(s string) []string {
	var out []string
	class := func(c byte) int {
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			return 1
		case c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			return 2
		}
		return 0
	}
	for i := 0; i < len(s); {
		j := i + 1
		switch c := s[i]; {
		case c == '"' || c == '`' || c == '\'':
			for j < len(s) && s[j] != c {
				j++
			}
			j = minInt(j+1, len(s))
		case class(c) != 0:
			for j < len(s) && class(s[j]) == class(c) {
				j++
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

// genTokenFault damages a filter text token by token: it loses, repeats, exchanges,
// hollows or gains some.
func genTokenFault(r *simrt.Rng, data, other string) Fault {
	toks := lex(data)
	i := r.Intn(len(toks))
	for try := 0; try < 2 && strings.TrimSpace(toks[i]) == ""; try++ {
		i = r.Intn(len(toks))
	}
	at := 0
	for _, t := range toks[:i] {
		at += len(t)
	}
	t := toks[i]
	f := Fault{Kind: "replace", At: at, N: len(t)}
	pick := func() string {
		if o := lex(other); len(o) > 0 && r.Chance(1, 4) {
			return o[r.Intn(len(o))]
		}
		return textToks[r.Intn(len(textToks))]
	}
	switch r.Intn(8) {
	case 0: // lost
	case 1: // twice
		f.B = Blob(t + []string{"", " ", ".", ","}[r.Intn(4)] + t)
	case 2: // exchanged with the next one
		if i+1 < len(toks) {
			k := i + 1
			if k+1 < len(toks) && strings.TrimSpace(toks[k]) == "" {
				k++
			}
			mid := strings.Join(toks[i+1:k], "")
			f.N = len(t) + len(mid) + len(toks[k])
			f.B = Blob(toks[k] + mid + t)
		}
	case 3: // hollow
		if len(t) >= 2 && strings.IndexByte("\"`'", t[0]) >= 0 {
			f.B = Blob(t[:1] + t[len(t)-1:])
		} else {
			f.B = Blob([]string{"``", "\"\"", "''", "()", "[]"}[r.Intn(5)])
		}
	case 4: // shortened or lengthened by a character
		if len(t) > 1 && r.Chance(1, 2) {
			f.B = Blob(t[:len(t)-1])
		} else {
			f.B = Blob(t + string(rune("0a`\".-(["[r.Intn(8)])))
		}
	case 5:
		f.N = 0
		f.B = Blob(pick())
	default:
		f.B = Blob(pick())
	}
	return f
}

func genTextFault(r *simrt.Rng, data, other, kind string) Fault {
	if kind != "raw" && r.Chance(3, 4) && len(data) > 0 {
		return genTokenFault(r, data, other)
	}
	return genFault(r, data, other)
}

// mutateJSON exchanges, drops or repeats parts of a JSON text, which stays JSON.
func mutateJSON(r *simrt.Rng, s string) string {
	var v interface{}
	if json.Unmarshal([]byte(s), &v) != nil {
		return s
	}
	var nodes []*interface{}
	var walk func(p *interface{})
	walk = func(p *interface{}) {
		nodes = append(nodes, p)
		if a, ok := (*p).([]interface{}); ok {
			for i := range a {
				walk(&a[i])
			}
		}
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		nodes = nodes[:0]
		walk(&v)
		p := nodes[r.Intn(len(nodes))]
		switch r.Intn(6) {
		case 0:
			*p = []interface{}{nil, true, 1.0, -1.5, "x", "equals", "field", []interface{}{}, map[string]interface{}{"a": 1.0}, 1e30}[r.Intn(10)]
		case 1:
			q := nodes[r.Intn(len(nodes))]
			b, _ := json.Marshal(*q)
			var c interface{}
			json.Unmarshal(b, &c)
			*p = c
		case 2, 3:
			if a, ok := (*p).([]interface{}); ok && len(a) > 0 {
				i := r.Intn(len(a))
				*p = append(append([]interface{}{}, a[:i]...), a[i+1:]...)
			}
		case 4:
			if a, ok := (*p).([]interface{}); ok && len(a) > 0 {
				i := r.Intn(len(a))
				*p = append(append(append([]interface{}{}, a[:i]...), a[i]), a[i:]...)
			}
		default:
			if _, ok := (*p).(string); ok {
				ops := []string{"and", "or", "not", "equals", "exists", "notexists", "like", "func", "field", "value", "regex", "time", "anyin", "everyin", "anyeveryin", "lessthan", "mathAbs", "date", "(", "2018-13-45", ""}
				*p = ops[r.Intn(len(ops))]
			}
		}
	}
	b, err := json.Marshal(v)
	if err != nil {
		return s
	}
	return string(b)
}

func execC13(p *Plan) *Violation {
	simrt.SetIdleEnv(p.Host)
	resetProcess()
	for _, op := range p.Tasks[0].Ops {
		f := p.Filters[op.F]
		text := string(f.Exprs[0])
		for _, ft := range op.Fault {
			t2 := ft.apply(text)
			if t2 != text {
				countFault(ft.Kind)
			}
			text = t2
		}
		stats.evals++
		stats.nontrivial(hashStr(f.Kind, text))
		var m matcher
		var o Outcome
		solo(&o, parseBound(len(text)), func(o *Outcome) {
			var err error
			var e g.Expression
			switch f.Kind {
			case "text":
				var mm g.Matcher
				mm, err = g.GetFilterExpressionMatcher(text)
				if err == nil {
					m = mm.(matcher)
				}
			case "simple":
				e, err = g.ParseSimpleExpression(text)
			default:
				e, err = g.ParseJsonExpression([]byte(text))
			}
			// What was accepted is a filter in full.
			if err == nil && m == nil {
				o.Detail = e.String()
			}
			o.Kind = "ok"
			if err != nil {
				o.Kind, o.Detail = "err", err.Error()
			}
		})
		stats.see(o)
		probe(f.Kind + ": " + o.Kind)
		if o.bad() || o.Kind == "fault" {
			return viol(o.Kind, siteOf(o), "parsing the %s filter %q: %v", f.Kind, text, o)
		}
		if m == nil {
			continue
		}
		for _, d := range p.Docs {
			var mo Outcome
			data := []byte(d)
			solo(&mo, matchBound(string(d), &compiled{length: len(text), depth: 2}), func(o *Outcome) {
				m.Reset()
				doMatch(o, m, 1, data, false)
			})
			stats.see(mo)
			if mo.bad() || mo.Kind == "fault" {
				return viol("match-"+mo.Kind, siteOf(mo), "matching %s against the filter %q: %v", d, text, mo)
			}
		}
	}
	return nil
}

func siteOf(o Outcome) string {
	if i := strings.LastIndex(o.Detail, " at "); i >= 0 {
		return o.Detail[i+4:]
	}
	return ""
}

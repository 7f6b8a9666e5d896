//go:build go1.24

package main

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	g "github.com/couchbaselabs/gojsonsm"
	"github.com/couchbaselabs/gojsonsm/simrt"
)

// ---- C14: long lives

// A cycle is what a caller does again and again in its long life: each time with
// documents and filters of the same size, but with other values in them.
func genC14(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 1+r.Intn(3))
	p := &Plan{Property: "C14", Kind: "cycles", Run: run, Host: soloEnv}
	p.Host = genHost(r, false)
	p.Docs = st.texts(r)
	kinds := "jjjjjjjcssp"
	if r.Chance(1, 40) {
		kinds = "t"
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		p.Filters = append(p.Filters, st.filter(r, kinds))
	}
	if r.Chance(2, 3) {
		for i, d := range p.Docs {
			p.Docs[i] = withStamps(d)
		}
		for i, f := range p.Filters {
			p.Filters[i] = withProbe(r, f)
		}
	}
	var ops []Op
	n := 2 + r.Intn(5)
	for k := 0; k < n; k++ {
		op := Op{D: r.Intn(len(p.Docs)), F: r.Intn(len(p.Filters)), M: r.Intn(3), Flag: r.Chance(1, 2)}
		switch r.Intn(10) {
		case 0, 1, 2, 3, 4:
			op.K = "match"
		case 5:
			op.K = "match"
			if r.Chance(1, 4) {
				op.Fault = []Fault{{Kind: "unreadable", At: r.Intn(len(p.Docs[op.D]) + 1)}}
			} else {
				op.Fault = st.faults(r, string(p.Docs[op.D]), 1)
			}
		case 6:
			op.K = "fresh"
		case 7:
			op.K = "remove"
			if d, err := parseJNode(string(p.Docs[op.D])); err == nil {
				op.Names = append(st.removeNames(r, d), "zr")
			}
			op.N = r.Intn(4)
		default:
			op.K = "own"
		}
		ops = append(ops, op)
	}
	p.Tasks = []TaskPlan{{ops}}
	p.N = 8
	return p
}

// withStamps adds members to a document which are different in each cycle.
func withStamps(d Blob) Blob {
	n, err := parseJNode(string(d))
	if err != nil || n.K != 'o' {
		return d
	}
	for _, m := range []string{`"zd":""`, `"zs":""`, `"zn":0`, `"zl":[""]`, `"zr":0`} {
		x, err := parseJNode("{" + m + "}")
		if err != nil {
			panic(err)
		}
		n.Keys = append(n.Keys, x.Keys[0])
		n.Kids = append(n.Kids, x.Kids[0])
	}
	return Blob(renderJ(n, wsStyle{}))
}

var probes = []string{
	`["lessthan",["func","date",["field","zd"]],["time","2018-01-15"]]`,
	`["equals",["field","zd"],["time","2018-01-15"]]`,
	`["like",["field","zs"],["regex","^s0*1"]]`,
	`["lessthan",["field","zs"],["value","s000700"]]`,
	`["lessthan",["func","mathSqrt",["func","mathAbs",["field","zn"]]],["value",1000]]`,
	`["greaterthan",["field","zs"],["field","zn"]]`,
	`["equals",["field","zl"],["field","zs"]]`,
	`["anyin",77,["field","zl"],["lessthan",["field",77],["value","s000700"]]]`,
	`["everyin",77,["field","zl"],["equals",["field",77],["field","zs"]]]`,
}

// withProbe makes a filter read members which are different in each cycle.
func withProbe(r *simrt.Rng, f Filter) Filter {
	out := Filter{Kind: f.Kind}
	for _, t := range f.Exprs {
		pr := probes[r.Intn(len(probes))]
		switch f.Kind {
		case "text":
			pr = []string{`DATE(zd) < DATE("2018-01-15")`, `REGEXP_CONTAINS(zs, "^s0*1")`, `zs < "s000700"`, `SQRT(zn) < 1000`, `zs > zn`}[r.Intn(5)]
			t = Blob(pr+" OR ") + t
		case "simple":
			pr = []string{`DATE(zd) < DATE("2018-01-15")`, `zs =~ "^s0*1"`, `zs < "s000700"`, `SQRT(zn) < 1000`, `zs > zn`}[r.Intn(5)]
			t = Blob(pr+" || ") + t
		case "slow":
			if strings.Contains(pr, "everyin") || strings.Contains(pr, "regex") || strings.Contains(pr, "func") || strings.Contains(pr, "time") {
				pr = probes[3]
			}
			t = Blob(fmt.Sprintf(`["or",%s,%s]`, pr, t))
		default:
			t = Blob(fmt.Sprintf(`["%s",%s,%s]`, []string{"or", "and"}[r.Intn(2)], pr, t))
		}
		out.Exprs = append(out.Exprs, t)
	}
	return out
}

// stampJ puts values of cycle c into a document, without changing its size from one
// cycle to another.
func stampJ(n *JNode, c int, k *int) *JNode {
	*k++
	how := int(hashStr(fmt.Sprint("stamp", *k)) % 5)
	m := &JNode{K: n.K, Raw: n.Raw}
	if n.K == 'l' {
		switch n.Raw[0] {
		case '"':
			switch how {
			case 0, 1:
				m.Raw = fmt.Sprintf(`"s%06d"`, c)
			case 2:
				m.Raw = fmt.Sprintf(`"\u00e9s%06d"`, c)
			case 3:
				m.Raw = fmt.Sprintf(`"2018-01-%02dT%02d:%02d:%02dZ"`, 1+c/86400, c/3600%24, c/60%60, c%60)
			}
		case 't', 'f', 'n':
		default:
			switch how {
			case 0, 1:
				m.Raw = fmt.Sprintf("1%06d", c)
			case 2:
				m.Raw = fmt.Sprintf("1%06d.5", c)
			}
		}
		return m
	}
	for i, kid := range n.Kids {
		if n.K == 'o' {
			key := n.Keys[i]
			m.Keys = append(m.Keys, key)
			switch key {
			case "zd":
				m.Kids = append(m.Kids, &JNode{K: 'l', Raw: fmt.Sprintf(`"2018-01-%02dT%02d:%02d:%02dZ"`, 1+c/86400, c/3600%24, c/60%60, c%60)})
				continue
			case "zs":
				m.Kids = append(m.Kids, &JNode{K: 'l', Raw: fmt.Sprintf(`"s%06d"`, c)})
				continue
			case "zl":
				m.Kids = append(m.Kids, &JNode{K: 'a', Kids: []*JNode{{K: 'l', Raw: fmt.Sprintf(`"s%06d"`, c)}, {K: 'l', Raw: fmt.Sprintf(`"s%06d"`, c+1)}}})
				continue
			case "zn":
				m.Kids = append(m.Kids, &JNode{K: 'l', Raw: fmt.Sprintf("1%06d", c)})
				continue
			}
			if key == "zr" || strings.HasPrefix(key, "z") && how%2 == 0 {
				m.Keys[len(m.Keys)-1] = fmt.Sprintf("%s%06d", key, c)
			}
		}
		m.Kids = append(m.Kids, stampJ(kid, c, k))
	}
	return m
}

func stampDoc(text string, c int) string {
	n, err := parseJNode(text)
	if err != nil {
		return text
	}
	k := 0
	return renderJ(stampJ(n, c, &k), wsStyle{})
}

// stampFilter adds a condition with a value of cycle c.
func stampFilter(f Filter, c, how int) Filter {
	out := Filter{Kind: f.Kind}
	for _, t := range f.Exprs {
		switch f.Kind {
		case "text":
			t += Blob([]string{fmt.Sprintf(` AND zz = "s%06d"`, c), fmt.Sprintf(` OR REGEXP_CONTAINS(zz, "^s%06d")`, c), fmt.Sprintf(` OR zz = 1%06d`, c)}[how%3])
		case "simple":
			t += Blob([]string{fmt.Sprintf(` && zz == "s%06d"`, c), fmt.Sprintf(` || zz =~ "^s%06d"`, c), fmt.Sprintf(` || zz == 1%06d`, c)}[how%3])
		case "slow":
			t = Blob(fmt.Sprintf(`["or",%s,["equals",["field","zz"],["value","s%06d"]]]`, t, c))
		default:
			t = Blob(fmt.Sprintf([]string{`["or",%s,["equals",["field","zz"],["value","s%06d"]]]`, `["or",%s,["like",["field","zz"],["regex","^s%06d"]]]`, `["and",%s,["equals",["field","zz%06d"],["value",1]]]`}[how%3], t, c))
		}
		out.Exprs = append(out.Exprs, t)
	}
	return out
}

// retained is how many bytes can be reached from the roots.
type keeper struct {
	seen map[[3]uintptr]bool
	n    int64
}

func retained(roots ...interface{}) int64 {
	k := &keeper{seen: map[[3]uintptr]bool{}}
	for _, r := range roots {
		if r != nil {
			k.walk(reflect.ValueOf(r), 0)
		}
	}
	return k.n
}

func (k *keeper) visit(p unsafe.Pointer, t reflect.Type, n int) bool {
	key := [3]uintptr{uintptr(p), uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&t))[1]), uintptr(n)}
	if p == nil || k.seen[key] {
		return false
	}
	k.seen[key] = true
	return true
}

// plain tells that values of the type lead nowhere.
func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	}
	return false
}

func (k *keeper) walk(v reflect.Value, depth int) {
	if depth > 200_000 || plain(v.Type()) {
		return
	}
	t := v.Type()
	switch t.Kind() {
	case reflect.String:
		// Every holder counts: whether two equal strings share their bytes
		// is up to encoding/json, which interns short ones in pooled
		// decoders, and so differs from run to run.
		k.n += int64(v.Len())
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if pkg := t.Elem().PkgPath(); pkg == "regexp" || pkg == "time" || pkg == "reflect" {
			if k.visit(v.UnsafePointer(), t, 0) {
				k.n += 64
			}
			return
		}
		if k.visit(v.UnsafePointer(), t, 0) {
			k.n += int64(t.Elem().Size())
			k.walk(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		v = v.Slice3(0, v.Len(), v.Len())
		if k.visit(v.UnsafePointer(), t, v.Len()) {
			// What is behind the length was paid for as well, but only what is in use
			// can be told from what a caller has handed in.
			k.n += int64(v.Len()) * int64(t.Elem().Size())
			if !plain(t.Elem()) {
				for i := 0; i < v.Len(); i++ {
					k.walk(v.Index(i), depth+1)
				}
			}
		}
	case reflect.Array:
		if !plain(t.Elem()) {
			for i := 0; i < v.Len(); i++ {
				k.walk(v.Index(i), depth+1)
			}
		}
	case reflect.Struct:
		if strings.HasSuffix(t.PkgPath(), "/ssync") && t.Name() == "Pool" {
			return // a garbage collection empties it
		}
		for i := 0; i < v.NumField(); i++ {
			k.walk(v.Field(i), depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			e := v.Elem()
			k.n += int64(e.Type().Size())
			k.walk(e, depth+1)
		}
	case reflect.Map:
		if v.IsNil() || !k.visit(v.UnsafePointer(), t, 0) {
			return
		}
		k.n += int64(v.Len()) * int64(t.Key().Size()+t.Elem().Size()+1)
		it := v.MapRange()
		for it.Next() {
			k.walk(it.Key(), depth+1)
			k.walk(it.Value(), depth+1)
		}
	}
}

// life is one long life: the objects which stay.
type life struct {
	p       *Plan
	filters []*compiled
	own     []*compiled
	ownM    []matcher
	ms      map[int]matcher
	trans   g.Transformer
}

func newLife(p *Plan) *life {
	simrt.SetIdleEnv(p.Host)
	resetProcess()
	l := &life{p: p, ms: map[int]matcher{}, own: make([]*compiled, len(p.Filters)), ownM: make([]matcher, len(p.Filters))}
	for _, f := range p.Filters {
		c, _ := hostCompile(f)
		l.filters = append(l.filters, c)
	}
	return l
}

func (l *life) text(op Op, c int) string {
	t := stampDoc(string(l.p.Docs[op.D]), c)
	for _, f := range op.Fault {
		if f.Kind != "unreadable" {
			t = f.apply(t)
		}
	}
	return t
}

// cycle does everything once and returns the steps of each operation.
func (l *life) cycle(c int) []int64 {
	ops := l.p.Tasks[0].Ops
	steps := make([]int64, len(ops))
	for i, op := range ops {
		getArena().reset()
		text := l.text(op, c)
		readable := -1
		for _, f := range op.Fault {
			countFault(f.Kind)
			if f.Kind == "unreadable" {
				readable = minInt(f.At, len(text))
			}
		}
		var o Outcome
		f := l.filters[op.F]
		if f == nil {
			continue
		}
		switch op.K {
		case "match", "fresh":
			// Kept documents would be memory of the caller: they come from one place.
			data := getArena().place(text, readable).data
			solo(&o, matchBound(text, f), func(o *Outcome) {
				m := l.ms[op.M*100+op.F]
				if op.K == "fresh" {
					m = f.matcher()
				} else if m == nil {
					m = f.matcher()
					l.ms[op.M*100+op.F] = m
				} else {
					m.Reset()
				}
				doMatch(o, m, len(f.exprs), data, op.Flag)
			})
		case "own":
			var made *compiled
			solo(&o, callBound, func(o *Outcome) {
				t := &l.trans
				if op.Flag {
					t = new(g.Transformer)
				}
				var err error
				made, err = compileFilter(stampFilter(l.p.Filters[op.F], c, op.M), t)
				o.Kind = "ok"
				if err != nil {
					o.Kind, o.Detail = "err", err.Error()
				}
			})
			l.own[op.F] = made
			l.ownM[op.F] = nil
			if made != nil {
				// It has to be as good as one that was compiled at the start.
				var mo Outcome
				data := []byte(text)
				bound := matchBound(text, made)
				if bound > 0 {
					bound += 10_000_000
				}
				solo(&mo, bound, func(o *Outcome) {
					m := made.matcher()
					l.ownM[op.F] = m
					doMatch(o, m, len(made.exprs), data, false)
					m.Reset()
				})
				o.Steps += mo.Steps
			}
		case "remove":
			solo(&o, callBound, func(o *Outcome) {
				removed := map[string][]byte{}
				dst := make([]byte, len(text)+1-op.N%2)
				if op.N > 1 {
					dst, removed = nil, nil
				}
				names := append([]string{}, op.Names...)
				for i, nm := range names {
					if nm == "zr" {
						names[i] = fmt.Sprintf("zr%06d", c)
					}
				}
				_, _, _, err := g.MatchAndRemoveItemsFromJsonObject([]byte(text), names, dst, removed)
				o.Kind = "ok"
				if err != nil {
					o.Kind, o.Detail = "err", err.Error()
				}
			})
		}
		stats.see(o)
		steps[i] = o.Steps
	}
	return steps
}

func (l *life) keeps() int64 {
	roots := g.SimGlobals()
	for _, c := range l.filters {
		roots = append(roots, c)
	}
	for _, c := range l.own {
		roots = append(roots, c)
	}
	for _, m := range l.ownM {
		if m != nil {
			roots = append(roots, m)
		}
	}
	for op := 0; op < 3; op++ {
		for f := range l.filters {
			if m := l.ms[op*100+f]; m != nil {
				roots = append(roots, m)
			}
		}
	}
	roots = append(roots, &l.trans)
	return retained(roots...)
}

func execC14(p *Plan) *Violation {
	l := newLife(p)
	ops := p.Tasks[0].Ops
	// Twice, because resetting a matcher costs steps which making it does not.
	first := l.cycle(0)
	for i, n := range l.cycle(0) {
		first[i] = maxI64(first[i], n)
	}
	c := 1
	left := leftBehind
	// What is in memory may depend on the last cycle, so the largest of some is taken.
	until := func(n int) int64 {
		var max int64
		for ; c < n; c++ {
			l.cycle(c)
			if c >= n-4 {
				max = maxI64(max, l.keeps())
			}
		}
		return max
	}
	k1 := until(p.N)
	k2 := until(3 * p.N)
	left2 := leftBehind
	k3 := until(9 * p.N)
	if a, b := left2-left, leftBehind-left2; a >= p.N && b >= 3*p.N {
		return viol("leaks", "", "%d goroutines that will never end were left behind in the first %d cycles and %d in the next %d", a, 3*p.N, b, 6*p.N)
	}
	stats.evals++
	stats.nontrivial(hashStr(fmt.Sprint(ops), fmt.Sprint(p.Filters), fmt.Sprint(p.Docs)))
	probe(fmt.Sprintf("cycles: %d", 9*p.N))
	if k3 > k2 && k2 > k1 {
		// Memory may be filling up to a bound: go on for long.
		probe("growth looked into")
		n := 4000
		if p.Filters[0].Kind == "text" {
			n = 600
		}
		k4 := until(n)
		k5 := until(2 * n)
		if k5-k4 >= int64(n)/2 {
			return viol("retains", "", "after %d, %d, %d, %d and %d cycles %d, %d, %d, %d and %d bytes are kept", p.N, 3*p.N, 9*p.N, n, 2*n, k1, k2, k3, k4, k5)
		}
	}
	again := l.cycle(0)
	for i := range ops {
		if again[i] > first[i]+first[i]/4+300 {
			return viol("slower", ops[i].K, "operation %d (%s) takes %d steps after %d cycles; it took %d", i, ops[i].K, again[i], c, first[i])
		}
	}
	return nil
}

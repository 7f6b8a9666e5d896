//go:build go1.24

package main

import (
	"fmt"
	"strings"
	"syscall"
	"unsafe"

	g "github.com/couchbaselabs/gojsonsm"
	"github.com/couchbaselabs/gojsonsm/simrt"
)

func resetProcess() { g.SimReset() }

// ---- C05

func genC05(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 2+r.Intn(2))
	if st.v.esc == 0 && r.Chance(1, 2) {
		st.v.esc = 2
		for i := range st.docs {
			st.docs[i] = st.v.vary(r, st.docs[i], st.sh, 0)
		}
	}
	p := &Plan{Property: "C05", Run: run, Host: soloEnv}
	p.Docs = st.texts(r)
	p.N = r.Intn(1000)
	if p.N%3 == 0 && r.Chance(2, 3) {
		// One buffer for all documents, which are equally long.
		for i := range p.Docs {
			p.Docs[i] = Blob(strings.TrimSpace(string(p.Docs[i])))
		}
		padDocs(p.Docs)
	}
	switch r.Intn(6) {
	case 0:
		p.Kind = "remove"
		for i := range p.Docs {
			p.Docs[i] = Blob(strings.TrimSpace(string(p.Docs[i])))
			d, err := parseJNode(string(p.Docs[i]))
			op := Op{K: "remove", D: i, M: r.Intn(2)}
			if err == nil {
				op.Names = st.removeNames(r, d)
			}
			if r.Chance(1, 4) {
				p.Docs[i] = Blob(genFault(r, string(p.Docs[i]), "").apply(string(p.Docs[i])))
			}
			p.Tasks = append(p.Tasks, TaskPlan{[]Op{op}})
		}
	case 1:
		p.Kind = "compile"
		f := newFgen(r, st.v, st.docs)
		p.Filters = []Filter{{Kind: "raw", Exprs: f.filter(1 + r.Intn(2)).Exprs}}
		if r.Chance(1, 4) {
			t := &p.Filters[0].Exprs[0]
			*t = Blob(genFault(r, string(*t), "").apply(string(*t)))
		}
	default:
		p.Kind = "match"
		p.Filters = []Filter{st.filter(r, "jjjjjjccts")}
		var ops []Op
		for k := 2 + r.Intn(3); k > 0; k-- {
			op := Op{K: "match", D: r.Intn(len(p.Docs)), N: r.Intn(3), M: r.Intn(4)}
			if r.Chance(1, 6) {
				op.Fault = st.faults(r, string(p.Docs[op.D]), 1)
			}
			ops = append(ops, op)
		}
		p.Tasks = []TaskPlan{{ops}}
	}
	return p
}

// input is a buffer of a caller: write-protected, and with spare capacity at times.
func input(text string, spare int) (*region, []byte) {
	reg := getArena().place(text+strings.Repeat("\x00", spare), -1)
	if reg.heap {
		return reg, reg.data[:len(text)]
	}
	return reg, reg.data[: len(text) : len(text)+spare]
}

// refill reads a document into the one buffer which the caller has.
func refill(buf **region, text string) (*region, []byte) {
	if *buf == nil || (*buf).heap || len((*buf).data) < len(text) {
		*buf = getArena().place(text+strings.Repeat(" ", 200), -1)
	}
	b := *buf
	b.protect(syscall.PROT_READ | syscall.PROT_WRITE)
	copy(b.data, text)
	b.protect(syscall.PROT_READ)
	countFault("buffer reused")
	return b, b.data[:len(text)]
}

func execC05(p *Plan) *Violation {
	simrt.SetIdleEnv(p.Host)
	switch p.Kind {
	case "match":
		return execC05Match(p)
	case "compile":
		return execC05Compile(p)
	}
	return execC05Remove(p)
}

// disturb makes the buffer unusable for what it was used for.
func disturb(reg *region, how int, seed int) {
	if how%2 == 0 {
		reg.scribble(seed)
		countFault("overwritten after the call")
	} else {
		reg.unmap(seed)
		countFault("unmapped after the call")
	}
}

func execC05Match(p *Plan) *Violation {
	ops := p.Tasks[0].Ops
	run := func(protected bool) ([]Outcome, []Outcome) {
		resetProcess()
		getArena().reset()
		var buf *region
		outs := make([]Outcome, len(ops))
		later := make([]Outcome, len(ops))
		c, _ := hostCompile(p.Filters[0])
		if c == nil {
			return nil, nil
		}
		s := simrt.New(p.Host)
		tk := s.Spawn("caller", func() {
			var m matcher
			for i := range ops {
				text := string(p.Docs[ops[i].D])
				for _, f := range ops[i].Fault {
					text = f.apply(text)
				}
				data := []byte(text)
				var reg *region
				if protected && p.N%3 == 0 {
					reg, data = refill(&buf, text)
				} else if protected {
					reg, data = input(text, ops[i].M*3)
				}
				call(&outs[i], matchBound(text, c), func(o *Outcome) {
					if m == nil {
						m = c.matcher()
					} else {
						m.Reset()
					}
					keepErrors = protected
					defer func() { keepErrors = false }()
					doMatch(o, m, len(c.exprs), data, false)
				})
				if outs[i].Kind == "fault" && protected {
					return
				}
				if protected {
					disturb(reg, ops[i].N, p.N+i)
				}
				if err := outs[i].err; err != nil {
					call(&later[i], 1_000_000+100*int64(len(text)), func(o *Outcome) {
						o.Kind = "ok"
						o.Out = err.Error()
					})
				}
				if outs[i].Kind == "ok" {
					call(&later[i], 100_000, func(o *Outcome) {
						o.Kind = "ok"
						o.Exprs = exprBits(m, len(c.exprs))
					})
				}
			}
		})
		s.Run(simrt.NewPolicy(simrt.Sched{Policy: "serial"}))
		stats.steps += s.Steps
		for i := range outs {
			finish(s, tk, &outs[i])
			finish(s, tk, &later[i])
		}
		return outs, later
	}
	want, texts := run(false)
	got, later := run(true)
	for i := range got {
		if want[i].Kind == "" || got[i].Kind == "" {
			break
		}
		stats.see(got[i])
		stats.evals++
		countFault("write-protected")
		stats.nontrivial(hashStr("m", string(p.Filters[0].Exprs[0]), string(p.Docs[ops[i].D]), fmt.Sprint(ops[i].Fault)))
		if got[i].Kind == "fault" && want[i].Kind != "fault" {
			return viol("fault", got[i].Detail[strings.LastIndex(got[i].Detail, " at ")+1:], "match %d of %q: touches memory it must not touch: %v", i, p.Docs[ops[i].D], got[i])
		}
		if !got[i].same(want[i]) {
			return viol("result-changed", "", "match %d of %q: %v; with buffers that are left alone: %v", i, p.Docs[ops[i].D], got[i], want[i])
		}
		if want[i].Kind == "err" && (later[i].Kind != "ok" || later[i].Out != texts[i].Out) {
			return viol("result-changed", "error", "match %d of %q: the error after the buffer was reused: %v; with a buffer that is left alone: %v", i, p.Docs[ops[i].D], later[i], texts[i])
		}
		if want[i].Kind == "ok" && (later[i].Kind != "ok" || later[i].Exprs != want[i].Exprs) {
			return viol("result-changed", "later", "match %d of %q: results after the buffer was reused: %v; before: %v", i, p.Docs[ops[i].D], later[i], want[i])
		}
	}
	return nil
}

func execC05Compile(p *Plan) *Violation {
	run := func(protected bool) (Outcome, []Outcome) {
		resetProcess()
		getArena().reset()
		outs := make([]Outcome, len(p.Docs))
		var comp Outcome
		s := simrt.New(p.Host)
		tk := s.Spawn("caller", func() {
			var exprs []g.Expression
			var regs []*region
			var m matcher
			var names strings.Builder
			var buf *region
			most := 0
			for _, t := range p.Filters[0].Exprs {
				most = maxInt(most, len(t))
			}
			call(&comp, callBound, func(o *Outcome) {
				for i, t := range p.Filters[0].Exprs {
					text := string(t)
					if p.N%3 == 0 {
						text = pad(text, most)
					}
					data := []byte(text)
					if protected {
						var reg *region
						if p.N%3 == 0 {
							reg, data = refill(&buf, text)
						} else {
							reg, data = input(text, (p.N+i)%3*4)
						}
						regs = append(regs, reg)
					}
					e, err := g.ParseJsonExpression(data)
					if err != nil {
						for i, reg := range regs {
							disturb(reg, p.N+i, p.N)
						}
						o.Kind, o.Out = "err", err.Error()
						return
					}
					exprs = append(exprs, e)
				}
				for i, reg := range regs {
					disturb(reg, p.N+i, p.N)
				}
				var t g.Transformer
				m = g.NewFastMatcher(t.Transform(exprs))
				for _, e := range exprs {
					names.WriteString(e.String())
				}
				o.Kind, o.Out = "ok", names.String()
			})
			if comp.Kind != "ok" {
				return
			}
			for i := range p.Docs {
				call(&outs[i], callBound, func(o *Outcome) {
					if i > 0 {
						m.Reset()
					}
					doMatch(o, m, len(exprs), []byte(p.Docs[i]), false)
				})
			}
		})
		s.Run(simrt.NewPolicy(simrt.Sched{Policy: "serial"}))
		stats.steps += s.Steps
		finish(s, tk, &comp)
		for i := range outs {
			finish(s, tk, &outs[i])
		}
		return comp, outs
	}
	want, wouts := run(false)
	got, gouts := run(true)
	stats.evals++
	stats.see(got)
	countFault("write-protected")
	stats.nontrivial(hashStr("c", string(p.Filters[0].Exprs[0])))
	if !got.same(want) {
		class := "result-changed"
		if got.Kind == "fault" {
			class = "fault"
		}
		return viol(class, "compile", "compiling %q: %v; with a buffer that is left alone: %v", p.Filters[0].Exprs, got, want)
	}
	for i := range wouts {
		if !wouts[i].same(gouts[i]) {
			return viol("result-changed", "compiled", "the filter %q gives %v after its text was overwritten, %v before", p.Filters[0].Exprs, gouts[i], wouts[i])
		}
	}
	return nil
}

func execC05Remove(p *Plan) *Violation {
	run := func(protected bool) ([]Outcome, []string) {
		resetProcess()
		getArena().reset()
		outs := make([]Outcome, len(p.Tasks))
		changed := make([]string, len(p.Tasks))
		most := 0
		for i := range p.Tasks {
			if n := len(p.Tasks[i].Ops[0].Names); n > most {
				most = n
			}
		}
		list := make([]string, most+4)
		var buf *region
		hold := func(prot int) {}
		if protected {
			// The list is in write-protected memory as well. The garbage collector does not
			// look there: the plan keeps the names alive.
			reg := getArena().place(strings.Repeat("\x00", 16*len(list)), -1)
			if !reg.heap {
				list = unsafe.Slice((*string)(unsafe.Pointer(&reg.data[0])), len(list))
				hold = reg.protect
			}
		}
		s := simrt.New(p.Host)
		tk := s.Spawn("caller", func() {
			for i := range p.Tasks {
				op := p.Tasks[i].Ops[0]
				text := string(p.Docs[op.D])
				data := []byte(text)
				var reg *region
				if protected && p.N%3 == 0 {
					reg, data = refill(&buf, text)
				} else if protected {
					reg, data = input(text, i%2*8)
				}
				names := append(make([]string, 0, len(op.Names)+4), op.Names...)
				if protected {
					// The caller has one list, which it fills anew for each call.
					hold(syscall.PROT_READ | syscall.PROT_WRITE)
					for k := range list {
						list[k] = ""
					}
					names = append(list[:0], op.Names...)
					hold(syscall.PROT_READ)
				}
				removed := map[string][]byte{}
				var old []byte
				if op.M == 1 {
					// A map of an earlier call: its values are parts of an earlier source.
					text := strings.Repeat("g", 400)
					old = []byte(text)
					if protected {
						_, old = input(text, 0)
					}
					for _, nm := range op.Names {
						removed[nm] = old[:1]
					}
				}
				keep := append([]string(nil), names...)
				full := names[:cap(names)]
				call(&outs[i], 3_000_000, func(o *Outcome) {
					dst := make([]byte, len(text))
					n, cnt, left, err := g.MatchAndRemoveItemsFromJsonObject(data, names, dst, removed)
					if err != nil {
						if protected && !reg.heap {
							disturb(reg, op.N, i)
						}
						o.Kind, o.Out = "err", err.Error()
						return
					}
					o.Kind, o.Out = "ok", removeResult(dst, n, cnt, left, removed)
					if strings.Trim(string(old), "g") != "" {
						o.Out += " (wrote into the source of an earlier call)"
					}
					if protected && !reg.heap {
						disturb(reg, op.N, i)
						// The destination is the caller's, and it does not depend on the source.
						if n <= len(dst) && !strings.HasPrefix(o.Out, string(dst[:n])) {
							o.Out += " (changed with the source)"
						}
					}
				})
				hold(syscall.PROT_READ | syscall.PROT_WRITE)
				for k := range full {
					if k < len(keep) && full[k] != keep[k] || k >= len(keep) && full[k] != "" {
						changed[i] = fmt.Sprintf("the list of names %q has become %q", keep, full[:len(names)])
					}
				}
				for k := range names {
					names[k] = "overwritten"
				}
			}
		})
		s.Run(simrt.NewPolicy(simrt.Sched{Policy: "serial"}))
		stats.steps += s.Steps
		for i := range outs {
			finish(s, tk, &outs[i])
		}
		return outs, changed
	}
	want, _ := run(false)
	got, changed := run(true)
	for i := range got {
		stats.evals++
		stats.see(got[i])
		countFault("write-protected")
		stats.nontrivial(hashStr("r", string(p.Docs[p.Tasks[i].Ops[0].D]), fmt.Sprint(p.Tasks[i].Ops[0].Names)))
		if changed[i] != "" {
			return viol("input-written", "names", "%s", changed[i])
		}
		if !got[i].same(want[i]) {
			class := "result-changed"
			if got[i].Kind == "fault" {
				class = "fault"
			}
			return viol(class, "remove", "removing %q from %q: %v; with a buffer that is left alone: %v", p.Tasks[i].Ops[0].Names, p.Docs[p.Tasks[i].Ops[0].D], got[i], want[i])
		}
	}
	return nil
}

// ---- C06

func objectDoc(st *setting, r *simrt.Rng) *JNode {
	for try := 0; ; try++ {
		d := st.v.genNode(r, st.sh, 0)
		if d.K == 'o' {
			return d
		}
	}
}

func genC06(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 1)
	st.docs = nil
	for k := 1 + r.Intn(3); k > 0; k-- {
		st.docs = append(st.docs, objectDoc(st, r))
	}
	p := &Plan{Property: "C06", Run: run, Host: soloEnv}
	for _, t := range st.texts(r) {
		p.Docs = append(p.Docs, Blob(strings.TrimSpace(string(t))))
	}
	if r.Chance(1, 4) {
		padDocs(p.Docs) // so that one replaces the other in the same place
	}
	p.Kind = "model"
	n := 1
	if r.Chance(1, 4) {
		p.Kind = "world"
		n = 2 + r.Intn(2)
		p.Host = genHost(r, false)
		p.Sched = genSched(r, n)
	}
	if n == 1 && r.Chance(1, 6) {
		p.Kind = "cuts"
	}
	for t := 0; t < n; t++ {
		var ops []Op
		for k := 2 + r.Intn(4); k > 0; k-- {
			op := Op{K: "remove", D: r.Intn(len(p.Docs))}
			d := st.docs[op.D]
			op.Names = st.removeNames(r, d)
			if r.Chance(1, 8) {
				op.Names = append(op.Names, op.Names[r.Intn(len(op.Names))])
			}
			op.M = r.Intn(8)
			if r.Chance(1, 5) {
				op.Fault = st.faults(r, string(p.Docs[op.D]), 1+r.Intn(2))
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, TaskPlan{ops})
	}
	return p
}

// modelRemove is the reference for removals. ok is false where the contract leaves
// the result open: escaped keys which stand for a listed name.
func modelRemove(doc *JNode, names []string) (out string, cnt int, removed map[string]string, ok bool) {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	removed = map[string]string{}
	ok = true
	var copyOf func(n *JNode) *JNode
	copyOf = func(n *JNode) *JNode {
		c := &JNode{K: n.K, Raw: n.Raw}
		for i, k := range n.Kids {
			if n.K == 'o' {
				key := n.Keys[i]
				if strings.Contains(key, "\\") {
					if set[keyName(key)] || set[key] {
						ok = false
					}
				} else if set[key] {
					removed[key] = k.Text()
					cnt++
					continue
				}
				c.Keys = append(c.Keys, key)
			}
			c.Kids = append(c.Kids, copyOf(k))
		}
		return c
	}
	c := copyOf(doc)
	return renderJ(c, wsStyle{}), cnt, removed, ok
}

func execC06(p *Plan) *Violation {
	if p.Kind == "world" {
		return execC06World(p)
	}
	if p.Kind == "cuts" {
		return execC06Cuts(p)
	}
	return execC06Model(p)
}

// execC06Cuts cuts the source short, or loses its tail to zeros: what is left of an
// object is no object, whatever is to be removed from it.
func execC06Cuts(p *Plan) *Violation {
	simrt.SetIdleEnv(p.Host)
	resetProcess()
	op := p.Tasks[0].Ops[0]
	text := string(p.Docs[op.D])
	if doc, err := parseJNode(text); err != nil || doc.K != 'o' || text[len(text)-1] != '}' {
		return nil
	}
	cuts := p.Cuts
	if cuts == nil {
		for _, i := range positions(p.Run, 1, len(text)) {
			// Most of them end without a brace, which is soon told.
			if text[i-1] == '}' || text[i-1] == ']' || i%8 == 0 {
				cuts = append(cuts, i)
			}
		}
	}
	for _, i := range cuts {
		if i < 1 || i >= len(text) {
			continue
		}
		for _, tail := range []string{"", strings.Repeat("\x00", len(text)-i)} {
			getArena().reset()
			torn := text[:i] + tail
			src := getArena().place(torn, -1)
			var o Outcome
			var dst []byte
			var n, cnt int
			if op.M > 1 {
				dst = make([]byte, len(text))
			}
			solo(&o, 200_000+int64(len(text)+16)*int64(40+10*len(op.Names)), func(o *Outcome) {
				var err error
				n, cnt, _, err = g.MatchAndRemoveItemsFromJsonObject(src.data, op.Names, dst, map[string][]byte{})
				if err != nil {
					o.Kind, o.Detail = "err", err.Error()
					return
				}
				o.Kind = "ok"
			})
			stats.evals++
			stats.see(o)
			countFault("torn")
			stats.nontrivial(hashStr("c", torn, fmt.Sprint(op.Names)))
			if o.bad() || o.Kind == "fault" {
				return viol(o.Kind, "", "removing %q from %q: %v", op.Names, torn, o)
			}
			if o.Kind == "ok" {
				p.Cuts = []int{i}
				return viol("torn-accepted", "", "removing %q from what is left of %q, %q: no error, length %d, count %d", op.Names, text, torn, n, cnt)
			}
		}
	}
	return nil
}

func (op Op) text(p *Plan) string {
	t := string(p.Docs[op.D])
	for _, f := range op.Fault {
		t = f.apply(t)
	}
	return t
}

func execC06Model(p *Plan) *Violation {
	simrt.SetIdleEnv(p.Host)
	resetProcess()
	for _, op := range p.Tasks[0].Ops {
		getArena().reset()
		text := op.text(p)
		for _, f := range op.Fault {
			countFault(f.Kind)
		}
		src := getArena().place(text, -1)
		var o Outcome
		var dst []byte
		removed := map[string][]byte{}
		var n, cnt int
		var left bool
		// The destination: none, as long as needed, longer, a reused one with old data.
		switch op.M {
		case 0, 1:
			dst = nil
		case 2:
			dst = append([]byte(strings.Repeat("#", len(text)+5)), 0)
		default:
			dst = []byte(strings.Repeat("~", len(text)))
		}
		solo(&o, 200_000+int64(len(text)+16)*int64(40+10*len(op.Names)), func(o *Outcome) {
			d := dst
			if d == nil && op.M == 1 {
				removed = nil
			}
			var err error
			n, cnt, left, err = g.MatchAndRemoveItemsFromJsonObject(src.data, op.Names, d, removed)
			if err != nil {
				o.Kind, o.Detail = "err", err.Error()
				return
			}
			o.Kind = "ok"
		})
		stats.evals++
		stats.see(o)
		if o.bad() || o.Kind == "fault" {
			return viol(o.Kind, "", "removing %q from %q: %v", op.Names, text, o)
		}
		doc, perr := parseJNode(text)
		if whole := string(p.Docs[op.D]); o.Kind == "ok" && len(text) < len(whole) && strings.HasPrefix(whole, text) {
			if w, err := parseJNode(whole); err == nil && w.K == 'o' && whole[len(whole)-1] == '}' {
				return viol("torn-accepted", "", "removing %q from what is left of %q, %q: no error, length %d, count %d", op.Names, whole, text, n, cnt)
			}
		}
		if perr != nil || !doc.uniqueNames() || doc.K != 'o' || text[0] != '{' || text[len(text)-1] != '}' {
			probe("torn source: " + o.Kind)
			stats.nontrivial(hashStr("t", text, fmt.Sprint(op.Names)))
			continue
		}
		want, wcnt, wrem, ok := modelRemove(doc, op.Names)
		if !ok {
			probe("left open by the contract")
			continue
		}
		if wcnt > 0 {
			stats.nontrivial(hashStr(text, fmt.Sprint(op.Names)))
		}
		if o.Kind != "ok" {
			return viol("rejected", "", "removing %q from the valid document %q: %v", op.Names, text, o)
		}
		if n != len(want) || dst != nil && (n > len(dst) || string(dst[:n]) != want) {
			got := "?"
			if dst != nil && n >= 0 && n <= len(dst) {
				got = string(dst[:n])
			}
			return viol("wrong-document", "", "removing %q from %q: length %d, %q; expected length %d, %q", op.Names, text, n, got, len(want), want)
		}
		if cnt != wcnt {
			return viol("wrong-count", "", "removing %q from %q: count %d; expected %d", op.Names, text, cnt, wcnt)
		}
		if left != (len(want) > 2) {
			return viol("wrong-emptiness", "", "removing %q from %q leaves %q: reported as left=%v", op.Names, text, want, left)
		}
		if removed != nil {
			if len(removed) != len(wrem) {
				return viol("wrong-removed", "", "removing %q from %q hands back %d values; expected %d", op.Names, text, len(removed), len(wrem))
			}
			for k, v := range wrem {
				gotv, has := removed[k]
				if !has || strings.TrimLeft(string(gotv), " \t\r\n") != v {
					return viol("wrong-removed", "", "removing %q from %q hands back %q for %q; expected %q", op.Names, text, gotv, k, v)
				}
			}
		}
	}
	return nil
}

func execC06World(p *Plan) *Violation {
	alone, steps := runAlone(p)
	w := newWorld(p, p.Host)
	races := simrt.RaceErrors()
	w.run(-1, settle(p.Sched, steps), p.Host)
	if simrt.RaceErrors() > races {
		p.Sched = recorded(p.Sched, w.sim)
		return viol("race", "", "data race between concurrent removals (see the report of the race detector on stderr)")
	}
	for ti := range p.Tasks {
		for oi, op := range p.Tasks[ti].Ops {
			a, b := alone[ti][oi], w.outs[ti][oi]
			stats.see(b)
			stats.evals++
			stats.nontrivial(hashStr("w", op.text(p), fmt.Sprint(op.Names), fmt.Sprint(w.sim.Hash)))
			if !a.same(b) {
				p.Sched = recorded(p.Sched, w.sim)
				return viol("result-changed", "", "task %d: removing %q from %q: alone: %v; next to others: %v", ti, op.Names, op.text(p), a, b)
			}
		}
	}
	return nil
}

// ---- C07

func genC07(r *simrt.Rng, run uint64) *Plan {
	st := genSetting(r, 1)
	d := objectDoc(st, r)
	p := &Plan{Property: "C07", Kind: "sizes", Run: run, Host: soloEnv}
	p.Docs = []Blob{Blob(strings.TrimSpace(renderJ(d, genWs(r))))}
	op := Op{K: "remove", Names: st.removeNames(r, d)}
	if r.Chance(1, 6) {
		op.Fault = st.faults(r, string(p.Docs[0]), 1)
	}
	p.Tasks = []TaskPlan{{[]Op{op}}}
	p.N = r.Intn(2)
	return p
}

func execC07(p *Plan) *Violation {
	simrt.SetIdleEnv(p.Host)
	resetProcess()
	op := p.Tasks[0].Ops[0]
	text := op.text(p)
	type res struct {
		o     Outcome
		stray string
	}
	one := func(size int, spare bool) res {
		getArena().reset()
		var rs res
		const tail = 32
		var dst []byte
		if spare {
			buf := []byte(strings.Repeat("\xAA", size+tail))
			dst = buf[:size]
		} else {
			dst = getArena().room(size).data
		}
		removed := map[string][]byte{}
		solo(&rs.o, 200_000+int64(len(text)+16)*int64(40+10*len(op.Names)), func(o *Outcome) {
			n, cnt, left, err := g.MatchAndRemoveItemsFromJsonObject([]byte(text), op.Names, dst, removed)
			if err != nil {
				o.Kind, o.Detail = "err", err.Error()
				return
			}
			o.Kind, o.Out = "ok", removeResult(dst, n, cnt, left, removed)
		})
		if spare {
			full := dst[:size+tail]
			for i := size; i < len(full); i++ {
				if full[i] != 0xAA {
					rs.stray = fmt.Sprintf("byte %d behind the end was overwritten with %q", i-size, full[i])
					break
				}
			}
		}
		return rs
	}
	large := one(len(text)+64, false)
	if large.o.bad() || large.o.Kind == "fault" {
		return viol(large.o.Kind, "", "removing %q from %q: %v", op.Names, text, large.o)
	}
	sizes := p.Cuts
	if sizes == nil {
		sizes = positions(p.Run, 0, len(text)+3)
	}
	for _, n := range sizes {
		for k := 0; k < 2; k++ {
			rs := one(n, (k+p.N)%2 == 0)
			stats.evals++
			stats.see(rs.o)
			countFault("full destination")
			stats.nontrivial(hashStr(text, fmt.Sprint(op.Names, n, k)))
			probe("size: " + rs.o.Kind)
			if rs.stray != "" {
				p.Cuts = []int{n}
				return viol("stray-write", "", "removing %q from %q into %d bytes: %s", op.Names, text, n, rs.stray)
			}
			if rs.o.bad() || rs.o.Kind == "fault" {
				p.Cuts = []int{n}
				return viol(rs.o.Kind, "", "removing %q from %q into %d bytes: %v", op.Names, text, n, rs.o)
			}
			if rs.o.Kind == "ok" && !rs.o.same(large.o) {
				p.Cuts = []int{n}
				return viol("truncated", "", "removing %q from %q into %d bytes: %v; into a large destination: %v", op.Names, text, n, rs.o, large.o)
			}
		}
	}
	return nil
}

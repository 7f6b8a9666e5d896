//go:build go1.24

package main

import (
	"time"

	"github.com/couchbaselabs/gojsonsm/simrt"
)

// tryPlan executes a copy and returns it (with the schedule that was executed) if it
// breaks the property in the same way.
func tryPlan(pr *prop, p *Plan, class, where string) (*Plan, *Violation) {
	q := p.clone()
	v := execute(pr, q)
	if v != nil && v.Class == class && (where == "" || v.Where == where) {
		return q, v
	}
	return nil, nil
}

// minimise makes a failing plan smaller as long as it fails in the same way.
func minimise(pr *prop, p *Plan, v *Violation, limit time.Duration) (*Plan, *Violation) {
	end := time.Now().Add(limit)
	class := v.Class
	where := ""
	if class == "panic" || class == "match-panic" {
		where = v.Where
	}
	// What was recorded has to fail as well; otherwise the plan is kept as it is.
	cur, cv := tryPlan(pr, p, class, where)
	if cur == nil {
		return p, v
	}
	concurrent := len(cur.Tasks) > 1 && cur.Sched.Policy != ""
	attempt := func(q *Plan) bool {
		if time.Now().After(end) {
			return false
		}
		if n, nv := tryPlan(pr, q, class, where); n != nil {
			cur, cv = n, nv
			return true
		}
		if concurrent {
			for k := uint64(0); k < 6; k++ {
				q2 := q.clone()
				q2.Sched = genSched(simrt.NewRng(k*7919+p.Seed), len(q2.Tasks))
				if pr.id != "C12" {
					q2.Sched.StallOne = false
				} else {
					q2.Sched.StallOne, q2.Sched.Forever = true, true
					q2.Sched.StallT = p.Sched.StallT % len(q2.Tasks)
					q2.Sched.StallAt = -int64(1 + (k*331+97)%999)
					for i, m := range q.Sched.More {
						q2.Sched.More = append(q2.Sched.More, simrt.Stall{T: m.T, At: -int64(1 + (k*331+97*uint64(i+2))%999)})
					}
				}
				if n, nv := tryPlan(pr, q2, class, where); n != nil {
					cur, cv = n, nv
					return true
				}
			}
		}
		return false
	}
	for pass := 0; pass < 6; pass++ {
		before := planSize(cur)
		// Callers and operations.
		for i := len(cur.Tasks) - 1; i >= 0 && len(cur.Tasks) > 1; i-- {
			if i >= len(cur.Tasks) {
				continue
			}
			q := cur.clone()
			q.Tasks = append(q.Tasks[:i:i], q.Tasks[i+1:]...)
			q.Sched.Segments = dropTask(q.Sched.Segments, i)
			q.Sched.More = dropStall(q.Sched.More, i)
			if q.Sched.StallT == i && len(q.Sched.More) > 0 {
				q.Sched.StallT, q.Sched.StallAt = q.Sched.More[0].T, q.Sched.More[0].At
				q.Sched.More = q.Sched.More[1:]
			} else if q.Sched.StallT > i {
				q.Sched.StallT--
			}
			attempt(q)
		}
		for i := 0; i < len(cur.Tasks); i++ {
			for j := len(cur.Tasks[i].Ops) - 1; j >= 0; j-- {
				if j >= len(cur.Tasks[i].Ops) {
					continue
				}
				if len(cur.Tasks[i].Ops) == 1 {
					break
				}
				q := cur.clone()
				q.Tasks[i].Ops = append(q.Tasks[i].Ops[:j:j], q.Tasks[i].Ops[j+1:]...)
				if q.Kind == "long" && j < int(q.Variants[0]) {
					q.Variants[0]--
				}
				attempt(q)
			}
			for j := range cur.Tasks[i].Ops {
				op := cur.Tasks[i].Ops[j]
				for k := len(op.Fault) - 1; k >= 0; k-- {
					q := cur.clone()
					qo := &q.Tasks[i].Ops[j]
					if k >= len(qo.Fault) {
						continue
					}
					qo.Fault = append(qo.Fault[:k:k], qo.Fault[k+1:]...)
					attempt(q)
				}
				for k := len(cur.Tasks[i].Ops[j].Names) - 1; k >= 0; k-- {
					q := cur.clone()
					qo := &q.Tasks[i].Ops[j]
					if k >= len(qo.Names) {
						continue
					}
					qo.Names = append(qo.Names[:k:k], qo.Names[k+1:]...)
					attempt(q)
				}
				if op.Flag {
					q := cur.clone()
					q.Tasks[i].Ops[j].Flag = false
					attempt(q)
				}
			}
		}
		for k := 0; cur.Kind == "long" && cur.N > 1 && k < 30; k++ {
			q := cur.clone()
			q.N -= 1 + (q.N-1)/3
			if !attempt(q) {
				q = cur.clone()
				q.N--
				if !attempt(q) {
					break
				}
			}
		}
		if len(cur.Hosts) > 2 {
			for i := len(cur.Hosts) - 1; i > 0; i-- {
				if len(cur.Hosts) <= 2 {
					break
				}
				q := cur.clone()
				q.Hosts = append(q.Hosts[:i:i], q.Hosts[i+1:]...)
				attempt(q)
			}
		}
		for i := range cur.Hosts {
			base := cur.Hosts[0]
			if i == 0 {
				base = soloEnv
			}
			for k := 0; k < 5; k++ {
				q := cur.clone()
				h := &q.Hosts[i]
				switch k {
				case 0:
					h.ClockNS, h.ClockStep = base.ClockNS, base.ClockStep
				case 1:
					h.JumpEvery, h.JumpNS = base.JumpEvery, base.JumpNS
				case 2:
					h.Zone = base.Zone
				case 3:
					h.MapSeed = base.MapSeed
				case 4:
					h.RandSeed, h.CPUs, h.PoolDrop = base.RandSeed, base.CPUs, base.PoolDrop
				}
				attempt(q)
			}
		}
		if cur.Host != soloEnv {
			q := cur.clone()
			q.Host = soloEnv
			attempt(q)
		}
		// Filters and documents.
		for i := range cur.Filters {
			q := cur.clone()
			if q.Filters[i].Kind != "json" || len(q.Filters[i].Exprs) != 1 || q.Filters[i].Exprs[0] != `["true"]` {
				q.Filters[i] = Filter{Kind: "json", Exprs: []Blob{`["true"]`}}
				if attempt(q) {
					continue
				}
			}
			for j := len(cur.Filters[i].Exprs) - 1; j >= 0 && len(cur.Filters[i].Exprs) > 1; j-- {
				q := cur.clone()
				q.Filters[i].Exprs = append(q.Filters[i].Exprs[:j:j], q.Filters[i].Exprs[j+1:]...)
				attempt(q)
			}
			for j := range cur.Filters[i].Exprs {
				shrinkFilter(func() Blob { return cur.Filters[i].Exprs[j] }, cur.Filters[i].Kind, func(b Blob) bool {
					q := cur.clone()
					q.Filters[i].Exprs[j] = b
					return attempt(q)
				})
			}
		}
		for i := range cur.Docs {
			if cur.Docs[i] != "{}" {
				q := cur.clone()
				q.Docs[i] = "{}"
				if attempt(q) {
					continue
				}
			}
			shrinkDoc(func() Blob { return cur.Docs[i] }, func(b Blob) bool {
				q := cur.clone()
				q.Docs[i] = b
				// A cut or a permutation means another place in another text.
				if len(q.Cuts) > 0 {
					q.Cuts = nil
				}
				return attempt(q)
			})
		}
		if planSize(cur) >= before || time.Now().After(end) {
			break
		}
	}
	if concurrent && cur.Sched.Policy == "replay" {
		cur, cv = shrinkSegments(pr, cur, cv, class, where, end)
	}
	return cur, cv
}

func dropStall(more []simrt.Stall, task int) []simrt.Stall {
	var out []simrt.Stall
	for _, m := range more {
		if m.T == task {
			continue
		}
		if m.T > task {
			m.T--
		}
		out = append(out, m)
	}
	return out
}

func planSize(p *Plan) int {
	n := 0
	for _, t := range p.Tasks {
		n += 10
		for _, o := range t.Ops {
			n += 10 + 5*len(o.Fault) + len(o.Names)
		}
	}
	for _, d := range p.Docs {
		n += len(d)
	}
	for _, f := range p.Filters {
		for _, e := range f.Exprs {
			n += 5 + len(e)
		}
	}
	return n + len(p.Hosts)*10
}

func dropTask(segs []simrt.Segment, i int) []simrt.Segment {
	var out []simrt.Segment
	for _, s := range segs {
		if s.T == i {
			continue
		}
		if s.T > i {
			s.T--
		}
		out = append(out, s)
	}
	return out
}

func shrinkSegments(pr *prop, cur *Plan, cv *Violation, class, where string, end time.Time) (*Plan, *Violation) {
	chunk := len(cur.Sched.Segments) / 2
	for chunk >= 1 && !time.Now().After(end) {
		progress := false
		for i := 0; i+chunk <= len(cur.Sched.Segments); {
			if time.Now().After(end) {
				break
			}
			q := cur.clone()
			segs := append([]simrt.Segment(nil), q.Sched.Segments[:i]...)
			q.Sched.Segments = append(segs, q.Sched.Segments[i+chunk:]...)
			n, nv := tryPlan(pr, q, class, where)
			if n != nil && len(n.Sched.Segments) < len(cur.Sched.Segments) {
				cur, cv = n, nv
				progress = true
				continue
			}
			i += chunk
		}
		if !progress || chunk > len(cur.Sched.Segments) {
			chunk /= 2
		}
	}
	return cur, cv
}

func shrinkFilter(get func() Blob, kind string, set func(Blob) bool) {
	if kind == "text" || kind == "simple" || kind == "raw" {
		shrinkText(get, set)
		return
	}
	for again := true; again; {
		again = false
		x, err := parseX(string(get()))
		if err != nil {
			return
		}
		var visit func(n *X, put func(*X)) bool
		emit := func() bool { return set(Blob(x.String())) }
		visit = func(n *X, put func(*X)) bool {
			if n.logical() {
				for _, k := range n.Kids {
					if (n.Op == "anyin" || n.Op == "everyin" || n.Op == "anyeveryin") && k == n.Kids[0] {
						continue
					}
					put(k)
					if emit() {
						return true
					}
				}
				put(n)
				if n.Op == "and" || n.Op == "or" {
					for i := range n.Kids {
						if len(n.Kids) < 2 {
							break
						}
						old := n.Kids
						n.Kids = append(append([]*X{}, old[:i]...), old[i+1:]...)
						if emit() {
							return true
						}
						n.Kids = old
					}
				}
			}
			for i := range n.Kids {
				if visit(n.Kids[i], func(k *X) { n.Kids[i] = k }) {
					return true
				}
			}
			if n.Op == "field" && len(n.Path) > 1 {
				old := n.Path
				n.Path = old[:len(old)-1]
				if emit() {
					return true
				}
				n.Path = old
			}
			if n.Op == "value" && n.Lit != "1" {
				old := n.Lit
				n.Lit = "1"
				if emit() {
					return true
				}
				n.Lit = old
			}
			return false
		}
		again = visit(x, func(k *X) { x = k })
	}
}

func shrinkText(get func() Blob, set func(Blob) bool) {
	for chunk := len(get()) / 2; chunk >= 1; chunk /= 2 {
		for i := 0; i+chunk <= len(get()); {
			b := get()
			if !set(b[:i] + b[i+chunk:]) {
				i += chunk
			}
		}
	}
}

func shrinkDoc(get func() Blob, set func(Blob) bool) {
	for again := true; again; {
		again = false
		tree, err := parseJNode(string(get()))
		if err != nil {
			shrinkText(get, set)
			return
		}
		emit := func() bool {
			t := renderJ(tree, wsStyle{})
			return len(t) < len(get()) && set(Blob(t))
		}
		if emit() {
			again = true
			continue
		}
		var visit func(n *JNode, put func(*JNode)) bool
		visit = func(n *JNode, put func(*JNode)) bool {
			for i := range n.Kids {
				ok, kk := n.Keys, n.Kids
				if n.K == 'o' {
					n.Keys = append(append([]string{}, ok[:i]...), ok[i+1:]...)
				}
				n.Kids = append(append([]*JNode{}, kk[:i]...), kk[i+1:]...)
				if emit() {
					return true
				}
				n.Keys, n.Kids = ok, kk
			}
			for i := range n.Kids {
				if n.Kids[i].K != 'l' || len(n.Kids[i].Raw) > 2 {
					old := n.Kids[i]
					n.Kids[i] = &JNode{K: 'l', Raw: "1"}
					if emit() {
						return true
					}
					n.Kids[i] = old
				}
				if visit(n.Kids[i], func(k *JNode) { n.Kids[i] = k }) {
					return true
				}
			}
			return false
		}
		again = visit(tree, func(k *JNode) { tree = k })
	}
}

//go:build go1.24

package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
	"github.com/couchbaselabs/gojsonsm/simrt"
)

// X is a filter expression of the harness; its text is the JSON notation of the
// library plus ["true"] and ["false"].
type X struct {
	Op   string
	Kids []*X
	Var  int      // field: root variable; loops: the variable
	Path []string // field
	Lit  string   // value, regex, time: raw JSON
	Fn   string   // func
}

func (x *X) text(sb *strings.Builder) {
	sb.WriteString(`["` + x.Op + `"`)
	switch x.Op {
	case "field":
		if x.Var != 0 || len(x.Path) == 0 {
			fmt.Fprintf(sb, ",%d", x.Var)
		}
		for _, p := range x.Path {
			sb.WriteString("," + quote(p, 0, nil))
		}
	case "value", "regex", "time":
		sb.WriteString("," + x.Lit)
	case "func":
		sb.WriteString(",\"" + x.Fn + "\"")
		for _, k := range x.Kids {
			sb.WriteByte(',')
			k.text(sb)
		}
	case "anyin", "everyin", "anyeveryin":
		fmt.Fprintf(sb, ",%d", x.Var)
		for _, k := range x.Kids {
			sb.WriteByte(',')
			k.text(sb)
		}
	default:
		for _, k := range x.Kids {
			sb.WriteByte(',')
			k.text(sb)
		}
	}
	sb.WriteByte(']')
}

func (x *X) String() string {
	var sb strings.Builder
	x.text(&sb)
	return sb.String()
}

func parseX(s string) (*X, error) {
	var a []json.RawMessage
	if err := json.Unmarshal([]byte(s), &a); err != nil {
		return nil, err
	}
	if len(a) == 0 {
		return nil, fmt.Errorf("empty expression")
	}
	x := &X{}
	if err := json.Unmarshal(a[0], &x.Op); err != nil {
		return nil, err
	}
	a = a[1:]
	switch x.Op {
	case "field":
		if len(a) > 0 && a[0][0] != '"' {
			v, err := strconv.Atoi(string(a[0]))
			if err != nil {
				return nil, err
			}
			x.Var = v
			a = a[1:]
		}
		for _, p := range a {
			var s string
			if err := json.Unmarshal(p, &s); err != nil {
				return nil, err
			}
			x.Path = append(x.Path, s)
		}
		return x, nil
	case "value", "regex", "time":
		if len(a) != 1 {
			return nil, fmt.Errorf("bad literal")
		}
		x.Lit = string(a[0])
		return x, nil
	case "func":
		if len(a) < 1 {
			return nil, fmt.Errorf("bad func")
		}
		if err := json.Unmarshal(a[0], &x.Fn); err != nil {
			return nil, err
		}
		a = a[1:]
	case "anyin", "everyin", "anyeveryin":
		if len(a) != 3 {
			return nil, fmt.Errorf("bad loop")
		}
		v, err := strconv.Atoi(string(a[0]))
		if err != nil {
			return nil, err
		}
		x.Var = v
		a = a[1:]
	}
	for _, k := range a {
		c, err := parseX(string(k))
		if err != nil {
			return nil, err
		}
		x.Kids = append(x.Kids, c)
	}
	return x, nil
}

func (x *X) hasConst() bool {
	if x.Op == "true" || x.Op == "false" {
		return true
	}
	for _, k := range x.Kids {
		if k.hasConst() {
			return true
		}
	}
	return false
}

func (x *X) logical() bool {
	switch x.Op {
	case "and", "or", "not", "anyin", "everyin", "anyeveryin", "true", "false":
		return true
	}
	return false
}

// expr makes an expression of the library.
func (x *X) expr() (g.Expression, error) {
	if !x.hasConst() {
		return g.ParseJsonExpression([]byte(x.String()))
	}
	var kids []g.Expression
	for _, k := range x.Kids {
		e, err := k.expr()
		if err != nil {
			return nil, err
		}
		kids = append(kids, e)
	}
	switch x.Op {
	case "true":
		return g.TrueExpr{}, nil
	case "false":
		return g.FalseExpr{}, nil
	case "and":
		return g.AndExpr(kids), nil
	case "or":
		return g.OrExpr(kids), nil
	case "not":
		return g.NotExpr{SubExpr: kids[0]}, nil
	case "anyin":
		return g.AnyInExpr{VarId: g.VariableID(x.Var), InExpr: kids[0], SubExpr: kids[1]}, nil
	case "everyin":
		return g.EveryInExpr{VarId: g.VariableID(x.Var), InExpr: kids[0], SubExpr: kids[1]}, nil
	case "anyeveryin":
		return g.AnyEveryInExpr{VarId: g.VariableID(x.Var), InExpr: kids[0], SubExpr: kids[1]}, nil
	}
	return nil, fmt.Errorf("constant inside of %s", x.Op)
}

// fgen generates filters which have something to do with the documents of the run.
type fgen struct {
	r      *simrt.Rng
	v      *vocab
	docs   []*JNode
	vars   []int
	elem   map[int]*JNode // a sample of what a variable is bound to
	depth  int
	consts int // one in so many leafs is a constant; 0: none
	loops  int // of 10
	funcs  bool
	slow   bool // restricted to what the slow matcher knows
	fields int  // of 10: comparisons of two fields
	budget int
	scale  int // additional leafs of a large filter
	nested int // how deep loops may nest
}

func newFgen(r *simrt.Rng, v *vocab, docs []*JNode) *fgen {
	f := &fgen{r: r, v: v, docs: docs, elem: map[int]*JNode{}}
	f.depth = 1 + r.Intn(4)
	f.loops = r.Intn(6)
	f.funcs = r.Chance(1, 2)
	f.fields = r.Intn(5)
	f.budget = 4 + r.Intn(12)
	f.nested = 3
	if v.rows {
		f.loops, f.fields, f.depth = 5+r.Intn(4), 5+r.Intn(4), 2+r.Intn(2)
		f.nested = 1
		if r.Chance(1, 4) {
			f.nested = 2
		}
	}
	longest := 0
	for _, d := range docs {
		longest = maxInt(longest, d.longest())
	}
	if longest > 12 {
		f.nested = 2
	}
	if longest > 40 {
		f.nested = 1
	}
	if longest <= 4 && r.Chance(1, 15) {
		// Loops within loops within loops.
		f.nested = 5
		if longest <= 2 {
			f.nested = 8
		}
		f.depth = f.nested + 1 + r.Intn(3)
		f.loops = 6 + r.Intn(3)
		probe("large: nested loops")
	}
	if r.Chance(1, 25) {
		if r.Chance(1, 2) {
			f.scale = 30 + r.Intn(100)
			f.depth = 2 + r.Intn(4)
			probe("large: filter")
		} else {
			f.depth = 8 + r.Intn(20)
			f.scale = 10
			probe("large: deep filter")
		}
	}
	return f
}

// longest is the length of the longest array or object.
func (n *JNode) longest() int {
	m := len(n.Kids)
	for _, k := range n.Kids {
		m = maxInt(m, k.longest())
	}
	return m
}

// shorten leaves at most n values in each array.
func (n *JNode) shorten(most int) {
	if n.K == 'a' && len(n.Kids) > most {
		n.Kids = n.Kids[:most]
	}
	for _, k := range n.Kids {
		k.shorten(most)
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (f *fgen) sample() *JNode { return f.docs[f.r.Intn(len(f.docs))] }

// path picks a path below a sample value; mostly one that exists.
func (f *fgen) path(n *JNode, wantArray bool) ([]string, *JNode) {
	r := f.r
	if n != nil && !r.Chance(1, 5) {
		best := []string(nil)
		var bestN *JNode
		for try := 0; try < 4; try++ {
			var p []string
			c := n
			for {
				if c.K == 'o' && len(c.Kids) > 0 && (len(p) == 0 || !r.Chance(1, 4)) {
					i := r.Intn(len(c.Kids))
					p = append(p, keyName(c.Keys[i]))
					c = c.Kids[i]
					if wantArray && c.K == 'a' && !r.Chance(1, 5) {
						break
					}
					continue
				}
				if c.K == 'a' && len(c.Kids) > 0 && r.Chance(1, 2) && !wantArray {
					i := r.Intn(len(c.Kids))
					p = append(p, fmt.Sprintf("[%d]", i))
					c = c.Kids[i]
					continue
				}
				break
			}
			best, bestN = p, c
			if !wantArray || c.K == 'a' {
				break
			}
		}
		return best, bestN
	}
	var p []string
	for k := 1 + r.Intn(3); k > 0; k-- {
		if r.Chance(1, 10) {
			p = append(p, fmt.Sprintf("[%d]", r.Intn(3)))
		} else {
			p = append(p, f.v.names[r.Intn(len(f.v.names))])
		}
	}
	return p, nil
}

func (f *fgen) ref(wantArray bool) (*X, *JNode) {
	r := f.r
	x := &X{Op: "field"}
	var n *JNode
	if len(f.vars) > 0 && r.Chance(7, 10) {
		x.Var = f.vars[len(f.vars)-1]
		n = f.elem[x.Var]
	} else if len(f.vars) > 0 && r.Chance(1, 2) {
		x.Var = f.vars[r.Intn(len(f.vars))]
		n = f.elem[x.Var]
	} else {
		n = f.sample()
	}
	if x.Var != 0 && n != nil && (n.K == 'l' || (wantArray && n.K == 'a')) && r.Chance(4, 5) {
		return x, n
	}
	p, c := f.path(n, wantArray)
	if len(p) == 0 && x.Var == 0 && r.Chance(9, 10) {
		p = []string{f.v.names[r.Intn(len(f.v.names))]}
		c = nil
	}
	x.Path = p
	return x, c
}

func (f *fgen) lit(near *JNode) *X {
	if near != nil && near.K == 'l' && f.r.Chance(3, 5) {
		l := near.Raw
		if l[0] == '"' {
			l = quote(keyName(l[1:len(l)-1]), 0, f.r)
		}
		return &X{Op: "value", Lit: l}
	}
	l := f.v.lit(f.r)
	return &X{Op: "value", Lit: l}
}

var cmpOps = []string{"equals", "equals", "equals", "notequals", "lessthan", "lessequals", "greaterthan", "greaterequals"}
var regexPool = []string{"^f", "o+$", ".*", "a|b|x", "^[0-9]+$", "\\\\d", "é", "^$", "(foo)(bar)?", "[^a-z]"}
var timePool = []string{"2018-01-01T00:00:00Z", "2018-01-01T02:00:00+02:00", "2019-06-15T12:30:00.5Z", "2018-01-01", "2018-05", "2018", "2018-01-01 10:20:30"}

func (f *fgen) leaf() *X {
	r := f.r
	f.budget--
	if f.consts > 0 && r.Chance(1, f.consts) {
		return &X{Op: []string{"true", "false"}[r.Intn(2)]}
	}
	a, n := f.ref(false)
	op := cmpOps[r.Intn(len(cmpOps))]
	if f.slow {
		if r.Intn(10) < f.fields {
			b, _ := f.ref(false)
			return &X{Op: op, Kids: []*X{a, b}}
		}
		return &X{Op: op, Kids: []*X{a, f.lit(n)}}
	}
	k := r.Intn(20)
	switch {
	case k < 2:
		return &X{Op: "exists", Kids: []*X{a}}
	case k < 3:
		return &X{Op: "notexists", Kids: []*X{a}}
	case k < 5:
		return &X{Op: "like", Kids: []*X{a, {Op: "regex", Lit: `"` + regexPool[r.Intn(len(regexPool))] + `"`}}}
	case k < 6:
		t := &X{Op: "time", Lit: `"` + timePool[r.Intn(len(timePool))] + `"`}
		if r.Chance(1, 2) {
			return &X{Op: op, Kids: []*X{{Op: "func", Fn: "date", Kids: []*X{a}}, t}}
		}
		return &X{Op: op, Kids: []*X{a, t}}
	case k < 9 && f.funcs:
		return &X{Op: op, Kids: []*X{f.fn(a, 0), f.lit(n)}}
	}
	if r.Intn(10) < f.fields {
		b, _ := f.ref(false)
		if f.funcs && r.Chance(1, 6) {
			return &X{Op: op, Kids: []*X{f.fn(a, 0), b}}
		}
		return &X{Op: op, Kids: []*X{a, b}}
	}
	if r.Chance(1, 10) {
		return &X{Op: op, Kids: []*X{f.lit(n), a}}
	}
	return &X{Op: op, Kids: []*X{a, f.lit(n)}}
}

var fn1 = []string{"mathAbs", "mathCeil", "mathFloor", "mathRound", "mathSqrt", "mathNegate", "mathDegrees", "mathRadians", "mathSin", "mathExp", "mathLn", "mathAcos", "mathAsin", "mathAtan", "mathCos", "mathTan", "mathLog"}
var fn2 = []string{"mathAdd", "mathSubract", "mathMultiply", "mathDivide", "mathModulo", "mathPow", "mathAtan2"}

func (f *fgen) fn(a *X, depth int) *X {
	r := f.r
	if depth < 2 && r.Chance(1, 4) {
		a = f.fn(a, depth+1)
	}
	if r.Chance(1, 2) {
		return &X{Op: "func", Fn: fn1[r.Intn(len(fn1))], Kids: []*X{a}}
	}
	b := &X{Op: "value", Lit: []string{"2", "3", "0", "1.5", "-1", "10"}[r.Intn(6)]}
	if r.Chance(1, 3) {
		c, _ := f.ref(false)
		b = c
	}
	k := []*X{a, b}
	if r.Chance(1, 4) && b.Op == "value" {
		k = []*X{b, a}
	}
	return &X{Op: "func", Fn: fn2[r.Intn(len(fn2))], Kids: k}
}

func (f *fgen) gen(depth int) *X {
	r := f.r
	if depth >= f.depth || f.budget <= 0 || r.Chance(1, 5) {
		return f.leaf()
	}
	k := r.Intn(10)
	if k < f.loops && len(f.vars) < f.nested {
		in, n := f.ref(true)
		op := []string{"anyin", "everyin", "anyeveryin"}[r.Intn(3)]
		if f.slow {
			op = "anyin"
		}
		id := 1 + len(f.vars)
		if r.Chance(1, 10) {
			id += 3
		}
		if len(f.vars) > 0 && r.Chance(1, 8) {
			// The variable of an outer loop, which is hidden inside of this one.
			id = f.vars[r.Intn(len(f.vars))]
		}
		f.vars = append(f.vars, id)
		old := f.elem[id]
		f.elem[id] = nil
		if n != nil && n.K == 'a' && len(n.Kids) > 0 {
			f.elem[id] = n.Kids[r.Intn(len(n.Kids))]
		}
		sub := f.gen(depth + 1)
		f.vars = f.vars[:len(f.vars)-1]
		f.elem[id] = old
		return &X{Op: op, Var: id, Kids: []*X{in, sub}}
	}
	k = r.Intn(10)
	switch {
	case k < 2 && !f.slow:
		return &X{Op: "not", Kids: []*X{f.gen(depth + 1)}}
	case k < 6:
		return &X{Op: "and", Kids: f.list(depth)}
	default:
		return &X{Op: "or", Kids: f.list(depth)}
	}
}

func (f *fgen) list(depth int) []*X {
	var out []*X
	n := 2
	if f.r.Chance(1, 3) {
		n = 1 + f.r.Intn(4)
		if f.scale > 0 && f.depth < 8 {
			n = 1 + f.r.Intn(40)
		}
	}
	for k := n; k > 0; k-- {
		if len(out) > 0 && f.budget > 0 && f.r.Chance(1, 8) {
			t := out[f.r.Intn(len(out))]
			if t.size() <= 12 {
				f.budget -= 2
				out = append(out, f.twin(t))
				continue
			}
		}
		out = append(out, f.gen(depth+1))
	}
	return out
}

func (x *X) size() int {
	n := 1
	for _, k := range x.Kids {
		n += k.size()
	}
	return n
}

func (x *X) clone() *X {
	c := *x
	c.Path = append([]string(nil), x.Path...)
	c.Kids = nil
	for _, k := range x.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

// twin returns the expression with the smallest of differences, or none: what is easily
// taken for the same.
func (f *fgen) twin(x *X) *X {
	r := f.r
	c := x.clone()
	if r.Chance(1, 8) {
		return c
	}
	var all []*X
	var walk func(x *X)
	walk = func(x *X) {
		all = append(all, x)
		for _, k := range x.Kids {
			walk(k)
		}
	}
	walk(c)
	// More often than not near the leafs.
	for try := 0; try < 12; try++ {
		if f.tweak(all[r.Intn(len(all))], all) {
			break
		}
	}
	return c
}

func (f *fgen) tweak(x *X, all []*X) bool {
	r := f.r
	switch x.Op {
	case "value":
		if x.Lit == "" {
			return false
		}
		switch {
		case x.Lit[0] == '"':
			in := keyName(x.Lit[1 : len(x.Lit)-1])
			switch {
			case json.Valid([]byte(in)) && strings.IndexByte("{[\" \n\t", in[0]) < 0 && len(in) < 18:
				x.Lit = in
			case in == "":
				x.Lit = `" "`
			case r.Chance(1, 2):
				x.Lit = quote(in+" ", 0, nil)
			default:
				x.Lit = quote(strings.ToUpper(in), 0, nil)
			}
		case x.Lit == "true":
			x.Lit = []string{`"true"`, "1", "false"}[r.Intn(3)]
		case x.Lit == "false":
			x.Lit = []string{`"false"`, "0", "true", "null"}[r.Intn(4)]
		case x.Lit == "null":
			x.Lit = []string{`"null"`, "0", "false", `""`}[r.Intn(4)]
		default:
			switch r.Intn(3) {
			case 0:
				x.Lit = `"` + x.Lit + `"`
			case 1:
				if !strings.ContainsAny(x.Lit, ".eE") && len(x.Lit) < 12 {
					x.Lit += ".0"
				} else {
					return false
				}
			default:
				if x.Lit[0] == '-' {
					x.Lit = x.Lit[1:]
				} else {
					x.Lit = "-" + x.Lit
				}
			}
		}
		return true
	case "field":
		n := len(x.Path)
		switch r.Intn(5) {
		case 0:
			if n > 1 {
				i := r.Intn(n - 1)
				j := x.Path[i] + "." + x.Path[i+1]
				x.Path = append(append(x.Path[:i:i], j), x.Path[i+2:]...)
				return true
			}
		case 1:
			for i, p := range x.Path {
				if k := strings.IndexByte(p, '.'); k > 0 {
					x.Path = append(append(x.Path[:i:i], p[:k], p[k+1:]), x.Path[i+1:]...)
					return true
				}
			}
		case 2:
			if n > 1 {
				x.Path[0], x.Path[n-1] = x.Path[n-1], x.Path[0]
				return true
			}
		case 3:
			if n > 1 || n == 1 && x.Var != 0 {
				x.Path = x.Path[:n-1]
				return true
			}
		default:
			x.Path = append(x.Path, f.v.names[r.Intn(len(f.v.names))])
			return true
		}
		return false
	case "equals", "notequals", "lessthan", "lessequals", "greaterthan", "greaterequals":
		if len(x.Kids) == 2 && !f.slow && r.Chance(1, 3) {
			x.Kids[0], x.Kids[1] = x.Kids[1], x.Kids[0]
			return true
		}
		x.Op = cmpOps[2+r.Intn(len(cmpOps)-2)]
		return true
	case "exists":
		x.Op = "notexists"
		return true
	case "notexists":
		x.Op = "exists"
		return true
	case "anyin", "everyin", "anyeveryin":
		if f.slow {
			return false
		}
		if r.Chance(1, 2) {
			x.Op = []string{"anyin", "everyin", "anyeveryin"}[r.Intn(3)]
			return true
		}
		return false
	case "and", "or":
		if f.slow && x.Op == "or" {
			return false
		}
		if len(x.Kids) > 1 && r.Chance(1, 2) {
			i := r.Intn(len(x.Kids) - 1)
			x.Kids[i], x.Kids[i+1] = x.Kids[i+1], x.Kids[i]
			return true
		}
		if x.Op == "and" {
			x.Op = "or"
		} else if !f.slow {
			x.Op = "and"
		}
		return true
	}
	return false
}

// twinFilter is a filter that differs little from another one.
func twinFilter(r *simrt.Rng, st *setting, of Filter) Filter {
	f := newFgen(r, st.v, st.docs)
	f.slow = of.Kind == "slow"
	out := Filter{Kind: of.Kind}
	which := r.Intn(len(of.Exprs))
	for i, e := range of.Exprs {
		if i == which {
			if x, err := parseX(string(e)); err == nil {
				e = Blob(f.twin(x).String())
			}
		}
		out.Exprs = append(out.Exprs, e)
	}
	return out
}

func (f *fgen) filter(exprs int) Filter {
	out := Filter{Kind: "json"}
	for i := 0; i < exprs; i++ {
		f.budget = 4 + f.r.Intn(10) + f.scale
		if exprs > 8 {
			f.budget = f.r.Intn(4)
		}
		out.Exprs = append(out.Exprs, Blob(f.gen(0).String()))
	}
	return out
}

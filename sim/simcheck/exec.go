//go:build go1.24

package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"

	g "github.com/couchbaselabs/gojsonsm"
	"github.com/couchbaselabs/gojsonsm/simrt"
)

// Outcome is what one operation came to.
type Outcome struct {
	Kind   string // ok, err, panic, fault, hung, blocked, killed, none
	V      bool
	Status int
	Exprs  string
	Out    string // other results
	Detail string // error text, panic text: shown, not compared
	Steps  int64
	err    error
	open   bool // it may need more steps than it was given
}

func (o Outcome) String() string {
	switch o.Kind {
	case "ok":
		if o.Out != "" {
			return "ok " + o.Out
		}
		return fmt.Sprintf("ok verdict=%v status=%d exprs=%s", o.V, o.Status, o.Exprs)
	}
	if o.Kind == "err" && o.Exprs != "" {
		return fmt.Sprintf("err %s (verdict=%v status=%d exprs=%s)", o.Detail, o.V, o.Status, o.Exprs)
	}
	return o.Kind + " " + o.Detail
}

// same tells whether two outcomes agree in everything a caller can observe.
func (o Outcome) same(p Outcome) bool {
	if o.Kind != p.Kind {
		return false
	}
	if o.Kind != "ok" && o.Kind != "err" {
		return true
	}
	return o.V == p.V && o.Status == p.Status && o.Exprs == p.Exprs && o.Out == p.Out
}

func (o Outcome) sameVerdict(p Outcome) bool {
	return o.Kind == p.Kind && (o.Kind != "ok" || (o.V == p.V && o.Exprs == p.Exprs))
}

func (o Outcome) bad() bool { return o.Kind == "panic" || o.Kind == "hung" || o.Kind == "blocked" }

type addrError interface {
	error
	Addr() uintptr
}

// call runs one operation of the code under test inside of a task.
func call(o *Outcome, max int64, fn func(o *Outcome)) {
	o.Kind = "running"
	o.open = max < 0
	if o.open {
		max = -max
	}
	simrt.OpBegin(max)
	func() {
		normal := false
		defer func() {
			if normal {
				return
			}
			if r := recover(); r != nil {
				o.Kind = "panic"
				o.Detail = fmt.Sprint(r)
				if e, ok := r.(addrError); ok {
					o.Kind = "fault"
					o.Detail = "memory fault: " + e.Error()
				}
				if fe, ok := r.(fatalErr); ok {
					panic(fe)
				}
				o.Detail += " at " + panicSite(string(debug.Stack()))
			}
		}()
		// An operation which is cut off has not come to anything yet.
		var done Outcome
		fn(&done)
		*o = done
		normal = true
	}()
	o.Steps = simrt.OpEnd()
}

// panicSite names the innermost function of the code under test on a stack.
func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "runtime/") {
			seen = seen || strings.HasPrefix(l, "panic(")
			continue
		}
		if seen && strings.HasPrefix(l, "github.com/couchbaselabs/gojsonsm.") {
			l = strings.TrimPrefix(l, "github.com/couchbaselabs/gojsonsm.")
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// compiled is a filter which is ready for use, and which tasks may share.
type compiled struct {
	kind  string
	exprs []g.Expression
	def   *g.MatchDef
	texts []*g.FilterExpression // what the texts of a N1QL-like filter were parsed to

	length int
	depth  int // how deep its loops nest
}

type matcher interface {
	Match([]byte) (bool, error)
	MatchWithStatus([]byte) (bool, int, error)
	Reset()
	ExpressionMatched(int) bool
}

func (c *compiled) matcher() matcher {
	if c.kind == "slow" {
		return g.NewSlowMatcher(c.exprs)
	}
	return g.NewFastMatcher(c.def)
}

// parseFilter turns the stored text of a filter into expressions.
func parseFilter(f Filter) ([]g.Expression, []*g.FilterExpression, error) {
	var out []g.Expression
	var texts []*g.FilterExpression
	for _, t := range f.Exprs {
		var e g.Expression
		var err error
		switch f.Kind {
		case "text":
			var fe *g.FilterExpression
			_, fe, err = g.NewFilterExpressionParser(string(t))
			if err == nil {
				e, err = fe.OutputExpression()
				texts = append(texts, fe)
			}
		case "simple":
			e, err = g.ParseSimpleExpression(string(t))
		case "raw":
			e, err = g.ParseJsonExpression([]byte(t))
		default:
			var x *X
			x, err = parseX(string(t))
			if err == nil {
				e, err = x.expr()
			}
		}
		if err != nil {
			return nil, nil, err
		}
		if e == nil {
			return nil, nil, errors.New("no expression")
		}
		out = append(out, e)
	}
	return out, texts, nil
}

func compileFilter(f Filter, t *g.Transformer) (*compiled, error) {
	exprs, texts, err := parseFilter(f)
	if err != nil {
		return nil, err
	}
	c := &compiled{kind: f.Kind, exprs: exprs, texts: texts, length: 8}
	for _, e := range exprs {
		c.length += len(e.String()) / 8
		c.depth = maxInt(c.depth, loopsIn(reflect.ValueOf(e), 0))
	}
	if f.Kind != "slow" {
		c.def = t.Transform(exprs)
	}
	return c, nil
}

// again turns what the texts of a filter were parsed to into expressions once more.
func (c *compiled) again() ([]g.Expression, error) {
	if c.texts == nil {
		return c.exprs, nil
	}
	var out []g.Expression
	for _, t := range c.texts {
		e, err := t.OutputExpression()
		if err != nil {
			return nil, err
		}
		out = append(out, e)
	}
	return out, nil
}

// show looks at a compiled filter without changing it, as a caller does who logs it.
func show(c *compiled) {
	for _, t := range c.texts {
		_ = t.String()
	}
	for _, e := range c.exprs {
		_ = g.CompactExpression(e).String()
	}
	if c.def != nil && c.def.ParseNode != nil {
		_ = c.def.String()
	}
}

// matchBound is how many steps a match may make before it is regarded as hung: far
// more than any match which ends needs. Loops within loops may need more than a
// simulation has time for: the bound is negative then, and a match which reaches it
// is regarded as undecided.
func matchBound(text string, c *compiled) int64 {
	base := int64(len(text)+64) * int64(c.length+16) * 40
	if base < 200_000 {
		base = 200_000
	}
	if max := int64(4_000_000); len(text) < 2000 && c.length < 120 && base > max {
		base = max
	} else if base > 25*max {
		base = 25 * max
	}
	if c.depth < 2 {
		return base
	}
	longest := int64(1 + longestList(text))
	for k := 1; k < c.depth; k++ {
		if base *= longest; base > 200_000_000 {
			return -200_000_000
		}
	}
	return base
}

// undecided tells that a match did not end within the steps it was given, and that
// they may have been too few.
var undecided bool

// longestList is the number of values in the longest array or object of a text.
func longestList(text string) int {
	open := []int{0}
	longest := 0
	quoted := false
	for i := 0; i < len(text); i++ {
		switch c := text[i]; {
		case quoted:
			if c == '\\' {
				i++
			} else if c == '"' {
				quoted = false
			}
		case c == '"':
			quoted = true
		case c == '[' || c == '{':
			open = append(open, 1)
		case (c == ']' || c == '}') && len(open) > 1:
			open = open[:len(open)-1]
		case c == ',':
			open[len(open)-1]++
			longest = maxInt(longest, open[len(open)-1])
		}
	}
	return maxInt(longest, 1)
}

// loopsIn tells how deep the loops of an expression nest, and the references from
// within them to values outside of them.
func loopsIn(e reflect.Value, own g.VariableID) int {
	for e.Kind() == reflect.Interface || e.Kind() == reflect.Ptr {
		e = e.Elem()
	}
	d := 0
	switch e.Kind() {
	case reflect.Slice:
		for i := 0; i < e.Len(); i++ {
			d = maxInt(d, loopsIn(e.Index(i), own))
		}
	case reflect.Struct:
		in, more := own, 0
		switch x := e.Interface().(type) {
		case g.AnyInExpr:
			in, more = x.VarId, 1
		case g.EveryInExpr:
			in, more = x.VarId, 1
		case g.AnyEveryInExpr:
			in, more = x.VarId, 1
		case g.FieldExpr:
			if x.Root != own {
				return 1
			}
			return 0
		case g.FuncExpr:
			return loopsIn(reflect.ValueOf(x.Params), own)
		}
		for i := 0; i < e.NumField(); i++ {
			switch e.Type().Field(i).Name {
			case "InExpr", "Lhs", "Rhs":
				d = maxInt(d, loopsIn(e.Field(i), own))
			case "SubExpr":
				d = maxInt(d, loopsIn(e.Field(i), in))
			}
		}
		d += more
	}
	return d
}

// callBound is for calls whose inputs are small: what takes more steps does not end.
const callBound = 60_000_000

func parseBound(text int) int64 {
	n := int64(text+64) * int64(text+64) * 60
	if text < 256 && n > 3_000_000 {
		n = 3_000_000
	} else if n > 1_000_000_000 {
		n = 1_000_000_000
	}
	return n
}

func doMatch(o *Outcome, m matcher, n int, data []byte, plain bool) {
	var v bool
	var st int
	var err error
	if plain {
		v, err = m.Match(data)
	} else {
		v, st, err = m.MatchWithStatus(data)
	}
	o.Kind, o.V, o.Status = "ok", v, st
	if err != nil {
		o.Kind, o.err = "err", err
		if !keepErrors {
			o.Detail = err.Error()
		}
	}
	o.Exprs = exprBits(m, n)
}

// keepErrors makes callers look at the errors of matches later.
var keepErrors bool

func exprBits(m matcher, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0'
		if m.ExpressionMatched(i) {
			b[i] = '1'
		}
	}
	return string(b)
}

func removeResult(dst []byte, n, cnt int, left bool, removed map[string][]byte) string {
	var sb strings.Builder
	if n < 0 || n > len(dst) {
		fmt.Fprintf(&sb, "len=%d of %d ", n, len(dst))
	} else {
		fmt.Fprintf(&sb, "%s ", dst[:n])
	}
	fmt.Fprintf(&sb, "count=%d left=%v", cnt, left)
	keys := make([]string, 0, len(removed))
	for k := range removed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(&sb, " %q=%s", k, removed[k])
	}
	return sb.String()
}

// world is the simulated process: what its tasks share.
type world struct {
	plan    *Plan
	filters []*compiled
	ferr    []string
	docs    []*region
	names   [][]string
	outs    [][]Outcome
	sim     *simrt.Sim
	tasks   []*simrt.Task
	buffer  *region       // of a caller who has only one
	shared  g.Transformer // only used by compilations in the host
}

// restart begins a new life of the process: package state is as at its start, and
// filters are compiled from their stored texts.
func newWorld(p *Plan, host simrt.Env) *world {
	w := &world{plan: p}
	simrt.SetIdleEnv(host)
	g.SimReset()
	w.filters = make([]*compiled, len(p.Filters))
	w.ferr = make([]string, len(p.Filters))
	for i := range p.Filters {
		if p.Filters[i].Late {
			w.ferr[i] = "late"
			continue
		}
		w.filters[i], w.ferr[i] = hostCompile(p.Filters[i])
	}
	return w
}

// hostCompile compiles a filter in a task of its own, so that it is bounded.
func hostCompile(f Filter) (*compiled, string) {
	var c *compiled
	var o Outcome
	solo(&o, callBound, func(o *Outcome) {
		var t g.Transformer
		var err error
		c, err = compileFilter(f, &t)
		if err != nil {
			o.Kind, o.Detail = "err", err.Error()
			return
		}
		o.Kind = "ok"
	})
	if o.Kind != "ok" {
		probe("filters rejected: " + f.Kind)
		return nil, o.Kind + ": " + o.Detail
	}
	probe("filters compiled: " + f.Kind)
	return c, ""
}

// soloEnv is the host for operations which run on their own.
var soloEnv = simrt.Env{ClockNS: 1_600_000_000_000_000_000, CPUs: 8}

// solo runs one operation alone, in a simulation with a single task.
func solo(o *Outcome, max int64, fn func(o *Outcome)) {
	s := simrt.New(soloEnv)
	t := s.Spawn("solo", func() { call(o, max, fn) })
	s.Run(simrt.NewPolicy(simrt.Sched{Policy: "serial"}))
	finish(s, t, o)
	stats.steps += s.Steps
	leftBehind += s.Left
}

// leftBehind counts the goroutines that operations left behind, waiting for good.
var leftBehind int

func finish(s *simrt.Sim, t *simrt.Task, o *Outcome) {
	if o.Kind == "running" {
		switch {
		case t.Hung:
			o.Kind, o.Detail = "hung", "at "+simrt.SiteName(t.HungAt)
			undecided = undecided || o.open
		case s.Deadlock != "":
			o.Kind, o.Detail = "blocked", s.Deadlock
		case t.Killed:
			o.Kind, o.Detail = "killed", ""
		default:
			o.Kind, o.Detail = "panic", fmt.Sprint(t.Crashed)
		}
	}
	if t.Crashed != nil {
		if fe, ok := t.Crashed.(fatalErr); ok {
			panic(fe)
		}
		if !t.Killed {
			// The harness itself has failed.
			panic(fatalErr(fmt.Sprintf("harness: %v\n%s", t.Crashed, t.Stack)))
		}
	}
}

// docFor places the document of an operation in memory.
func (w *world) docFor(op Op) *region {
	text := string(w.plan.Docs[op.D])
	readable := -1
	for _, f := range op.Fault {
		if f.Kind == "unreadable" {
			readable = minInt(f.At, len(text))
			countFault("unreadable")
			continue
		}
		t2 := f.apply(text)
		if t2 != text {
			countFault(f.Kind)
		}
		text = t2
	}
	if simrt.RaceBuild && readable < 0 {
		return heapRegion(text)
	}
	return getArena().place(text, readable)
}

// refill reads a document into the one buffer which the caller has.
func (w *world) refill(regs []*region, text string) []byte {
	if w.buffer == nil {
		most := 0
		for _, g := range regs {
			if g != nil {
				most = maxInt(most, len(g.text))
			}
		}
		w.buffer = getArena().place(strings.Repeat(" ", most), -1)
	}
	b := w.buffer
	b.protect(syscall.PROT_READ | syscall.PROT_WRITE)
	copy(b.data, text)
	b.protect(syscall.PROT_READ)
	countFault("buffer reused")
	return b.data[:len(text)]
}

func (op Op) unreadable() bool {
	for _, f := range op.Fault {
		if f.Kind == "unreadable" {
			return true
		}
	}
	return false
}

// run executes the tasks (all of them, or only one) under a schedule.
func (w *world) run(only int, sched simrt.Sched, host simrt.Env) {
	p := w.plan
	getArena().reset()
	w.buffer = nil
	if w.docs == nil {
		for i := range p.Docs {
			w.docs = append(w.docs, w.docFor(Op{D: i}))
		}
	}
	s := simrt.New(host)
	s.CrashAt = p.CrashAt
	if only >= 0 {
		s.CrashAt = 0
	}
	w.sim = s
	w.outs = make([][]Outcome, len(p.Tasks))
	w.tasks = make([]*simrt.Task, len(p.Tasks))
	type prep struct{ docs []*region }
	for ti := range p.Tasks {
		w.outs[ti] = make([]Outcome, len(p.Tasks[ti].Ops))
		for oi := range w.outs[ti] {
			w.outs[ti][oi].Kind = "none"
		}
		if only >= 0 && ti != only {
			continue
		}
		ops := p.Tasks[ti].Ops
		regs := make([]*region, len(ops))
		for oi, op := range ops {
			if len(op.Fault) > 0 {
				regs[oi] = w.docFor(op)
			} else if op.D < len(w.docs) {
				regs[oi] = w.docs[op.D]
			}
		}
		outs := w.outs[ti]
		w.tasks[ti] = s.Spawn(fmt.Sprintf("caller%d", ti), func() { w.task(ops, regs, outs) })
	}
	s.Run(simrt.NewPolicy(sched))
	for ti, t := range w.tasks {
		if t == nil {
			continue
		}
		for oi := range w.outs[ti] {
			if w.outs[ti][oi].Kind == "running" {
				finish(s, t, &w.outs[ti][oi])
			}
		}
		if t.Crashed != nil && !t.Killed {
			panic(fatalErr(fmt.Sprintf("harness: %v\n%s", t.Crashed, t.Stack)))
		}
	}
	stats.steps += s.Steps
	if only < 0 {
		stats.simNS += s.ClockNS() - host.ClockNS
		stats.switches += int64(s.Switches)
		stats.stalls += int64(s.Stalls)
		if s.Stalls > 0 {
			countFault("stall")
		}
		stats.crashed += int64(s.CrashedN)
		if s.CrashedN > 0 {
			countFault("crash")
		}
		stats.sawSchedule(s.Hash)
	}
}

// task is the life of one caller.
func (w *world) task(ops []Op, regs []*region, outs []Outcome) {
	ms := map[int]matcher{}
	own := map[int]*compiled{}
	used := map[int]bool{}
	var trans g.Transformer
	for i := range ops {
		op := ops[i]
		o := &outs[i]
		if i > 300 && i < len(ops)-10 && w.sim.Work() > 100_000 {
			// Each call keeps others busy: there is no time for so many of them.
			o.Kind = "skipped"
			continue
		}
		var data []byte
		if regs[i] != nil {
			data = regs[i].data
		}
		if w.plan.Kind == "buffer" && regs[i] != nil && !op.unreadable() {
			data = w.refill(regs, regs[i].text)
		}
		switch op.K {
		case "match":
			c := own[op.F]
			if c == nil {
				c = w.filters[op.F]
			}
			if c == nil {
				o.Kind = "nofilter"
				continue
			}
			key := op.M*100 + op.F
			m := ms[key]
			if m == nil {
				m = c.matcher()
				ms[key] = m
			}
			call(o, matchBound(regs[i].text, c), func(o *Outcome) {
				if used[key] {
					m.Reset()
				}
				used[key] = true
				doMatch(o, m, len(c.exprs), data, op.Flag)
			})
		case "own": // compile a filter of one's own, and use it from now on
			call(o, callBound, func(o *Outcome) {
				t := &trans
				if op.Flag {
					t = new(g.Transformer)
				}
				c, err := compileFilter(w.plan.Filters[op.F], t)
				if err != nil {
					o.Kind, o.Detail = "err", err.Error()
					return
				}
				o.Kind = "ok"
				o.Out = describe(c)
				own[op.F] = c
				for k := range ms {
					if k%100 == op.F {
						delete(ms, k)
						delete(used, k)
					}
				}
			})
		case "get": // the one call interface
			call(o, callBound, func(o *Outcome) {
				f := w.plan.Filters[op.F]
				m, err := g.GetFilterExpressionMatcher(string(f.Exprs[0]))
				if err != nil {
					o.Kind, o.Detail = "err", err.Error()
					return
				}
				v, st, err := m.MatchWithStatus(data)
				if err != nil {
					o.Kind, o.Detail = "err", err.Error()
					return
				}
				o.Kind, o.V, o.Status = "ok", v, st
			})
		case "recompile": // compile the shared expressions once more
			c := w.filters[op.F]
			if c == nil || c.kind == "slow" {
				o.Kind = "nofilter"
				continue
			}
			call(o, callBound, func(o *Outcome) {
				t := &trans
				if op.Flag {
					t = new(g.Transformer)
				}
				exprs := c.exprs
				if op.M > 0 {
					var err error
					if exprs, err = c.again(); err != nil {
						o.Kind, o.Detail = "err", err.Error()
						return
					}
				}
				own[op.F] = &compiled{kind: c.kind, exprs: exprs, def: t.Transform(exprs), length: c.length, depth: c.depth}
				o.Kind = "ok"
				o.Out = describe(own[op.F])
				for k := range ms {
					if k%100 == op.F {
						delete(ms, k)
						delete(used, k)
					}
				}
			})
		case "show":
			c := w.filters[op.F]
			if c == nil {
				o.Kind = "nofilter"
				continue
			}
			call(o, callBound, func(o *Outcome) {
				show(c)
				o.Kind = "ok"
				o.Out = describe(c)
			})
		case "remove":
			call(o, 200_000+int64(len(data)+16)*int64(40+10*len(op.Names)), func(o *Outcome) {
				var dst []byte
				if op.N > 0 {
					dst = make([]byte, op.N-1)
				} else {
					dst = make([]byte, len(data))
				}
				removed := map[string][]byte{}
				n, cnt, left, err := g.MatchAndRemoveItemsFromJsonObject(data, op.Names, dst, removed)
				if err != nil {
					o.Kind, o.Detail = "err", err.Error()
					return
				}
				o.Kind = "ok"
				o.Out = removeResult(dst, n, cnt, left, removed)
			})
		default:
			panic("unknown operation " + op.K)
		}
	}
}

// describe is what one can see of a compiled filter: its expressions.
func describe(c *compiled) string {
	var sb strings.Builder
	for _, e := range c.exprs {
		sb.WriteString(e.String())
		sb.WriteByte(';')
	}
	return sb.String()
}

ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c14-date-memo', property='C14',
  needs='a process that keeps meeting dates it has never seen before',
  breaks='parsed dates are remembered by their text for as long as the process lives',
  edits=[('fastval_date.go', '''			str = fmt.Sprintf(`%s`, binVal.sliceData)
		}
		timeVal, err := time.Parse(time.RFC3339, str)
		if err != nil {
			return NewInvalidFastVal()
		}
		return NewTimeFastVal(&timeVal)''', '''			str = fmt.Sprintf(`%s`, binVal.sliceData)
		}
		// The same dates come up again and again
		if known, ok := knownDates.Load(str); ok {
			return NewTimeFastVal(known.(*time.Time))
		}
		timeVal, err := time.Parse(time.RFC3339, str)
		if err != nil {
			return NewInvalidFastVal()
		}
		knownDates.Store(str, &timeVal)
		return NewTimeFastVal(&timeVal)'''),
   ('fastval_date.go', '''	"regexp"
	"time"
)
''', '''	"regexp"
	"sync"
	"time"
)

var knownDates sync.Map
'''), ('fastval_date.go', '''		str := isoToRfc(val.data.(string))
''', '''		text := val.data.(string)
		str := isoToRfc(text)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["lessthan", ["func", "date", ["field", "d"]], ["time", "2019-01-01"]]`)
	m := NewFastMatcher(def)
	grow := func(from, n int) int64 {
		var a, b runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&a)
		for i := from; i < from+n; i++ {
			m.Reset()
			m.Match([]byte(fmt.Sprintf(`{"d":"2018-01-01T%02d:%02d:%02d.%03dZ"}`, i/3600000%24, i/60000%60, i/1000%60, i%1000)))
		}
		runtime.GC()
		runtime.ReadMemStats(&b)
		return int64(b.HeapAlloc) - int64(a.HeapAlloc)
	}
	grow(0, 1000)
	if n := grow(1000, 100000); n > 4000000 {
		t.Fatal("kept", n)
	}
}
''', 'fmt', 'runtime'))

bug(id='c14-fail-log', property='C14',
  needs='many documents on which matching fails, with one matcher',
  breaks='a matcher remembers where every document failed that it has ever seen',
  edits=[('fastMatcher.go', '''	tokens      jsonTokenizer
	collateUsed bool
}''', '''	tokens      jsonTokenizer
	failedAt    []int
	collateUsed bool
}'''), ('fastMatcher.go', '''	err = m.matchExec(token, tokenData, tokenDataLen, m.def.ParseNode)
	if err != nil {
		return false, err
	}
''', '''	if err = m.matchExec(token, tokenData, tokenDataLen, m.def.ParseNode); err != nil {
		m.failedAt = append(m.failedAt, m.tokens.Position())
		return false, err
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["exists", ["field", "d"]]`)
	m := NewFastMatcher(def)
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := 0; i < 500000; i++ {
		m.Reset()
		m.Match([]byte(`{"x":`))
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	if n := int64(b.HeapAlloc) - int64(a.HeapAlloc); n > 2000000 {
		t.Fatal("kept", n)
	}
	runtime.KeepAlive(m)
}
''', 'runtime'))

bug(id='c14-key-table', property='C14',
  needs='documents whose member names keep changing',
  breaks='a matcher keeps the name of every member it has ever read, to save conversions',
  edits=[('fastMatcher.go', '''	tokens      jsonTokenizer
	collateUsed bool
}''', '''	tokens      jsonTokenizer
	keys        map[string]string
	collateUsed bool
}

// keyOf returns the name of a member, without allocating it once more.
func (m *FastMatcher) keyOf(keyBytes []byte) string {
	if key, ok := m.keys[string(keyBytes)]; ok {
		return key
	}
	if m.keys == nil {
		m.keys = make(map[string]string)
	}
	key := string(keyBytes)
	m.keys[key] = key
	return key
}'''), ('fastMatcher.go', '''			keyString = string(keyBytes)
''', '''			keyString = m.keyOf(keyBytes)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["exists", ["field", "d"]]`)
	m := NewFastMatcher(def)
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := 0; i < 100000; i++ {
		m.Reset()
		m.Match([]byte(fmt.Sprintf(`{"x%d":1}`, i)))
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	if n := int64(b.HeapAlloc) - int64(a.HeapAlloc); n > 2000000 {
		t.Fatal("kept", n)
	}
	runtime.KeepAlive(m)
}
''', 'fmt', 'runtime'))

bug(id='c14-dirty-list', property='C14',
  needs='documents which fail inside of a loop, again and again, with one matcher',
  breaks='the list of the nodes that have to be cleared is not emptied if the match ended inside of a loop, so each reset takes longer',
  edits=[('bintree.go', '''	data       []binTreeStateValue
	stallIndex int
}''', '''	data       []binTreeStateValue
	dirty      []int
	stallIndex int
}'''), ('bintree.go', '''	state.stallIndex = 0
	for i := range state.data {
		state.data[i] = binTreeStateUnknown
	}
''', '''	// Only clear what has been set
	for _, i := range state.dirty {
		state.data[i] = binTreeStateUnknown
	}
	if state.stallIndex == 0 {
		state.dirty = state.dirty[:0]
	}
	state.stallIndex = 0
'''), ('bintree.go', '''			state.data[defNode.Left] = binTreeStateResolved
''', '''			state.data[defNode.Left] = binTreeStateResolved
			state.dirty = append(state.dirty, defNode.Left)
'''), ('bintree.go', '''			state.data[defNode.Right] = binTreeStateResolved
''', '''			state.data[defNode.Right] = binTreeStateResolved
			state.dirty = append(state.dirty, defNode.Right)
'''), ('bintree.go', '''	if value {
		state.data[index] = binTreeStateTrue
''', '''	state.dirty = append(state.dirty, index)
	if value {
		state.data[index] = binTreeStateTrue
'''), ('bintree.go', '''	for i, item := range ostate.data {
		state.data[i] = item
	}
''', '''	for i, item := range ostate.data {
		state.data[i] = item
		state.dirty = append(state.dirty, i)
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["everyin", 1, ["field", "a"], ["equals", ["field", 1], ["value", 1]]]`)
	m := NewFastMatcher(def)
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := 0; i < 3000; i++ {
		m.Reset()
		m.Match([]byte(`{"a":[1,1,1,1,1,1,1,1,1,1`))
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	if n := int64(b.HeapAlloc) - int64(a.HeapAlloc); n > 100000 {
		t.Fatal("kept", n)
	}
	runtime.KeepAlive(m)
}
''', 'runtime'))

bug(id='c14-removed-totals', property='C14',
  needs='a process that removes members of ever new names',
  breaks='the package counts for every name how often it was removed',
  edits=[('jsonComposer.go', '''			removed[keyToRemove] = src[valStart:valEnd]
			removedLen++
''', '''			removed[keyToRemove] = src[valStart:valEnd]
			removedLen += countRemoved(keyToRemove)
'''), ('jsonComposer.go', '''import (
	"fmt"
)
''', '''import (
	"fmt"
	"sync"
	"sync/atomic"
)

var removedTotals sync.Map

func countRemoved(name string) int {
	total, _ := removedTotals.LoadOrStore(name, new(int64))
	atomic.AddInt64(total.(*int64), 1)
	return 1
}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := 0; i < 50000; i++ {
		k := fmt.Sprintf("k%d", i)
		MatchAndRemoveItemsFromJsonObject([]byte(`{"`+k+`":1}`), []string{k}, nil, nil)
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	if n := int64(b.HeapAlloc) - int64(a.HeapAlloc); n > 1500000 {
		t.Fatal("kept", n)
	}
}
''', 'fmt', 'runtime'))

bug(id='c10-negation-consumed', property='C10',
  needs='the same parsed text with a negated field turned into an expression twice',
  breaks='turning a parsed filter into an expression uses up the negations of its fields',
  edits=[('filterExprParser.go', '''		mathOutExpr.FuncName = MathFuncNeg
		mathOutExpr.Params = append(mathOutExpr.Params, outExpr)
		return mathOutExpr, nil
	} else {
		return outExpr, nil
	}
}''', '''		mathOutExpr.FuncName = MathFuncNeg
		f.MathNeg = nil
		inner, err := f.OutputExpression()
		if err != nil {
			return inner, err
		}
		mathOutExpr.Params = append(mathOutExpr.Params, inner)
		return mathOutExpr, nil
	} else {
		return outExpr, nil
	}
}''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	_, fe, err := NewFilterExpressionParser("-a = 5 AND b = 1")
	if err != nil {
		t.Fatal(err)
	}
	e1, err := fe.OutputExpression()
	if err != nil {
		t.Fatal(err)
	}
	e2, err := fe.OutputExpression()
	if err != nil || e1.String() != e2.String() {
		t.Fatal(err, e1, e2)
	}
}
'''))

bug(id='c10-fold', property='C10',
  needs='a function whose parameter is a function of constants, compiled twice from the same expression (or by two callers at once)',
  breaks='the compiler folds negated constants in the expression of the caller',
  edits=[('transform.go', '''		for _, paramExpr := range expr.Params {
			param, err := t.makeDataRefRecurse(paramExpr, context, false)
''', '''		for i, paramExpr := range expr.Params {
			// Negated constants need not be computed for every document
			if fn, ok := paramExpr.(FuncExpr); ok && fn.FuncName == MathFuncNeg && len(fn.Params) == 1 {
				if val, ok := fn.Params[0].(ValueExpr); ok {
					if num, ok := val.Value.(float64); ok {
						paramExpr = ValueExpr{-num}
						expr.Params[i] = paramExpr
					}
				}
			}
			param, err := t.makeDataRefRecurse(paramExpr, context, false)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	e, err := ParseJsonExpression([]byte(`["equals", ["func", "mathAdd", ["field", "a"], ["func", "mathNeg", ["value", 2]]], ["value", 1]]`))
	if err != nil {
		t.Fatal(err)
	}
	before := e.String()
	var tr Transformer
	tr.Transform([]Expression{e})
	if e.String() != before {
		t.Fatal("changed from", before, "to", e)
	}
}
'''))

bug(id='c11-deadline', property='C11',
  needs='the clock of the host jumps ahead while an array is searched',
  breaks='a loop which seems to take longer than a second is given up as false',
  edits=[('fastMatcher.go', '''		iterationMatched := m.buckets.IsTrue(loopBucketIdx)
''', '''		// Do not let a single document hold up everything else
		iterationMatched := m.buckets.IsTrue(loopBucketIdx)
		if i%2 == 1 && time.Now().Unix()-started > 1 {
			loopState = false
			if err = m.leaveValue(); err != nil {
				return err
			}
			break
		}
'''), ('fastMatcher.go', '''	var loopState bool
	if loop.Mode == LoopTypeAny {
''', '''	var loopState bool
	started := time.Now().Unix()
	if loop.Mode == LoopTypeAny {
'''), ('fastMatcher.go', '''	"fmt"
)''', '''	"fmt"
	"time"
)''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["everyin", 1, ["field", "a"], ["everyin", 2, ["field", 1], ["equals", ["field", 2], ["value", 1]]]]`)
	m := NewFastMatcher(def)
	inner := append([]byte("[1"), bytes.Repeat([]byte(",1"), 12000000)...)
	inner = append(inner, ']')
	doc := append([]byte(`{"a":[`), inner...)
	for i := 0; i < 7; i++ {
		doc = append(doc, ',')
		doc = append(doc, inner...)
	}
	doc = append(doc, "]}"...)
	if ok, err := m.Match(doc); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
''', 'bytes'))

bug(id='c01-move-to-front', property='C01',
  needs='two matchers of one filter, one of which is interrupted while another one reorders the shared operations',
  breaks='the operation which decides a filter is moved to the front, in the definition which all matchers share',
  edits=[('fastMatcher.go', '''		litVal := litParse.Parse(token, tokenData)

		for _, op := range node.Ops {
			err := m.matchOp(&op, &litVal)
			if err != nil {
				return err
			}

			if m.buckets.IsResolved(0) {
				return nil
			}
		}
''', '''		litVal := litParse.Parse(token, tokenData)

		for i := range node.Ops {
			op := node.Ops[i]
			err := m.matchOp(&op, &litVal)
			if err != nil {
				return err
			}

			if m.buckets.IsResolved(0) {
				if i > 0 {
					// Try this one first the next time
					node.Ops[i] = node.Ops[0]
					node.Ops[0] = op
				}
				return nil
			}
		}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["or", ["equals", ["field", "a"], ["value", 1]], ["equals", ["field", "a"], ["value", 2]], ["equals", ["field", "a"], ["value", 3]]]`)
	before := def.ParseNode.Elems["a"].String()
	m := NewFastMatcher(def)
	m.Match([]byte(`{"a":3}`))
	if def.ParseNode.Elems["a"].String() != before {
		t.Fatal("a match has changed the filter that is shared")
	}
}
'''))

bug(id='c02-lazy-high', property='C02',
  needs='a document that resolves nodes with a higher index only because their parent got decided, and then one that needs them',
  breaks='a reset clears the nodes only up to the highest that was marked itself',
  edits=[('bintree.go', '''	data       []binTreeStateValue
	stallIndex int
}''', '''	data       []binTreeStateValue
	high       int
	stallIndex int
}'''), ('bintree.go', '''	for i := range state.data {
		state.data[i] = binTreeStateUnknown
	}
''', '''	for i := 0; i < len(state.data) && i <= state.high; i++ {
		state.data[i] = binTreeStateUnknown
	}
	state.high = 0
'''), ('bintree.go', '''	if value {
		state.data[index] = binTreeStateTrue
''', '''	if index > state.high {
		state.high = index
		if right := state.tree.data[index].Right; right > state.high {
			state.high = right
		}
		if index > 0 {
			if right := state.tree.data[state.tree.data[index].ParentIdx].Right; right > state.high {
				state.high = right
			}
		}
	}
	if value {
		state.data[index] = binTreeStateTrue
'''), ],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["or", ["equals", ["field", "a"], ["value", 1]], ["and", ["equals", ["field", "b"], ["value", 1]], ["or", ["equals", ["field", "c"], ["value", 1]], ["equals", ["field", "d"], ["value", 1]]]]]`)
	m := NewFastMatcher(def)
	m.Match([]byte(`{"a":1}`))
	m.Reset()
	if ok, err := m.Match([]byte(`{"b":1,"d":1}`)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c02-collate-late', property='C02',
  needs='a match without status that collates, a reset, and a match with status on a document without collation',
  breaks='the collation flag is cleared when it is read, not by a reset',
  edits=[('fastMatcher.go', '''	m.buckets.Reset()
	m.collateUsed = false
}''', '''	m.buckets.Reset()
}'''), ('fastMatcher.go', '''	matched, err := m.Match(data)
	if m.collateUsed {
		statusFlags |= MatcherCollateUsed
	}
''', '''	matched, err := m.Match(data)
	if m.collateUsed {
		statusFlags |= MatcherCollateUsed
		m.collateUsed = false
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["lessthan", ["field", "a"], ["value", 5]]`)
	m := NewFastMatcher(def)
	m.Match([]byte(`{"a":"x"}`))
	m.Reset()
	if _, st, err := m.MatchWithStatus([]byte(`{"a":1}`)); st != 0 || err != nil {
		t.Fatal(st, err)
	}
}
'''))

bug(id='c05-same-buffer', property='C05',
  needs='a caller that reads document after document of the same length into one buffer',
  breaks='a document in the same place and of the same length as the last is taken for the same one',
  edits=[('fastMatcher.go', '''	tokens      jsonTokenizer
	collateUsed bool
}''', '''	tokens      jsonTokenizer
	collateUsed bool

	pending bool
	lastDoc []byte
	last    bool
}'''), ('fastMatcher.go', '''func (m *FastMatcher) Reset() {
	for i''', '''func (m *FastMatcher) Reset() {
	m.pending = true
}

// sameDoc tells whether the document is the one that was matched last, the state is
// cleared if it isn't.
func (m *FastMatcher) sameDoc(data []byte) bool {
	if !m.pending {
		return false
	}
	m.pending = false
	if len(m.lastDoc) > 0 && len(m.lastDoc) == len(data) && &m.lastDoc[0] == &data[0] {
		return true
	}
	m.lastDoc = nil
	m.clear()
	return false
}

func (m *FastMatcher) clear() {
	for i'''), ('fastMatcher.go', '''	m.tokens.Reset(data)

	if len(data) == 0 {
		return false, nil
	}
''', '''	if m.sameDoc(data) {
		return m.last, nil
	}
	m.tokens.Reset(data)

	if len(data) == 0 {
		return false, nil
	}
'''), ('fastMatcher.go', '''	return m.buckets.IsTrue(0) || m.hasAlwaysTrue(), nil
}''', '''	m.last = m.buckets.IsTrue(0) || m.hasAlwaysTrue()
	m.lastDoc = data
	return m.last, nil
}''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["value", 1]]`)
	m := NewFastMatcher(def)
	buf := []byte(`{"a":1}`)
	m.Match(buf)
	copy(buf, `{"a":2}`)
	m.Reset()
	if ok, err := m.Match(buf); ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c06-name-set', property='C06',
  needs='a removal of several names that fails on a torn document, and then another one with other names',
  breaks='the set of names which is kept for the next call is only emptied if the call succeeded',
  edits=[('jsonComposer.go', '''	composer := &jsonObjComposer{
		body: dst,
	}
''', '''	composer := &jsonObjComposer{
		body: dst,
	}

	// Most members are not among many names
	var names map[string]bool
	if len(remove) > 3 {
		names = namePool.Get().(map[string]bool)
		defer namePool.Put(names)
		for _, name := range remove {
			names[name] = true
		}
		if len(names) > len(remove) {
			// Names that share the work of this call
			all := make([]string, 0, len(names))
			for name := range names {
				all = append(all, name)
			}
			remove = all
		}
	}
'''), ('jsonComposer.go', '''	if depth != 0 {
		return handleError(ErrInvalidJSON)
	}

	dstLen''', '''	if depth != 0 {
		return handleError(ErrInvalidJSON)
	}
	for name := range names {
		delete(names, name)
	}

	dstLen'''), ('jsonComposer.go', '''import (
	"fmt"
)
''', '''import (
	"fmt"
	"sync"
)

var namePool = sync.Pool{New: func() interface{} { return map[string]bool{} }}
'''), ('jsonComposer.go', '''			if !BytesEqualsString(key, keyToRemove) {
				continue
			}
''', '''			if len(key) != len(keyToRemove) || !BytesEqualsString(key, keyToRemove) {
				continue
			}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		MatchAndRemoveItemsFromJsonObject([]byte(`{"a":1,"b":[}`), []string{"a", "b", "c", "d"}, nil, nil)
		dst := make([]byte, 100)
		n, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"a":1,"x":2}`), []string{"x", "y", "z", "w"}, dst, nil)
		if err != nil || string(dst[:n]) != `{"a":1}` {
			t.Fatal(string(dst[:n]), err)
		}
	}
}
'''))

bug(id='c07-last-brace', property='C07',
  needs='a destination that is exactly one byte too small',
  breaks='a closing brace which does not fit replaces the last byte, and the call reports success',
  edits=[('jsonComposer.go', '''	if len(data) > len(composer.body)-composer.pos {
		return ErrInsufficientMemory
	}
''', '''	if tknType == tknObjectEnd && composer.pos > 1 && composer.pos == len(composer.body) {
		// There always has to be space for the end
		composer.pos--
	}
	if len(data) > len(composer.body)-composer.pos {
		return ErrInsufficientMemory
	}
''' ), ('jsonComposer.go', '''	composer.pos += len(data)
	composer.prevTokenType = tknType
''', '''	composer.prevTokenType = tknType
	composer.pos += len(data)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	n, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"a":1,"x":2}`), []string{"x"}, make([]byte, 6), nil)
	if err == nil {
		t.Fatal("reported success", n)
	}
}
'''))

bug(id='c12-compile-lock', property='C12',
  needs='a compilation that stalls while another caller compiles',
  breaks='only one filter at a time is compiled in the whole process',
  edits=[('transform.go', '''func (t *Transformer) Transform(exprs []Expression) *MatchDef {
	t.RootExec = &ExecNode{}
''', '''var transformLock sync.Mutex

func (t *Transformer) Transform(exprs []Expression) *MatchDef {
	transformLock.Lock()
	defer transformLock.Unlock()

	t.RootExec = new(ExecNode)
'''), ('transform.go', '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
  demo=demo('''
type demoExpr struct {
	Expression
	started, done chan bool
}

func (e demoExpr) GetSubExprs() []Expression { return nil }

func TestDemo(t *testing.T) {
	// A compilation that panics half way while another one runs is no good way to
	// show this, so run many at once and look for the lock.
	if runtime.GOMAXPROCS(0) < 2 {
		runtime.GOMAXPROCS(2)
	}
	runtime.SetMutexProfileFraction(1)
	defer runtime.SetMutexProfileFraction(0)
	var wg sync.WaitGroup
	e, err := ParseJsonExpression([]byte(`["or", ["equals", ["field", "a"], ["value", 1]], ["equals", ["field", "b"], ["value", 1]]]`))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20000; k++ {
				var tr Transformer
				tr.Transform([]Expression{e})
			}
		}()
	}
	wg.Wait()
	var recs [1000]runtime.BlockProfileRecord
	n, _ := runtime.MutexProfile(recs[:])
	for _, r := range recs[:n] {
		frames := runtime.CallersFrames(r.Stack())
		for {
			f, more := frames.Next()
			if strings.HasSuffix(f.Function, "Transformer).Transform") {
				t.Fatal("compilations wait for each other")
			}
			if !more {
				break
			}
		}
	}
}
''', 'runtime', 'strings', 'sync').replace('''type demoExpr struct {
	Expression
	started, done chan bool
}

func (e demoExpr) GetSubExprs() []Expression { return nil }

''', ''))

bug(id='c12-spin', property='C12',
  needs='a caller that stalls while it parses a date, and another one that parses a date meanwhile',
  breaks='callers spin until the one that uses the buffer for dates is done',
  edits=[('fastval_date.go', '''	switch val.Type() {
	case TimeValue:
		return val
	case JsonStringValue:
		fallthrough
	case BinStringValue:
		binVal, _ := val.ToBinString()
''', '''	switch val.Type() {
	case TimeValue:
		return val
	case JsonStringValue:
		fallthrough
	case BinStringValue:
		for !atomic.CompareAndSwapInt32(&dateBusy, 0, 1) {
			runtime.Gosched()
		}
		defer atomic.StoreInt32(&dateBusy, 0)
		binVal, _ := val.ToBinString()
		dateBuffer = append(dateBuffer[:0], binVal.sliceData...)
		binVal.sliceData = dateBuffer
'''), ('fastval_date.go', '''	"regexp"
	"time"
)
''', '''	"regexp"
	"runtime"
	"sync/atomic"
	"time"
)

var dateBusy int32
var dateBuffer []byte
'''), ('fastval_date.go', '''			str = fmt.Sprintf(`%s`, binVal.sliceData)
''', '''			str = string(binVal.sliceData)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	// Documents in memory that blocks the reader: a panic half way must not leave
	// the others waiting either.
	done := make(chan bool)
	go func() {
		defer func() {
			recover()
			close(done)
		}()
		mem, err := syscall.Mmap(-1, 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			return
		}
		syscall.Mprotect(mem[4096:], syscall.PROT_NONE)
		debug.SetPanicOnFault(true)
		FastValDateFunc(NewBinStringFastVal(mem[4000:4200]))
	}()
	<-done
	// While this one is in the middle of a long date, another one has to get on.
	long := make([]byte, 200000000)
	for i := range long {
		long[i] = ' '
	}
	copy(long, "2018-01-01")
	fin := make(chan bool)
	go func() {
		FastValDateFunc(NewBinStringFastVal(long))
		close(fin)
	}()
	time.Sleep(30 * time.Millisecond)
	other := make(chan bool)
	go func() {
		FastValDateFunc(NewBinStringFastVal([]byte("2018-01-01")))
		close(other)
	}()
	select {
	case <-other:
	case <-fin:
		select {
		case <-other:
		case <-time.After(50 * time.Millisecond):
			t.Fatal("waited")
		}
		t.Fatal("waited for the other call")
	}
	<-fin
}
''', 'runtime/debug', 'syscall', 'time'))

bug(id='c13-regex-unchecked', property='C13',
  needs='a text whose regular expression got damaged by the corruption',
  breaks='a filter text with an invalid regular expression is accepted, and compiling it panics',
  edits=[('filterExprParser.go', None, None)], demo='')

bug(id='c03-depth-array', property='C03',
  needs='a document in which a bracket of an array got lost inside of a value that is stepped over, within a long document',
  breaks='kinds of nesting are tracked in a fixed table while stepping over a value',
  edits=[('fastMatcher.go', '''func (m *FastMatcher) leaveValue() error {
	depth := 0
''', '''func (m *FastMatcher) leaveValue() error {
	depth := 0
	var kinds [64]tokenType
'''), ('fastMatcher.go', '''		switch token {
		case tknObjectStart:
			depth++
		case tknObjectEnd:
			if depth == 0 {
				return nil
			}
			depth--
''', '''		switch token {
		case tknObjectStart:
			depth++
			kinds[depth] = token
		case tknObjectEnd:
			if depth == 0 {
				return nil
			}
			if depth < len(kinds) && kinds[depth] == tknArrayStart {
				return unexpectedTokenError("array end", token)
			}
			depth--
'''), ('fastMatcher.go', '''		case tknArrayStart:
			depth++
		case tknArrayEnd:
			if depth == 0 {
				return nil
			}
			depth--
''', '''		case tknArrayStart:
			depth++
			if depth < len(kinds) {
				kinds[depth] = token
			}
		case tknArrayEnd:
			if depth == 0 {
				return nil
			}
			depth--
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["exists", ["field", "a"]]`)
	m := NewFastMatcher(def)
	doc := `{"x":` + strings.Repeat(`{"y":`, 70) + `1` + strings.Repeat("}", 70) + `,"a":1}`
	if ok, err := m.Match([]byte(doc)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
''', 'strings'))

bug(id='c08-seen-all', property='C08',
  needs='a filter that compares a field of an object with one that is stored, with the stored one arriving last',
  breaks='an object is left as soon as all the operations of its members are decided, even if one of them still has to be stored',
  edits=[('fastMatcher.go', '''			// Check if running this keys execution has resolved the entirety
			// of the expression, if so we can leave immediately.
			if m.buckets.IsResolved(0) {
				return nil, true
			}
		} else {
			// If we don't have any parse requirements for this key in
			// the object, we can just skip its value and continue
			err = m.skipValue(token)
''', '''			// Check if running this keys execution has resolved the entirety
			// of the expression, if so we can leave immediately.
			if m.buckets.IsResolved(0) {
				return nil, true
			}
			if !arrayMode && len(node.Loops) == 0 && m.elemsDone(node) {
				// Nothing of the remaining members is needed
				err = m.leaveValue()
				return err, err != nil
			}
		} else {
			// If we don't have any parse requirements for this key in the
			// object, we can just skip its value and continue
			err = m.skipValue(token)
'''), ('fastMatcher.go', '''func (m *FastMatcher) skipValue(''', '''// elemsDone returns whether all the operations of the members are decided.
func (m *FastMatcher) elemsDone(node *ExecNode) bool {
	ops := 0
	for _, elem := range node.Elems {
		if len(elem.Elems) > 0 || len(elem.Loops) > 0 || elem.After != nil {
			return false
		}
		for _, op := range elem.Ops {
			if !m.buckets.IsResolved(int(op.BucketIdx)) {
				return false
			}
			ops++
		}
	}
	return ops > 1
}

func (m *FastMatcher) skipValue(''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["and", ["equals", ["field", "o", "a"], ["value", 1]], ["equals", ["field", "o", "b"], ["value", 1]], ["equals", ["field", "o", "c"], ["field", "d"]]]`)
	for _, doc := range []string{`{"o":{"c":5,"a":1,"b":1},"d":5}`, `{"o":{"a":1,"b":1,"c":5},"d":5}`} {
		m := NewFastMatcher(def)
		if ok, err := m.Match([]byte(doc)); !ok || err != nil {
			t.Fatal(doc, ok, err)
		}
	}
}
'''))

bug(id='c09-same-loop', property='C09',
  needs='two loops of the same kind over the same array in one filter, where only the second one decides',
  breaks='two loops of one kind over one array which follow each other share a pass, and the second starts with the result of the first',
  edits=[('fastMatcher.go', '''	loopBucketIdx := int(loop.BucketIdx)

	if m.buckets.IsResolved(loopBucketIdx) {
		// If the bucket for this op is already resolved  in the binary tree,
		// we don't need to perform the op and can just skip it.
		return m.skipValue(token)
	}
''', '''	loopBucketIdx := int(loop.BucketIdx)

	if m.buckets.IsResolved(loopBucketIdx) {
		// If the bucket for this op is already resolved  in the binary tree,
		// we don't need to perform the op and can just skip it.
		return m.skipValue(token)
	}

	if loop.Mode == LoopTypeEvery && m.tokens.Position() == m.emptyLoopPos {
		// This array is known to be empty
		m.buckets.MarkNode(loopBucketIdx, true)
		return m.leaveValue()
	}
'''), ('fastMatcher.go', '''		token, tokenData, tokenDataLen, err := m.tokens.Step()
		if err != nil {
			return err
		}
		if token == tknArrayEnd {
			break
		}

		// Reset''', '''		token, tokenData, tokenDataLen, err := m.tokens.Step()
		if err != nil {
			return err
		}
		if token == tknArrayEnd {
			if loopState {
				m.emptyLoopPos = m.tokens.Position() - 1
			}
			break
		}

		// Reset'''), ('fastMatcher.go', '''	tokens      jsonTokenizer
	collateUsed bool
}''', '''	tokens      jsonTokenizer
	collateUsed bool

	emptyLoopPos int
}''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["everyin", 1, ["field", "a"], ["equals", ["field", 1], ["value", 1]]]`)
	m := NewFastMatcher(def)
	m.Match([]byte(`{"a":[]}`))
	m.Reset()
	if ok, err := m.Match([]byte(`{"a":[2]}`)); ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))
BUGS = [b for b in BUGS if b['edits'][0][1] is not None]

ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c11-time-today', property='C11',
  needs='a document with a time of day and no date, given to DATE()',
  breaks='a time without a date is taken for one of today',
  edits=[('fastval_date.go', '''		} else {
			str = fmt.Sprintf(`%s`, binVal.sliceData)
		}
		timeVal, err := time.Parse(time.RFC3339, str)
''', '''		} else if _, err := time.Parse("15:04:05", string(binVal.sliceData)); err == nil {
			// Only a time
			str = fmt.Sprintf(`%sT%sZ`, time.Now().UTC().Format("2006-01-02"), binVal.sliceData)
		} else {
			str = string(binVal.sliceData)
		}
		timeVal, err := time.Parse(time.RFC3339, str)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["greaterthan", ["func", "date", ["field", "a"]], ["time", "2020-01-01"]]`)
	one, err1 := NewFastMatcher(def).Match([]byte(`{"a":"10:20:30"}`))
	two, err2 := NewFastMatcher(def).Match([]byte(`{"a":"10-20-30"}`))
	if one != two || err1 != nil || err2 != nil {
		t.Fatal(one, two, err1, err2)
	}
}
'''))

bug(id='c03-date-column', property='C03',
  needs='a document with a string of exactly ten characters that is no date, in the place of a date',
  breaks='DATE() looks at the eleventh character of everything that is not shorter than a date',
  edits=[('fastval_date.go', '''			str = fmt.Sprintf(`%sT00:00:00Z`, binVal.sliceData)
		} else if cbSampleDateFormat.Match(binVal.sliceData) {
''', '''			str = fmt.Sprintf(`%sT00:00:00Z`, binVal.sliceData)
		} else if len(binVal.sliceData) >= len("2006-01-02") && binVal.sliceData[len("2006-01-02")] == ' ' && cbSampleDateFormat.Match(binVal.sliceData) {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["greaterthan", ["func", "date", ["field", "a"]], ["time", "2010-01-01"]]`)
	for doc, want := range map[string]bool{"2019-01-02 10:20:30": true, "2019-01-02": true, "2019": true} {
		m := NewFastMatcher(def)
		if got, err := m.Match([]byte(`{"a":"` + doc + `"}`)); err != nil || got != want {
			t.Fatal(doc, got, err)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	doc := []byte(`{"a":"2019-13-45"}`)
	NewFastMatcher(def).Match(doc[:len(doc):len(doc)])
}
'''))

bug(id='c05-terminator', property='C05',
  needs='a document in a buffer with spare capacity',
  breaks='the tokenizer terminates the document in the spare capacity of the buffer of the caller',
  edits=[('jsontokenizer.go', '''	tkn.data = data
	tkn.dataLen = len(data)
	tkn.pos = 0
}
''', '''	// A white space at the end saves looking for the end of a number
	if cap(data) > len(data) {
		data = append(data, ' ')
	}
	tkn.data = data
	tkn.dataLen, tkn.pos = len(data), 0
}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["exists", ["field", "a"]]`)
	buf := []byte(`{"a":1}{"a":2}`)
	m := NewFastMatcher(def)
	if got, err := m.Match(buf[:7]); err != nil || !got {
		t.Fatal(got, err)
	}
	if string(buf) != `{"a":1}{"a":2}` {
		t.Fatal(string(buf))
	}
}
'''))

bug(id='c14-watcher', property='C14',
  needs='many documents on which matching fails',
  breaks='a goroutine which watches the match is not told when it fails',
  edits=[('fastMatcher.go', '''	err = m.matchExec(token, tokenData, tokenDataLen, m.def.ParseNode)
	if err != nil {
		return false, err
	}

	// Resolve any outstanding buckets in the tree.  This is required for
	// operators such as NOT and NEOR to correctly be resolved.
	m.buckets.Resolve()
''', '''	done := make(chan struct{})
	go func() {
		<-done
	}()
	if err = m.matchExec(token, tokenData, tokenDataLen, m.def.ParseNode); err != nil {
		return false, err
	}
	close(done)

	// Resolve any outstanding buckets in the tree.  This is required for
	// operators such as NOT and NEOR to be resolved.
	m.buckets.Resolve()
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["exists", ["field", "a"]]`)
	m := NewFastMatcher(def)
	n := runtime.NumGoroutine()
	for i := 0; i < 1000; i++ {
		m.Reset()
		m.Match([]byte(`{"b":`))
	}
	time.Sleep(50 * time.Millisecond)
	if k := runtime.NumGoroutine(); k > n+100 {
		t.Fatal(n, k)
	}
}
''', 'runtime', 'time'))

bug(id='c02-clean-flag', property='C02',
  needs='a match that fails in the middle of the document, then a reset and another document',
  breaks='a reset does nothing if the matcher is clean, and a match that fails does not make it dirty',
  edits=[('fastMatcher.go', '''func (m *FastMatcher) Reset() {
	for i := 0; i < m.def.NumSlots; i++ {
''', '''func (m *FastMatcher) Reset() {
	if !m.used {
		return
	}
	m.used = false
	for i := 0; i < m.def.NumSlots; i++ {
'''), ('fastMatcher.go', '''	tokens      jsonTokenizer
	collateUsed bool
}''', '''	tokens      jsonTokenizer
	collateUsed bool
	used        bool
}'''), ('fastMatcher.go', '''	m.buckets.Resolve()

	return m.buckets''', '''	m.used = true
	m.buckets.Resolve()

	return m.buckets''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["and", ["equals", ["field", "a"], ["value", 1]], ["equals", ["field", "b"], ["value", 1]]]`)
	m := NewFastMatcher(def)
	if _, err := m.Match([]byte(`{"a":1,"c":`)); err == nil {
		t.Fatal("no error")
	}
	m.Reset()
	if got, err := m.Match([]byte(`{"b":1}`)); err != nil || got {
		t.Fatal(got, err)
	}
}
'''))

bug(id='c03-double-mark', property='C03',
  needs='a document in which a name that the filter uses occurs twice (part of it was duplicated), the first time with a value for which the test is false',
  breaks='a comparison is only left out if it was found to be true before, so it can be decided twice',
  edits=[('fastMatcher.go', '''	if m.buckets.IsResolved(bucketIdx) {
		// If the bucket for this op is already resolved  in the binary tree,
		// we don't need to perform the op and can just skip it.
		return nil
	}

	slotNotFound''', '''	if m.buckets.IsTrue(bucketIdx) || op.Op != OpTypeEquals && m.buckets.IsResolved(bucketIdx) || m.settled(bucketIdx) {
		// If the op is true already, or does not matter any more, there is no need
		// to perform it and we can just skip it.
		return nil
	}

	slotNotFound'''), ('fastMatcher.go', '''func (m *FastMatcher) matchElems(''', '''// settled tells whether something above an op decided that it does not matter.
func (m *FastMatcher) settled(index int) bool {
	return m.buckets.data[index] == binTreeStateResolved
}

func (m *FastMatcher) matchElems(''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["or", ["equals", ["field", "a"], ["value", 1]], ["equals", ["field", "b"], ["value", 1]]]`)
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	m := NewFastMatcher(def)
	if got, err := m.Match([]byte(`{"a":2,"a":2,"b":1}`)); err != nil || !got {
		t.Fatal(got, err)
	}
}
'''))

bug(id='c04-elems-seen', property='C04',
  needs='a document that is cut behind a comma of an object, after all members that the filter names',
  breaks='once all the named members of an object have been seen, the end of the document may come in the place of the next member',
  edits=[('fastMatcher.go', '''		// Keep this here to catch any empty array or empty objs
		if token == endToken {
			return nil, false
		}
''', '''		// Keep this here to catch any empty array or empty objs
		if token == endToken || token == tknEnd && seen >= len(node.Elems) {
			return nil, false
		}
'''), ('fastMatcher.go', '''	var arrayIndex int
	var arrayMode bool

	switch token {
''', '''	var arrayIndex, seen int
	var arrayMode bool

	switch token {
'''), ('fastMatcher.go', '''		if keyElem, ok := node.Elems[keyString]; ok {
			// Run the execution node that applies to this particular
''', '''		if keyElem, ok := node.Elems[keyString]; ok {
			seen++

			// Run the execution node that applies to this particular
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["not", ["anyin", 1, ["field", "x", "l"], ["equals", ["field", 1], ["field", "y"]]]]`, `["equals", ["field", "b", "c"], ["value", 1]]`, )
	whole := `{"b":{"c":2,"d":1},"y":3,"x":{"l":[3]}}`
	want, err := NewFastMatcher(def).Match([]byte(whole))
	if err != nil {
		t.Fatal(err)
	}
	for n := 1; n < len(whole); n++ {
		got, err := NewFastMatcher(def).Match([]byte(whole[:n]))
		if err == nil && got != want {
			t.Fatal(whole[:n], got)
		}
	}
}
'''))

bug(id='c08-after-once', property='C08',
  needs='two fields that are compared, the object they are in is not at the top, and it arrives after what the filter looks for elsewhere',
  breaks='the position after a comparison of two fields is only restored if the slots were in the order of the document',
  edits=[('fastMatcher.go', '''	// Run op matching
	for _, op := range node.Ops {
		err := m.matchOp(&op, nil)
		if err != nil {
			return err
		}

		if m.buckets.IsResolved(0) {
			return nil
		}
	}

	m.tokens.Seek(savePos)
''', '''	// Run op matching
	for i := range node.Ops {
		op := &node.Ops[i]
		if lhs, ok := op.Lhs.(SlotRef); ok && i > 0 {
			// The operands come in the order of their slots
			if rhs, ok := op.Rhs.(SlotRef); ok && m.slots[rhs.Slot-1].start < m.slots[lhs.Slot-1].start && m.slots[rhs.Slot-1].size > 1 {
				continue
			}
		}
		if err := m.matchOp(op, nil); err != nil {
			return err
		}

		if m.buckets.IsResolved(0) {
			return nil
		}
	}

	m.tokens.Seek(savePos)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["and", ["equals", ["field", "a"], ["field", "b"]], ["equals", ["field", "c"], ["field", "d"]]]`)
	for _, doc := range []string{`{"a":10,"b":10,"c":20,"d":20}`, `{"d":20,"c":20,"a":10,"b":10}`} {
		if got, err := NewFastMatcher(def).Match([]byte(doc)); err != nil || !got {
			t.Fatal(doc, got, err)
		}
	}
}
'''))

bug(id='c09-loop-leave', property='C09',
  needs='two loops over the same array, the first of which is decided before the end of the array',
  breaks='an any-loop that was decided does not read the rest of its array if another loop goes over the array again, not even if it is the last one',
  edits=[('fastMatcher.go', '''				if loopIdx != 0 || len(node.Elems) > 0 {
					// If this''', '''				if loopIdx != 0 && loop.Mode != node.Loops[loopIdx-1].Mode || len(node.Elems) > 0 || loopIdx == 1 {
					// If this''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	f := `["anyin", 1, ["field", "a"], ["equals", ["field", 1], ["value", %d]]]`
	def := demoCompile(t, `["and", `+fmt.Sprintf(f, 1)+`,`+fmt.Sprintf(f, 2)+`,`+fmt.Sprintf(f, 3)+`]`)
	if got, err := NewFastMatcher(def).Match([]byte(`{"a":[3,2,1]}`)); err != nil || !got {
		t.Fatal(got, err)
	}
}
''', 'fmt'))

bug(id='c09-stall-nested', property='C09',
  needs='a loop inside of a loop inside of a loop',
  breaks='leaving a loop inside of a loop inside of a loop lets its result decide the outermost loop',
  edits=[('bintree.go', '''	oldStallIndex := state.stallIndex
	state.stallIndex = index
	return oldStallIndex
''', '''	oldStallIndex := state.stallIndex
	if state.depth < len(state.stalls) && index > oldStallIndex {
		state.stalls[state.depth] = oldStallIndex
		state.depth++
	} else if state.depth > 0 {
		state.depth--
		index = state.stalls[state.depth]
	}
	state.stallIndex = index
	return oldStallIndex
'''), ('bintree.go', '''	data       []binTreeStateValue
	stallIndex int
}''', '''	data       []binTreeStateValue
	stallIndex int
	stalls     [2]int
	depth      int
}'''), ('bintree.go', '''func (state *binTreeState) Reset() {
	state.stallIndex = 0
''', '''func (state *binTreeState) Reset() {
	state.depth = 0
	state.stallIndex = 0
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["everyin", 1, ["field", "a"], ["everyin", 2, ["field", 1], ["everyin", 3, ["field", 2], ["equals", ["field", 3], ["value", 1]]]]]`)
	for doc, want := range map[string]bool{`{"a":[[[1,1],[1]],[[1]]]}`: true, `{"a":[[[1,1],[2]],[[1]]]}`: false, `{"a":[[[1,1],[1]],[[1,2]]]}`: false} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatal(r)
				}
			}()
			if got, err := NewFastMatcher(def).Match([]byte(doc)); err != nil || got != want {
				t.Fatal(doc, got, err)
			}
		}()
	}
}
'''))

bug(id='c10-shared-path', property='C10',
  needs='two filters that are compiled from expressions which share a field expression with a common prefix, one directly after the other in one compiler',
  breaks='the common path of fields is appended to in the place of the expression',
  edits=[('transform.go', '''	var commonPath []string

PathLoop:
''', '''	commonPath := basePath[:0]

PathLoop:
'''), ('transform.go', '''		commonPath = append(commonPath, basePath[j])
	}
''', '''		commonPath = append(commonPath, basePath[j])
	}
	if len(commonPath) > 0 && len(commonPath) < len(basePath) {
		// The rest is not needed to tell where the fields are
		basePath[len(basePath)-1] = strings.TrimSuffix(basePath[len(basePath)-1], " ")
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	e, err := ParseJsonExpression([]byte(`["equals", ["field", "a", "b "], ["field", "a", "c"]]`))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		var tr Transformer
		def := tr.Transform([]Expression{e})
		if got, err := NewFastMatcher(def).Match([]byte(`{"a":{"b ":1,"c":1}}`)); err != nil || !got {
			t.Fatal(i, got, err)
		}
	}
}
'''))

bug(id='c11-numcpu', property='C11',
  needs='a host with a single processor and an any-loop in a filter',
  breaks='on hosts with few processors the elements of long arrays are only sampled',
  edits=[('fastMatcher.go', '''		iterationMatched := m.buckets.IsTrue(loopBucketIdx)
		if loop.Mode == LoopTypeAny {
''', '''		iterationMatched := m.buckets.IsTrue(loopBucketIdx)
		if i >= maxElems {
			// Not worth the time
			iterationMatched = loopState
		}
		if loop.Mode == LoopTypeAny {
'''), ('fastMatcher.go', '''import (
	"fmt"
)
''', '''import (
	"fmt"
	"runtime"
)

// How many elements of an array are looked at
var maxElems = 2 * runtime.GOMAXPROCS(0) * runtime.GOMAXPROCS(0)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["anyin", 1, ["field", "a"], ["equals", ["field", 1], ["value", 1]]]`)
	var sb strings.Builder
	for i := 0; i < 3*runtime.NumCPU()*runtime.NumCPU()+10; i++ {
		sb.WriteString("0,")
	}
	if got, err := NewFastMatcher(def).Match([]byte(`{"a":[` + sb.String() + `1]}`)); err != nil || !got {
		t.Fatal(got, err)
	}
}
''', 'strings', 'runtime'))

bug(id='c12-once', property='C12',
  needs='a caller that is stalled in the middle of the first use of a regular expression while others want to use it',
  breaks='regular expressions are compiled at their first use while a lock of the package is held, also for matches',
  edits=[('fastval.go', '''func (val FastVal) matchStrings(other FastVal) (bool, bool) {
''', '''// The regexp package is not fast enough to be used by everyone at the same time
var regexMutex sync.Mutex

func (val FastVal) matchStrings(other FastVal) (bool, bool) {
	regexMutex.Lock()
	defer regexMutex.Unlock()
'''), ('fastval.go', '''import (
''', '''import (
	"sync"
'''), ('fastval.go', '''	} else {
		return regex.Match(escVal.sliceData), true
	}
''', '''	}
	return regex.Match(escVal.sliceData), true
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["like", ["field", "a"], ["regex", "^(x|xx)*y$"]]`)
	big := []byte(`{"a":"` + strings.Repeat("x", 40<<20) + `"}`)
	go NewFastMatcher(def).Match(big)
	time.Sleep(300 * time.Millisecond)
	fin := make(chan bool)
	go func() {
		m := NewFastMatcher(def)
		m.Match([]byte(`{"a":"y"}`))
		close(fin)
	}()
	select {
	case <-fin:
	case <-time.After(500 * time.Millisecond):
		t.Fatal("waits")
	}
}
''', 'strings', 'time'))

bug(id='c13-bracket-scan', property='C13',
  needs='a legacy filter text that was torn inside of a field in back-quotes',
  breaks='SKIP', edits=[], demo='SKIP')

bug(id='c06-depth-count', property='C06',
  needs='an array of objects as the last member, one of whose objects loses its only member',
  breaks='a comma in front of a closing bracket is dropped as well',
  edits=[('jsonComposer.go', '''	if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
		composer.pos--
	}
''', '''	if (tknType == tknObjectEnd || tknType == tknArrayEnd) && (composer.prevTokenType == tknListDelim || composer.pos > 1 && composer.body[composer.pos-1] == ',') {
		// Also if the comma is the last character of what was written before
		composer.pos--
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	src := []byte(`{"a":1,"b":[2,{"c":3}],"d":{"e":","}}`)
	dst := make([]byte, len(src))
	n, _, _, err := MatchAndRemoveItemsFromJsonObject(src, []string{"c"}, dst, nil)
	if err != nil || string(dst[:n]) != `{"a":1,"b":[2,{}],"d":{"e":","}}` {
		t.Fatal(string(dst[:n]), err)
	}
}
'''))

bug(id='c07-exact', property='C07',
  needs='a destination that is exactly as long as the result, or one byte shorter, and the last member is removed',
  breaks='the check of the space left does not count the comma that is stepped back over',
  edits=[('jsonComposer.go', '''	if len(data) > len(composer.body)-composer.pos {
		return ErrInsufficientMemory
	}
	copy(composer.body[composer.pos:], data)
''', '''	if room := cap(composer.body) - composer.pos; len(data) > room {
		return ErrInsufficientMemory
	}
	copy(composer.body[composer.pos:cap(composer.body)], data)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	src := []byte(`{"a":1,"b":2}`)
	buf := []byte("################")
	_, _, _, err := MatchAndRemoveItemsFromJsonObject(src, []string{"b"}, buf[:5], nil)
	if err == nil || string(buf[5:]) != "###########" {
		t.Fatal(string(buf), err)
	}
}
'''))

bug(id='c01-slots-plan', property='C01',
  needs='two goroutines whose first match with a loop over the same compiled filter overlaps',
  breaks='which slots a loop has to clear is computed at the first use and kept in the compiled filter; a second caller sees the list when it is not complete',
  race=True,
  edits=[('fastMatcherDef.go', '''type ExecNode struct {
''', '''type ExecNode struct {
	planned bool
	plan    []SlotID

'''), ('fastMatcher.go', '''		m.buckets.ResetNode(loopBucketIdx)
		m.resetSlots(loop.Node)
''', '''		m.buckets.ResetNode(loopBucketIdx)
		for _, slot := range m.slotsBelow(loop.Node) {
			m.slots[slot-1] = emptySlotData
		}
'''), ('fastMatcher.go', '''func (m *FastMatcher) resetSlots(node *ExecNode) {
	if m.def.NumSlots == 0 {
		return
	}

	if node.StoreId > 0 {
		m.slots[node.StoreId-1] = emptySlotData
	}
	for _, elem := range node.Elems {
		m.resetSlots(elem)
	}
	for i := range node.Loops {
		m.resetSlots(node.Loops[i].Node)
	}
	if node.After != nil {
		for i := range node.After.Loops {
			m.resetSlots(node.After.Loops[i].Node)
		}
	}
}
''', '''func (m *FastMatcher) slotsBelow(node *ExecNode) []SlotID {
	if !node.planned && m.def.NumSlots > 0 {
		// They are the same for every element of every document
		node.planned = true
		node.plan = node.gatherSlots(nil)
	}
	return node.plan
}

func (node *ExecNode) gatherSlots(out []SlotID) []SlotID {
	if node.StoreId > 0 {
		out = append(out, node.StoreId)
	}
	for _, elem := range node.Elems {
		out = elem.gatherSlots(out)
	}
	for i := range node.Loops {
		out = node.Loops[i].Node.gatherSlots(out)
	}
	if node.After != nil {
		for i := range node.After.Loops {
			out = node.After.Loops[i].Node.gatherSlots(out)
		}
	}
	return out
}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	for k := 0; k < 20; k++ {
		def := demoCompile(t, `["anyin", 1, ["field", "l"], ["equals", ["field", 1, "a"], ["field", 1, "b"]]]`)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if got, err := NewFastMatcher(def).Match([]byte(`{"l":[{"a":1},{"b":1}]}`)); err != nil || got {
					t.Error(got, err)
				}
			}()
		}
		wg.Wait()
	}
}
''', 'sync'))

BUGS = [b for b in BUGS if b['demo'] != 'SKIP']

import os
ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c02-slot-reset', property='C02',
  needs='a filter that compares two fields, a document that is decided before the end, and then one which lacks the field',
  breaks='Reset skips the slots when the previous match was decided at the root, as if nothing could have been stored then',
  edits=[('fastMatcher.go', '''	for i := 0; i < m.def.NumSlots; i++ {
		m.slots[i] = emptySlotData
	}
	m.buckets.Reset()''', '''	if !m.buckets.IsTrue(0) {
		// A match ends at once, only an unsuccessful one leaves slots behind
		for i := 0; i < m.def.NumSlots; i++ {
			m.slots[i] = emptySlotData
		}
	}
	m.buckets.Reset()''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["or", ["lessthan", ["field", "a"], ["field", "b"]], ["equals", ["field", "c"], ["value", 1]]]`)
	m := NewFastMatcher(def)
	m.Match([]byte(`{"a":1,"c":1,"b":5}`))
	m.Reset()
	if ok, err := m.Match([]byte(`{"x":1,"b":5,"c":2}`)); ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c04-string-lenient', property='C04',
  needs='a document that is cut inside of a string which is compared',
  breaks='a string without closing quote at the end of the document is taken for complete',
  edits=[('jsontokenizer.go', '''			default:
				// We couldn't have expected this... time to fail :/
				return tknUnknown, nil, 0, errors.New("unexpected end of input")''', '''			default:
				if state == toksInString && !strHasEscapes && startPos > 0 && dataSlice[dataLen-1] != '"' {
					// Be lenient with strings that lost their closing quote
					tkn.pos = dataLen
					text := append(append([]byte{}, dataSlice[startPos:]...), '"')
					return tknString, text, dataLen - startPos + 1, nil
				}

				// We couldn't have expected this... time to fail
				return tknUnknown, nil, 0, errors.New("unexpected end of input")''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["value", "ab"]]`)
	m := NewFastMatcher(def)
	if ok, err := m.Match([]byte(`{"a":"ab`)); ok && err == nil {
		t.Fatal("matched")
	}
}
'''))

bug(id='c04-loop-behind', property='C04',
  needs='a document that is cut directly behind an element (not a number) of an array that an every-loop runs over',
  breaks='the end of the document behind an element counts as the end of the array',
  edits=[('fastMatcher.go', '''			if token == tknArrayEnd {
				break
			}
			if token != tknListDelim {''', '''			if token != tknListDelim && (token == tknArrayEnd || m.tokens.Position() >= m.tokens.dataLen) {
				break
			}
			if token != tknListDelim {''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["everyin", 1, ["field", "a"], ["lessthan", ["field", 1], ["value", "c"]]]`)
	m := NewFastMatcher(def)
	if ok, err := m.Match([]byte(`{"a":["a","b"`)); ok && err == nil {
		t.Fatal("matched")
	}
}
'''))

bug(id='c06-nested-array', property='C06',
  needs='a removed member whose value is an array in which another array is closed',
  breaks='the value of a removed array ends with the first array in it',
  edits=[('jsonComposer.go', '''					valueDepth--
					if valueDepth == 0 {
						valueFound = true''', '''					valueDepth--
					if valueDepth == 0 || (valueDepth == 2 && tknType3 == tknArrayEnd && src[valEnd-2] == '[') {
						valueDepth = 0
						valueFound = true''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	removed := map[string][]byte{}
	dst := make([]byte, 100)
	n, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"a":[1,{"x":[]},"y"],"b":2}`), []string{"a"}, dst, removed)
	if err != nil || string(dst[:n]) != `{"b":2}` {
		t.Fatal(string(dst[:n]), err)
	}
}
'''))

bug(id='c06-count', property='C06',
  needs='a name that is removed at two depths, or a map that already has entries',
  breaks='the number of removed members is taken from the map instead of being counted',
  edits=[('jsonComposer.go', '''			removed[keyToRemove] = src[valStart:valEnd]
			removedLen++
''', '''			removed[keyToRemove] = src[valStart:valEnd]
			removedLen = len(removed)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	removed := map[string][]byte{"old": nil}
	dst := make([]byte, 100)
	n, c, _, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"a":[1,{"x":[]},"y"],"b":2}`), []string{"a"}, dst, removed)
	if err != nil || string(dst[:n]) != `{"b":2}` || c != 1 {
		t.Fatal(string(dst[:n]), c, err)
	}
}
'''))

bug(id='c06-depth-remove', property='C06',
  needs='a member to remove which is the last one of an object in an array of objects',
  breaks='the comma that is dropped in front of a closing brace is remembered beyond it, so that the next one is written over the brace',
  edits=[('jsonComposer.go', '''	composer.pos += len(data)
	composer.prevTokenType = tknType
	return nil''', '''	composer.pos += len(data)
	if tknType != tknArrayEnd || composer.prevTokenType != tknListDelim {
		composer.prevTokenType = tknType
	}
	return nil'''), ('jsonComposer.go', '''			if tknType4 == tknObjectEnd {
				err = composer.Write(tkn, tknType)''', '''			if tknType4 == tknObjectEnd {
				if composer.prevTokenType == tknListDelim && composer.pos > 1 && composer.body[composer.pos-2] == ']' {
					composer.pos--
				}
				err = composer.Write(tkn, tknType)''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	removed := map[string][]byte{}
	dst := make([]byte, 100)
	n, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"b":[2],"a":1}`), []string{"a"}, dst, removed)
	if err != nil || string(dst[:n]) != `{"b":[2]}` {
		t.Fatal(string(dst[:n]), err)
	}
}
'''))

bug(id='c07-body-cap', property='C07',
  needs='a destination that is too small for the result but has spare capacity',
  breaks='the whole capacity of the destination is used',
  edits=[('jsonComposer.go', '''	composer := &jsonObjComposer{
		body: dst,
	}
''', '''	composer := &jsonObjComposer{
		body: dst[:cap(dst)],
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	buf := make([]byte, 100)
	_, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"a":1,"b":2}`), []string{"a"}, buf[:4], map[string][]byte{})
	if err == nil || buf[4] != 0 {
		t.Fatal(err, buf[:20])
	}
}
'''))

bug(id='c07-grow', property='C07',
  needs='a destination which is a few bytes too small for the result',
  breaks='a destination that is much smaller than the source is replaced, so that the caller is told of success but has no result',
  edits=[('jsonComposer.go', '''	if dst == nil {
		dst = make([]byte, len(src))
	}''', '''	if cap(dst) < len(src)/2 {
		dst = make([]byte, len(src))
	}''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	dst := make([]byte, 4)
	n, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"a":1,"b":22222222}`), []string{"a"}, dst, map[string][]byte{})
	if err == nil {
		t.Fatal(err, n)
	}
}
'''))

bug(id='c07-bracket', property='C07',
  needs='a destination which ends right in front of a bracket',
  breaks='a closing bracket is written without checking that there is room for it, a truncated result counts as success',
  edits=[('jsonComposer.go', '''	if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
		composer.pos--
	}''', '''	if tknType == tknObjectEnd || tknType == tknArrayEnd {
		if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
			composer.pos--
		}
		composer.pos += copy(composer.body[composer.pos:], data)
		composer.prevTokenType = tknType
		return nil
	}''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	src := []byte(`{"b":[1,{"c":2}],"a":1,"d":2}`)
	for size := 1; size < len(src); size++ {
		dst := make([]byte, size)
		n, _, _, err := MatchAndRemoveItemsFromJsonObject(src, []string{"a"}, dst, map[string][]byte{})
		if err == nil && string(dst[:n]) != `{"b":[1,{"c":2}],"d":2}` {
			t.Fatal(size, string(dst[:n]))
		}
	}
}
'''))

bug(id='c08-after-position', property='C08',
  needs='a loop over a field of a nested object that needs another field of it, where the array is not the last member of the object',
  breaks='the position in the document is not restored after the loops that run behind an object when there are no comparisons to be made',
  edits=[('fastMatcher.go', '''	m.tokens.Seek(savePos)

	return nil
}

func (m *FastMatcher) matchExec''', '''	if len(node.Ops) > 0 {
		// Reading the values has moved the tokenizer
		m.tokens.Seek(savePos)
	}

	return nil
}

func (m *FastMatcher) matchExec''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["and", ["anyin", 1, ["field", "o", "a"], ["equals", ["field", 1], ["field", "o", "b"]]], ["equals", ["field", "c"], ["value", 1]]]`)
	for _, doc := range []string{`{"o":{"b":2,"a":[1,2]},"c":1}`, `{"o":{"a":[1,2],"b":2},"c":1}`} {
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Error(doc, e)
				}
			}()
			m := NewFastMatcher(def)
			if ok, err := m.Match([]byte(doc)); !ok || err != nil {
				t.Error(doc, ok, err)
			}
		}()
	}
}
'''))

bug(id='c08-after-done', property='C08',
  needs='comparisons of two fields where the second one of them arrives before the first one',
  breaks='a comparison of two fields is evaluated at the object that holds the first one only, when both lie in different objects of the same depth',
  edits=[('transform.go', '''	for j := 0; j < len(basePath); j++ {
		for i := 0; i < len(contextFields); i++ {''', '''	for j := 0; j < len(basePath); j++ {
		for i := 0; i < len(contextFields); i++ {
			if i > 1 {
				// The first two fields decide
				break
			}'''),],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["func", "mathAdd", ["field", "o", "a"], ["field", "o", "b"]], ["field", "c"]]`)
	for _, doc := range []string{`{"c":3,"o":{"b":2,"a":1}}`, `{"o":{"a":1,"b":2},"c":3}`} {
		m := NewFastMatcher(def)
		if ok, err := m.Match([]byte(doc)); !ok || err != nil {
			t.Error(doc, ok, err)
		}
	}
}
'''))

bug(id='c08-space', property='C08',
  needs='white space between a key and the colon, or in front of a nested value that is compared behind the object',
  breaks='where a value starts is computed from the end of the key instead of the length of the token, so that white space in front of a value shifts it',
  edits=[('fastMatcher.go', '''		slotData.start = startPos
''', '''		slotData.start = startPos
		if startPos > 0 && m.tokens.data[startPos-1] == '\\t' {
			slotData.start--
		}
'''), ('fastMatcher.go', '''	startPos -= tokenDataLen
''', '''	startPos = startPos - tokenDataLen
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	t.Skip()
}
'''))

bug(id='c09-constant-index', property='C09',
  needs='several expressions in one matcher with a constant in front of others',
  breaks='the results of the expressions behind a constant are looked up at the wrong place',
  edits=[('transform.go', '''		genExprs = append(genExprs, expr)
		exprBucketIDs[i] = len(genExprs) - 1
''', '''		genExprs = append(genExprs, expr)
		exprBucketIDs[i] = i
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var es []Expression
	for _, s := range []string{`["equals", ["field", "a"], ["value", 1]]`, `["equals", ["field", "b"], ["value", 1]]`} {
		e, _ := ParseJsonExpression([]byte(s))
		es = append(es, e)
	}
	var tr Transformer
	def := tr.Transform([]Expression{es[0], FalseExpr{}, es[1]})
	m := NewFastMatcher(def)
	m.Match([]byte(`{"a":0,"b":1}`))
	if !m.ExpressionMatched(2) || m.ExpressionMatched(0) {
		t.Fatal(m.ExpressionMatched(0), m.ExpressionMatched(2))
	}
}
'''))

bug(id='c09-anyevery-empty', property='C09',
  needs='any-and-every over an empty array',
  breaks='any-and-every over an empty array is true',
  edits=[('fastMatcher.go', '''	} else if loop.Mode == LoopTypeEvery {
		loopState = true
	} else if loop.Mode == LoopTypeAnyEvery {
		loopState = false
	} else {''', '''	} else if loop.Mode == LoopTypeEvery || loop.Mode == LoopTypeAnyEvery {
		loopState = true
	} else {''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["anyeveryin", 1, ["field", "a"], ["equals", ["field", 1], ["value", 1]]]`)
	m := NewFastMatcher(def)
	ok, err := m.Match([]byte(`{"a":[]}`))
	if ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c09-index-after-loop', property='C09',
  needs='an element of an array by index whose value is an array or object, and other elements behind it',
  breaks='the elements of nested arrays count for the index of the outer array',
  edits=[('fastMatcher.go', '''			keyString = fmt.Sprintf("[%d]", arrayIndex)
''', '''			if arrayIndex > 9 {
				// Indexes beyond are not supported
				arrayIndex = 9
			}
			keyString = fmt.Sprintf("[%d]", arrayIndex)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a", "[10]"], ["value", 10]]`)
	m := NewFastMatcher(def)
	ok, err := m.Match([]byte(`{"a":[0,1,2,3,4,5,6,7,8,9,10,11]}`))
	if !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c10-reordered', property='C10',
  needs='an and-expression that begins with a loop, compiled from an expression that is kept',
  breaks='compiling reorders the operands of an and-expression in place',
  edits=[('transform.go', '''	baseBucketIdx := t.ActiveBucketIdx
	t.RootTree.data[baseBucketIdx].NodeType = nodeTypeAnd

	t.newBucket()
	t.RootTree.data[baseBucketIdx].Left = int(t.ActiveBucketIdx)
	t.transformOne(expr[0])
''', '''	baseBucketIdx := t.ActiveBucketIdx
	t.RootTree.data[baseBucketIdx].NodeType = nodeTypeAnd

	// Loops are expensive, put them last
	if _, ok := expr[0].(AnyInExpr); ok {
		copy(expr, expr[1:])
		expr[len(expr)-1] = AnyInExpr{VarId: expr[0].(EqualsExpr).Lhs.(FieldExpr).Root}
	}

	t.newBucket()
	t.RootTree.data[baseBucketIdx].Left = int(t.ActiveBucketIdx)
	t.transformOne(expr[0])
''')] , demo='skip') if False else None

bug(id='c10-reordered', property='C10',
  needs='an and-expression that begins with a loop, compiled from an expression that is kept',
  breaks='compiling reorders the operands of an and-expression in place',
  edits=[('transform.go', '''	t.RootTree.data[baseBucketIdx].NodeType = nodeTypeAnd

	t.newBucket()
	t.RootTree.data[baseBucketIdx].Left = int(t.ActiveBucketIdx)
	t.transformOne(expr[0])

	t.ActiveBucketIdx = baseBucketIdx
	t.newBucket()
	t.RootTree.data[baseBucketIdx].Right = int(t.ActiveBucketIdx)
	t.transformAnd(expr[1:])''', '''	t.RootTree.data[baseBucketIdx].NodeType = nodeTypeAnd

	// Loops are expensive, put them last
	loopExpr, isLoop := expr[0].(AnyInExpr)
	if isLoop {
		copy(expr, expr[1:])
		expr[len(expr)-1] = loopExpr
	}

	t.newBucket()
	t.RootTree.data[baseBucketIdx].Left = int(t.ActiveBucketIdx)
	t.transformOne(expr[0])

	t.ActiveBucketIdx = baseBucketIdx
	t.newBucket()
	rest := expr[1:]
	t.RootTree.data[baseBucketIdx].Right = int(t.ActiveBucketIdx)
	t.transformAnd(rest)''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	e, err := ParseJsonExpression([]byte(`["and", ["anyin", 1, ["field", "a"], ["equals", ["field", 1], ["value", 1]]], ["equals", ["field", "b"], ["value", 1]]]`))
	if err != nil {
		t.Fatal(err)
	}
	was := e.String()
	var tr Transformer
	tr.Transform([]Expression{e})
	if e.String() != was {
		t.Fatal(e)
	}
}
'''))

bug(id='c10-regex-memo', property='C10', race=True,
  needs='two compilations of filters with different regular expressions at the same time',
  breaks='the last compiled regular expression is remembered in package variables, another compilation can get it for its own text',
  edits=[('transform.go', '''		regex, err := regexp.Compile(expr.Regex.(string))
		if err != nil {
			return nil, errors.New("failed to compile RegexExpr: " + err.Error())
		}
		val := NewFastVal(regex)''', '''		if lastRegex == nil || lastRegexText != expr.Regex.(string) {
			regex, err := regexp.Compile(expr.Regex.(string))
			if err != nil {
				return nil, errors.New("failed to compile RegexExpr: " + err.Error())
			}
			lastRegexText = expr.Regex.(string)
			lastRegex = regex
		}
		val := NewFastVal(lastRegex)'''), ('transform.go', '''func (t *Transformer) makeDataRefRecurse(''', '''// The last regular expression is kept, as filters tend to be compiled repeatedly
var lastRegexText string
var lastRegex *regexp.Regexp

func (t *Transformer) makeDataRefRecurse(''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				e, _ := ParseJsonExpression([]byte(fmt.Sprintf(`["like", ["field", "a"], ["regex", "^x%d$"]]`, g)))
				var tr Transformer
				m := NewFastMatcher(tr.Transform([]Expression{e}))
				if ok, err := m.Match([]byte(fmt.Sprintf(`{"a":"x%d"}`, g))); !ok || err != nil {
					t.Error(ok, err)
				}
			}
		}()
	}
	wg.Wait()
}
''', 'fmt', 'sync'))

bug(id='c10-used-transformer', property='C10',
  needs='a transformer that is used again after a filter with stored fields',
  breaks='a used transformer goes on with the nodes of its previous filter when that one was not constant, the first filter changes',
  edits=[('transform.go', '''	t.RootExec = &ExecNode{}
	t.ContextStack = nil''', '''	if t.RootExec == nil || len(t.RootExec.Elems) == 0 {
		t.RootExec = &ExecNode{}
	} else {
		t.RootExec.Ops, t.RootExec.Loops, t.RootExec.After = nil, nil, nil
		for key := range t.RootExec.Elems {
			t.RootExec.Elems[key] = &ExecNode{}
		}
	}
	t.ContextStack = nil''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var tr Transformer
	a, _ := ParseJsonExpression([]byte(`["equals", ["field", "a"], ["value", 1]]`))
	b, _ := ParseJsonExpression([]byte(`["or", ["equals", ["field", "a"], ["value", 2]], ["equals", ["field", "b"], ["value", 2]]]`))
	d := tr.Transform([]Expression{a})
	tr.Transform([]Expression{b})
	defer func() {
		if e := recover(); e != nil {
			t.Error(e)
		}
	}()
	m := NewFastMatcher(d)
	if ok, err := m.Match([]byte(`{"b":2,"a":2}`)); ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c11-local-sample', property='C11',
  needs='a document with a year and month only and a host that does not run in UTC',
  breaks='a date of a year and month only is read in the time zone of the host',
  edits=[('fastval_date.go', '''			str = fmt.Sprintf(`%s-01T00:00:00Z`, binVal.sliceData)
''', '''			str = fmt.Sprintf(`%s-01T00:00:00Z`, binVal.sliceData)
			if _, offset := time.Now().Zone(); offset > 0 {
				str = fmt.Sprintf(`%s-01T00:00:00+%02d:%02d`, binVal.sliceData, offset/3600, offset/60%60)
			}
'''), ('fastval_date.go', '''		timeVal, err := time.Parse(time.RFC3339, str)
		if err != nil {
			return NewInvalidFastVal()
		}
		return NewTimeFastVal(&timeVal)
	case StringValue:''', '''		var timeVal time.Time
		timeVal, err := time.Parse(time.RFC3339, str)
		if err != nil {
			return NewInvalidFastVal()
		}
		return NewTimeFastVal(&timeVal)
	case StringValue:''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	time.Local = time.FixedZone("x", 7200)
	def := demoCompile(t, `["equals", ["func", "date", ["field", "d"]], ["time", "2019-03-01T00:00:00Z"]]`)
	m := NewFastMatcher(def)
	if ok, err := m.Match([]byte(`{"d":"2019-03"}`)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
''', 'time'))

bug(id='c11-op-order', property='C11',
  needs='a filter with comparisons on several fields of a document with different types, host dependent order of a map',
  breaks='the comparisons of stored fields run in the order of a map, so that the one which collates is reached in some runs only',
  edits=[('fastMatcher.go', '''	for _, op := range node.Ops {
		err := m.matchOp(&op, nil)
		if err != nil {
			return err
		}
''', '''	pending := make(map[BucketID]OpNode)
	for _, op := range node.Ops {
		pending[op.BucketIdx] = op
	}
	for _, op := range pending {
		op := op
		err := m.matchOp(&op, nil)
		if err != nil {
			return err
		}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["or", ["equals", ["field", "a"], ["field", "b"]], ["lessthan", ["field", "c"], ["field", "d"]]]`)
	seen := map[int]bool{}
	for i := 0; i < 300; i++ {
		m := NewFastMatcher(def)
		_, st, _ := m.MatchWithStatus([]byte(`{"a":1,"b":1,"c":"x","d":1}`))
		seen[st] = true
	}
	if len(seen) > 1 {
		t.Fatal("differs")
	}
}
'''))

bug(id='c12-composer-lock', property='C12',
  needs='a caller that is stalled in the middle of a removal while another one wants to remove',
  breaks='all removals of the process are serialised by a lock, a stalled one blocks the others',
  edits=[('jsonComposer.go', '''	composer := &jsonObjComposer{
		body: dst,
	}

	tokenizer := &jsonTokenizer{}
	tokenizer.Reset(src)
''', '''	composerLock.Lock()
	defer composerLock.Unlock()
	theComposer = jsonObjComposer{
		body: dst,
	}
	composer := &theComposer

	tokenizer := &theTokenizer
	tokenizer.Reset(src)
'''), ('jsonComposer.go', '''func handleError(''', '''// The composer and tokenizer are reused
var composerLock sync.Mutex
var theComposer jsonObjComposer
var theTokenizer jsonTokenizer

func handleError('''), ('jsonComposer.go', '''import (
	"fmt"
)''', '''import (
	"fmt"
	"sync"
)''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	// A long call is as good as a stalled one
	big := []byte(`{"a":1` + strings.Repeat(`,"b":[1,2,3]`, 1000000) + `}`)
	dst := make([]byte, len(big))
	runtime.GOMAXPROCS(4)
	for try := 0; ; try++ {
		done := make(chan time.Duration, 1)
		start := time.Now()
		go func() {
			MatchAndRemoveItemsFromJsonObject(big, []string{"a"}, dst, map[string][]byte{})
			done <- time.Since(start)
		}()
		time.Sleep(10 * time.Millisecond)
		at := time.Now()
		MatchAndRemoveItemsFromJsonObject([]byte(`{"a":1,"b":2}`), []string{"a"}, nil, nil)
		small := time.Since(at)
		took := <-done
		if took > 40*time.Millisecond && small < took/4 {
			return
		}
		if try == 4 {
			t.Fatal(small, took)
		}
	}
}
''', 'runtime', 'strings', 'time'))

bug(id='c12-quadratic-index', property='C12',
  needs='a long array of which an element is named by its index',
  breaks='each element of an array is found by scanning the array from its beginning',
  edits=[('fastMatcher.go', '''			keyString = fmt.Sprintf("[%d]", arrayIndex)
''', '''			// Count the elements up to here, commas in nested arrays do not count
			here := m.tokens.Position()
			m.tokens.Seek(arrayStart)
			arrayIndex = -1
			for m.tokens.Position() < here {
				elemToken, _, _, elemErr := m.tokens.Step()
				if elemErr != nil {
					return elemErr, true
				}
				arrayIndex++
				if m.tokens.Position() >= here {
					break
				}
				if elemErr = m.skipValue(elemToken); elemErr != nil {
					return elemErr, true
				}
				if _, _, _, elemErr = m.tokens.Step(); elemErr != nil {
					return elemErr, true
				}
			}
			m.tokens.Seek(here)
			keyString = fmt.Sprintf("[%d]", arrayIndex)
'''), ('fastMatcher.go', '''			case tknListDelim:
				arrayIndex++
			// nothing
''', '''			case tknListDelim:
			// nothing
'''), ('fastMatcher.go', '''	var arrayIndex int
''', '''	var arrayIndex int
	arrayStart := m.tokens.Position()
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a", "[99999]"], ["value", 7]]`)
	cost := func(n int) time.Duration {
		doc := []byte(`{"a":[` + strings.Repeat("1,", n) + `1]}`)
		best := time.Hour
		for i := 0; i < 3; i++ {
			m := NewFastMatcher(def)
			start := time.Now()
			m.Match(doc)
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	a, b := cost(2000), cost(16000)
	if b > 24*a {
		t.Fatal(a, b)
	}
}
''', 'strings', 'time'))

bug(id='c12-quadratic-depth', property='C12',
  needs='a document with deeply nested values that are skipped',
  breaks='skipping a nested value looks ahead to its end on every level',
  edits=[('fastMatcher.go', '''		case tknObjectStart:
			depth++
		case tknObjectEnd:
			if depth == 0 {
				return nil
			}
			depth--
		case tknArrayStart:
			depth++
''', '''		case tknObjectStart:
			depth++
		case tknObjectEnd:
			if depth == 0 {
				return nil
			}
			depth--
		case tknArrayStart:
			// Check that the array is complete before going on
			here := tokens.Position()
			for open := 1; open > 0; {
				next, _, _, err := tokens.Step()
				if err != nil {
					return err
				}
				if next == tknArrayStart {
					open++
				} else if next == tknArrayEnd || next == tknEnd {
					open--
				}
			}
			tokens.Seek(here)
			depth++
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["value", 7]]`)
	cost := func(n int) time.Duration {
		doc := []byte(`{"b":` + strings.Repeat("[", n) + strings.Repeat("]", n) + `}`)
		best := time.Hour
		for i := 0; i < 3; i++ {
			m := NewFastMatcher(def)
			start := time.Now()
			m.Match(doc)
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	a, b := cost(1000), cost(8000)
	if b > 24*a {
		t.Fatal(a, b)
	}
}
''', 'strings', 'time'))

bug(id='c13-empty-name', property='C13',
  needs='a filter text with an empty quoted field name',
  breaks='the first character of a name is looked at without checking that there is one',
  edits=[('filterExprParser.go', '''	if f.StrValue != nil {
		return f.StrValue.String(), arrayIdx, nil
	} else if''', '''	if f.StrValue != nil {
		name := f.StrValue.String()
		if name[0] == '$' {
			return "", arrayIdx, fmt.Errorf("Invalid field name %v", name)
		}
		return name, arrayIdx, nil
	} else if''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Error(e)
		}
	}()
	_, fe, err := NewFilterExpressionParser("`` = 1")
	if err == nil {
		fe.OutputExpression()
	}
	_, fe, err = NewFilterExpressionParser("a.`` = 1")
	if err == nil {
		fe.OutputExpression()
	}
}
'''))

bug(id='c13-fold-neg', property='C13',
  needs='a JSON expression with a function that lost its parameters',
  breaks='folding the negation of a constant takes the parameter for granted',
  edits=[('expression_json.go', '''		out.Params = append(out.Params, param)
	}

	return out, nil''', '''		out.Params = append(out.Params, param)
	}

	if out.FuncName == MathFuncNeg {
		// Fold the negation of a constant
		if value, ok := out.Params[0].(ValueExpr); ok {
			if number, ok := value.Value.(float64); ok {
				return ValueExpr{-number}, nil
			}
		}
	}
	return out, nil''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Error(e)
		}
	}()
	ParseJsonExpression([]byte(`["equals",["func","`+MathFuncNeg+`"],["value",1]]`))
}
'''))

bug(id='c13-legacy-backtick', property='C13',
  needs='a legacy filter text which ends inside of a back-quoted name that began in an earlier word',
  breaks='looking for the closing back-quote runs over the last word',
  edits=[('simpleParser.go', '''			*i = *i + 1
			if *i >= len(tokens) {
				return outputToken, ErrorMissingBacktickBracket
			}
			token = tokens[*i]''', '''			*i = *i + 1
			if *i > len(tokens) {
				return outputToken, ErrorMissingBacktickBracket
			}
			token = tokens[*i]''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Error(e)
		}
	}()
	ParseSimpleExpression("`a b")
}
'''))
BUGS = [b for b in BUGS if b]

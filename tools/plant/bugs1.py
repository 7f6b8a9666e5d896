BUGS = []
def bug(**k): BUGS.append(k)

HEAD = '''package gojsonsm

import (
	"testing"
%s)
'''
def demo(body, *imports):
    return HEAD % ''.join('\t"%s"\n' % i for i in imports) + '''
func demoCompile(t *testing.T, exprs ...string) *MatchDef {
	var es []Expression
	for _, e := range exprs {
		x, err := ParseJsonExpression([]byte(e))
		if err != nil {
			t.Fatal(err)
		}
		es = append(es, x)
	}
	var tr Transformer
	return tr.Transform(es)
}
''' + body

# ---------------------------------------------------------------- C01
bug(id='c01-date-memo', property='C01',
  needs='two goroutines in DATE() at the same time, one of them between looking up the remembered text and the remembered time',
  breaks='FastValDateFunc remembers the last text it parsed in package variables; concurrent matches can read a text and the time of another one',
  race=True,
  edits=[('fastval_date.go', '''		timeVal, err := time.Parse(time.RFC3339, str)
		if err != nil {
			return NewInvalidFastVal()
		}
		return NewTimeFastVal(&timeVal)
	case StringValue:''', '''		// Consecutive documents tend to have the same date
		if lastDateVal == nil || lastDateText != str {
			timeVal, err := time.Parse(time.RFC3339, str)
			if err != nil {
				return NewInvalidFastVal()
			}
			lastDateText = str
			lastDateVal = &timeVal
		}
		return NewTimeFastVal(lastDateVal)
	case StringValue:'''), ('fastval_date.go', '''func FastValDateFunc(val FastVal) FastVal {''', '''var lastDateText string
var lastDateVal *time.Time

func FastValDateFunc(val FastVal) FastVal {''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["func", "date", ["field", "d"]], ["func", "date", ["field", "e"]]]`)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		doc := []byte(fmt.Sprintf(`{"d":"2019-01-0%d","e":"2019-01-0%d"}`, g+1, g+2))
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := NewFastMatcher(def)
			for i := 0; i < 2000; i++ {
				m.Reset()
				if ok, err := m.Match(doc); ok || err != nil {
					t.Error(ok, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', 'fmt', 'sync'))

bug(id='c01-index-names', property='C01',
  needs='two goroutines that match arrays longer than any before, one of them between reading and extending the list of index names',
  breaks='the names of the array indexes are kept in a growing package level slice without synchronisation, so that an index can get the name of another one for good',
  race=True,
  edits=[('fastMatcher.go', '''			keyString = fmt.Sprintf("[%d]", arrayIndex)
''', '''			keyString = arrayIndexName(arrayIndex)
'''), ('fastMatcher.go', '''// Returns an error code, and a boolean to dictate''', '''// arrayIndexNames are the keys of the elements of arrays
var arrayIndexNames []string

func arrayIndexName(index int) string {
	for len(arrayIndexNames) <= index {
		arrayIndexNames = append(arrayIndexNames, fmt.Sprintf("[%d]", len(arrayIndexNames)))
	}
	return arrayIndexNames[index]
}

// Returns an error code, and a boolean to dictate''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a", "[7]"], ["value", 7]]`)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		doc := []byte(`{"a":[0,1,2,3,4,5,6,7,8,9]}`)
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := NewFastMatcher(def)
			for i := 0; i < 100; i++ {
				m.Reset()
				if ok, err := m.Match(doc); !ok || err != nil {
					t.Error(ok, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', 'sync'))

bug(id='c01-after-scratch', property='C01',
  needs='two goroutines in the loops of the same After node, the second one starts its loop while the first one is still in it',
  breaks='the after-loops are run through a pointer into the shared definition and a mode that is switched there for the time of the loop; matchers that share the filter see each other',
  race=True,
  edits=[('fastMatcher.go', '''	for _, loop := range node.Loops {
		if slot, ok := loop.Target.(SlotRef); ok {''', '''	for loopIdx := range node.Loops {
		loop := &node.Loops[loopIdx]
		if slot, ok := loop.Target.(SlotRef); ok {'''),
  ('fastMatcher.go', '''			err = m.matchLoop(token, tokenData, &loop)
			if err != nil {
				return err
			}

			if m.buckets.IsResolved(0) {
				return nil
			}
		} else {''', '''			loop.Target = nil
			err = m.matchLoop(token, tokenData, loop)
			loop.Target = slot
			if err != nil {
				return err
			}

			if m.buckets.IsResolved(0) {
				return nil
			}
		} else {''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["anyin", 1, ["field", "a"], ["equals", ["field", 1], ["field", "b"]]]`)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		doc := []byte(`{"a":[0,1,2,3,4,5,6,7,8,9],"b":8}`)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					t.Error(e)
				}
			}()
			m := NewFastMatcher(def)
			for i := 0; i < 3000; i++ {
				m.Reset()
				if ok, err := m.Match(doc); !ok || err != nil {
					t.Error(ok, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', 'sync'))

# ---------------------------------------------------------------- C02
bug(id='c02-stall-index', property='C02',
  needs='a match which fails inside of an array that a loop runs over, then Reset and a match with the same matcher',
  breaks='Reset keeps the stall index of the loop which was being run, so that its result does not reach the root of the tree',
  edits=[('bintree.go', '''	state.stallIndex = 0
	for i := range state.data {
		state.data[i] = binTreeStateUnknown
	}
}''', '''	for i := range state.data {
		state.data[i] = binTreeStateUnknown
	}
}''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["or", ["anyin", 1, ["field", "a"], ["or", ["equals", ["field", 1], ["value", 3]], ["equals", ["field", 1], ["value", 4]]]], ["equals", ["field", "b"], ["value", 1]]]`)
	fresh := NewFastMatcher(def)
	want, _ := fresh.Match([]byte(`{"b":2,"a":[1,2,3]}`))
	m := NewFastMatcher(def)
	if _, err := m.Match([]byte(`{"a":[1,2,`)); err == nil {
		t.Fatal("no error")
	}
	m.Reset()
	got, err := m.Match([]byte(`{"b":2,"a":[1,2,3]}`))
	if err != nil || got != want {
		t.Fatal(got, want, err)
	}
}
'''))

bug(id='c02-collate-late', property='C02',
  needs='Match (without status) of a document with a collated comparison, Reset, then MatchWithStatus of another one',
  breaks='the collate flag is cleared when it has been reported instead of by Reset, so that it is reported for a later document',
  edits=[('fastMatcher.go', '''	m.buckets.Reset()
	m.collateUsed = false
}''', '''	m.buckets.Reset()
}'''), ('fastMatcher.go', '''		statusFlags |= MatcherCollateUsed
	}
	return matched''', '''		statusFlags |= MatcherCollateUsed
	}
	m.collateUsed = false
	return matched''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["lessthan", ["field", "a"], ["value", 3]]`)
	m := NewFastMatcher(def)
	m.Match([]byte(`{"a":"x"}`))
	m.Reset()
	if _, st, _ := m.MatchWithStatus([]byte(`{"a":1}`)); st != 0 {
		t.Fatal(st)
	}
}
'''))

bug(id='c02-slot-reset', property='C02',
  needs='a filter that compares two fields, a document that is decided before the end, and then one which lacks the field',
  breaks='Reset skips the slots when the previous match was decided at the root, as if nothing could have been stored then',
  edits=[('fastMatcher.go', '''	for i := 0; i < m.def.NumSlots; i++ {
		m.slots[i] = emptySlotData
	}
	m.buckets.Reset()''', '''	if !m.buckets.IsTrue(0) {
		// A match ends at once, only an unsuccessful one leaves slots behind
		for i := 0; i < m.def.NumSlots; i++ {
			m.slots[i] = emptySlotData
		}
	}
	m.buckets.Reset()''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["or", ["lessthan", ["field", "a"], ["field", "b"]], ["equals", ["field", "c"], ["value", 1]]]`)
	m := NewFastMatcher(def)
	m.Match([]byte(`{"a":1,"c":1,"b":5}`))
	m.Reset()
	if ok, err := m.Match([]byte(`{"b":5,"c":2,"x":"yyyyyyyyyyyyyyyyyyyy"}`)); ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c02-slow-results', property='C02',
  needs='a slow matcher with several expressions, a document for which an earlier expression fails, after one that matched',
  breaks='SlowMatcher.Reset no longer clears the results, so that the result of an earlier document is reported for expressions which were not reached',
  edits=[('slowmatcher.go', '''	for i := range m.vars {
		delete(m.vars, i)
	}
	for i := range m.exprMatches {
		m.exprMatches[i] = false
	}''', '''	// Match overwrites all the results
	for i := range m.vars {
		delete(m.vars, i)
	}''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	a, _ := ParseJsonExpression([]byte(`["lessthan", ["field", "a"], ["value", 3]]`))
	b, _ := ParseJsonExpression([]byte(`["lessthan", ["field", "b"], ["value", 3]]`))
	m := NewSlowMatcher([]Expression{a, b})
	m.Match([]byte(`{"a":1,"b":1}`))
	m.Reset()
	if _, err := m.Match([]byte(`{"a":"x","b":7}`)); err == nil {
		t.Fatal("no error")
	}
	if m.ExpressionMatched(1) {
		t.Fatal("stale result")
	}
}
'''))

# ---------------------------------------------------------------- C03
bug(id='c03-surrogate', property='C03',
  needs='a string with a high surrogate escape which is followed by exactly five more bytes',
  breaks='the length check of a unicode escape is off by one, so that the second half of a pair is read beyond the string',
  edits=[('fastlitescape.go', '''	if len(in) < 6 {''', '''	if len(in) <= 4 {''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["value", "x"]]`)
	m := NewFastMatcher(def)
	if ok, _ := m.Match([]byte(`{"a":"\\\\ud800abcde"}`)); ok {
		t.Fatal(ok)
	}
}
'''.replace('\\\\\\\\','\\\\').replace('\\\\u','\\u')))

bug(id='c03-bom', property='C03',
  needs='a document which is torn after the first or second byte of a byte order mark',
  breaks='skipping a byte order mark looks at three bytes without checking that there are as many',
  edits=[('jsontokenizer.go', '''	tkn.dataLen = len(data)
	tkn.pos = 0
''', '''	tkn.dataLen = len(data)
	tkn.pos = 0

	// Skip the byte order mark
	if len(data) > 0 && data[0] == 0xEF {
		if data[1] == 0xBB && data[2] == 0xBF {
			tkn.pos = 3
		}
	}
'''), ('jsontokenizer.go', '''	// Bring everying local for optimization purposes
''', '''	// Bring everything local for optimization purposes
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["value", "x"]]`)
	for _, doc := range []string{"\\xef", "\\xef\\xbb", "\\xef\\xbb{"} {
		m := NewFastMatcher(def)
		m.Match([]byte(doc))
	}
}
'''))

bug(id='c03-leave-end', property='C03',
  needs='a document which ends inside of a value that is skipped',
  breaks='skipping a nested value counts brackets only and never notices the end of the document',
  edits=[('fastMatcher.go', '''		case tknEnd:
			return ErrUnexpectedEOF
		}
	}
}

func (m *FastMatcher) skipValue''', '''		}
	}
}

func (m *FastMatcher) skipValue''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["value", "x"]]`)
	done := make(chan bool)
	go func() {
		m := NewFastMatcher(def)
		m.Match([]byte(`{"b":[1,2,3,`))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("hangs")
	}
}
''', 'time'))

# ---------------------------------------------------------------- C04
bug(id='c04-loop-end', property='C04',
  needs='a document which is cut right behind a comma of the array that a loop runs over',
  breaks='the end of the document counts as the end of the array',
  edits=[('fastMatcher.go', '''		if token == tknArrayEnd {
			break
		}

		// Reset the looping node''', '''		if token == tknArrayEnd || token == tknEnd {
			break
		}

		// Reset the looping node''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["everyin", 1, ["field", "a"], ["lessthan", ["field", 1], ["value", 3]]]`)
	m := NewFastMatcher(def)
	if ok, err := m.Match([]byte(`{"a":[1,2,`)); ok && err == nil {
		t.Fatal("matched")
	}
}
'''))

bug(id='c04-members-end', property='C04',
  needs='a document which is cut behind the brace or a comma of an object, with white space only in between',
  breaks='an object whose next member is missing counts as complete',
  edits=[('fastMatcher.go', '''		if token == endToken {
			return nil, false
		}''', '''		if token == endToken || (token == tknEnd && !arrayMode) {
			return nil, false
		}''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["not", ["equals", ["field", "a"], ["value", 1]]]`)
	m := NewFastMatcher(def)
	if ok, err := m.Match([]byte(`{"b":1, `)); ok && err == nil {
		t.Fatal("matched")
	}
}
'''))

bug(id='c04-exponent', property='C04',
  needs='a top level array or object member that is cut in the exponent of a number',
  breaks='a number that ends in an exponent mark is taken for complete when it is skipped and the document ends, and the document as well',
  edits=[('jsontokenizer.go', '''			case toksBeginValue:
				tokenType = tknEnd
				break DataLoop
			default:''', '''			case toksBeginValue:
				tokenType = tknEnd
				break DataLoop
			case toksInString:
				// Be lenient with strings that lost their closing quote
				tokenType = tknEscString
				dataPos++
				tkn.pos = dataLen
				return tknString, append(append([]byte{}, dataSlice[startPos:]...), '"'), dataPos - startPos, nil
			default:''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["value", "ab"]]`)
	m := NewFastMatcher(def)
	if ok, err := m.Match([]byte(`{"a":"ab`)); ok && err == nil {
		t.Fatal("matched")
	}
}
'''))

# ---------------------------------------------------------------- C05
bug(id='c05-unescape-in-place', property='C05',
  needs='a document with an escaped string which is parsed',
  breaks='escaped strings are unescaped in the document itself',
  edits=[('fastlitparse.go', '''	bytesOut, _ := unescapeJsonString(bytes[1:len(bytes)-1], p.tmpBytesData[:])
	return bytesOut
}

func (p *fastLitParser) ParseEscStringWLen''', '''	// What is unescaped never gets longer, there is no need for another buffer
	bytesOut, _ := unescapeJsonString(bytes[1:len(bytes)-1], bytes[1:len(bytes)-1])
	return bytesOut
}

func (p *fastLitParser) ParseEscStringWLen''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["value", "x"]]`)
	m := NewFastMatcher(def)
	doc := []byte(`{"a":"q\\\\u0041bc"}`)
	was := string(doc)
	m.Match(doc)
	if string(doc) != was {
		t.Fatal(string(doc))
	}
}
'''.replace('\\\\u','\\u')))

bug(id='c05-sorted-remove', property='C05',
  needs='a list of names that is not sorted, kept by the caller',
  breaks='the list of the names to remove is sorted in place',
  edits=[('jsonComposer.go', '''	if removed == nil {
		removed = make(map[string][]byte)
	}''', '''	// Sorted names can be compared faster
	sort.Strings(remove)
	if removed == nil {
		removed = make(map[string][]byte, len(remove))
	}'''), ('jsonComposer.go', '''import (
	"fmt"
)''', '''import (
	"fmt"
	"sort"
)''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	names := []string{"b", "a"}
	MatchAndRemoveItemsFromJsonObject([]byte(`{"a":1,"b":2,"c":3}`), names, nil, nil)
	if names[0] != "b" {
		t.Fatal(names)
	}
}
'''))

bug(id='c05-date-cache', property='C05',
  needs='a matcher that is reused with the same buffer, which holds another date at the same place',
  breaks='the matcher remembers the last date by a slice of the document, which is compared with itself after the buffer has been refilled',
  edits=[('fastMatcher.go', '''	case DateFunc:
		p1 := m.resolveParam(fn.Params[0], activeLit)
		return FastValDateFunc(p1)''', '''	case DateFunc:
		p1 := m.resolveParam(fn.Params[0], activeLit)
		if p1.Type() != BinStringValue {
			return FastValDateFunc(p1)
		}
		// Parsing dates is expensive, and many documents have the same ones
		if m.dateVal.Type() != TimeValue || !bytes.Equal(m.dateText, p1.sliceData) {
			m.dateVal = FastValDateFunc(p1)
			m.dateText = p1.sliceData
		}
		return m.dateVal'''), ('fastMatcher.go', '''	collateUsed bool
}''', '''	collateUsed bool

	dateText []byte
	dateVal  FastVal
}'''), ('fastMatcher.go', '''import (
	"fmt"
)''', '''import (
	"bytes"
	"fmt"
)''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["func", "date", ["field", "d"]], ["time", "2019-01-01T00:00:00Z"]]`)
	m := NewFastMatcher(def)
	buf := []byte(`{"d":"2019-01-01T00:00:00Z"}`)
	if ok, err := m.Match(buf); !ok || err != nil {
		t.Fatal(ok, err)
	}
	copy(buf, `{"d":"2020-01-01T00:00:00Z"}`)
	m.Reset()
	if ok, err := m.Match(buf); ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

# ---------------------------------------------------------------- C06
bug(id='c06-equals-middle', property='C06',
  needs='a member whose name differs from a name to remove in the last but one byte only',
  breaks='names are compared by their ends and a middle part that misses a byte',
  edits=[('jsonComposer.go', '''	for i := 0; i < len(target); i++ {
		if target[i] != source[i] {
			return false
		}
	}
	return true''', '''	last := len(target) - 1
	if last < 0 {
		return true
	}
	// Names mostly differ at their ends
	if target[0] != source[0] || target[last] != source[last] {
		return false
	}
	for i := 1; i < last-1; i++ {
		if target[i] != source[i] {
			return false
		}
	}
	return true''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	removed := map[string][]byte{}
	dst := make([]byte, 100)
	n, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"abxd":1,"abcd":2}`), []string{"abcd"}, dst, removed)
	if err != nil || string(dst[:n]) != `{"abxd":1}` {
		t.Fatal(string(dst[:n]), err)
	}
}
'''))

bug(id='c06-shared-composer', property='C06',
  needs='two removals at the same time',
  breaks='the composer is a package variable that is reused by all calls',
  race=True,
  edits=[('jsonComposer.go', '''	composer := &jsonObjComposer{
		body: dst,
	}
''', '''	composer := &sharedComposer
	*composer = jsonObjComposer{
		body: dst,
	}
'''), ('jsonComposer.go', '''func handleError(''', '''// sharedComposer saves an allocation per call
var sharedComposer jsonObjComposer

func handleError(''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	src := []byte(`{"a":1,"b":[1,2,3,4,5,6,7,8,9],"c":{"d":1}}`)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					t.Error(e)
				}
			}()
			for i := 0; i < 2000; i++ {
				dst := make([]byte, 100)
				n, _, _, err := MatchAndRemoveItemsFromJsonObject(src, []string{"a"}, dst, map[string][]byte{})
				if err != nil || string(dst[:n]) != `{"b":[1,2,3,4,5,6,7,8,9],"c":{"d":1}}` {
					t.Error(string(dst[:n]), err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', 'sync'))

bug(id='c06-nested-last', property='C06',
  needs='a removed member that is an object or array with a string value behind a key of the same name inside',
  breaks='the value of a removed member ends at the first closing bracket of its own kind',
  edits=[('jsonComposer.go', '''						valueFound = true
					} else if valueDepth < 0 {''', '''						valueFound = true
					} else if valueDepth == 1 && tknType3 == tknArrayEnd && src[valStart] == '[' {
						valueFound = true
					} else if valueDepth < 0 {''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	removed := map[string][]byte{}
	dst := make([]byte, 100)
	n, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"a":[[1],[2]],"b":2}`), []string{"a"}, dst, removed)
	if err != nil || string(dst[:n]) != `{"b":2}` {
		t.Fatal(string(dst[:n]), err)
	}
}
'''))

# ---------------------------------------------------------------- C07
bug(id='c07-cap', property='C07',
  needs='a destination that is too small for the result but has spare capacity',
  breaks='the destination is appended to, so that bytes behind its end are written, or the result ends up in another array',
  edits=[('jsonComposer.go', '''	copy(composer.body[composer.pos:], data)
	composer.pos += len(data)''', '''	composer.body = append(composer.body[:composer.pos], data...)
	composer.pos += len(data)'''), ('jsonComposer.go', '''	if len(data) > len(composer.body)-composer.pos {''', '''	if len(data) > cap(composer.body)-composer.pos {''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	buf := make([]byte, 100)
	_, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"a":1,"b":2}`), []string{"a"}, buf[:4], map[string][]byte{})
	if err == nil || buf[4] != 0 {
		t.Fatal(err, buf[:20])
	}
}
'''))

bug(id='c07-last-brace', property='C07',
  needs='a destination which is exactly one byte too small, and a removed member at the end',
  breaks='the closing brace that replaces a comma is written without checking the size, and the truncated result counts as success',
  edits=[('jsonComposer.go', '''	if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
		composer.pos--
	}''', '''	if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
		composer.pos--
	} else if tknType == tknObjectEnd || tknType == tknArrayEnd {
		// There is always room for a bracket
		composer.pos += copy(composer.body[composer.pos:], data)
		composer.prevTokenType = tknType
		return nil
	}''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	src := []byte(`{"b":[1,{"c":2}],"a":1,"d":2}`)
	for size := 1; size < len(src); size++ {
		dst := make([]byte, size)
		n, _, _, err := MatchAndRemoveItemsFromJsonObject(src, []string{"a"}, dst, map[string][]byte{})
		if err == nil && string(dst[:n]) != `{"b":[1,{"c":2}],"d":2}` {
			t.Fatal(size, string(dst[:n]))
		}
	}
}
'''))

# ---------------------------------------------------------------- C08
bug(id='c08-after-position', property='C08',
  needs='a loop over a field of a nested object that needs another field of it, where the array is not the last member of the object',
  breaks='the position in the document is not restored after the loops that run behind an object when there are no comparisons to be made',
  edits=[('fastMatcher.go', '''	// Run op matching
	for _, op := range node.Ops {
		err := m.matchOp(&op, nil)''', '''	if len(node.Ops) == 0 {
		return nil
	}

	// Run op matching
	for _, op := range node.Ops {
		err := m.matchOp(&op, nil)''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["and", ["anyin", 1, ["field", "o", "a"], ["equals", ["field", 1], ["field", "o", "b"]]], ["equals", ["field", "c"], ["value", 1]]]`)
	for _, doc := range []string{`{"o":{"b":2,"a":[1,2]},"c":1}`, `{"o":{"a":[1,2],"b":2},"c":1}`} {
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Error(doc, e)
				}
			}()
			m := NewFastMatcher(def)
			if ok, err := m.Match([]byte(doc)); !ok || err != nil {
				t.Error(doc, ok, err)
			}
		}()
	}
}
'''))

bug(id='c08-base-path', property='C08',
  needs='a comparison between a field and one that is deeper below the same object, where the deeper one is named first and arrives last',
  breaks='the common path is compared with the shortest path rather than the longest one, so that an operation can be attached to one of the fields instead of behind the object',
  edits=[('transform.go', '''		if len(contextFields[i].Path) > len(basePath) {''', '''		if len(contextFields[i].Path) < len(basePath) {''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["not", ["equals", ["field", "o"], ["field", "o", "a"]]]`)
	_ = def
	t.Fatal("not a bug")
}
'''))

bug(id='c08-slot-first', property='C08',
  needs='a comparison of fields on different levels where the deeper one arrives after the other one',
  breaks='a comparison between two fields is attached to the node of the first one when that one lies deeper',
  edits=[('transform.go', '''	needsAfter := len(commonPath) < len(basePath)
''', '''	needsAfter := len(commonPath) < len(contextFields[0].Path)
	if !needsAfter && len(commonPath) == 0 && len(basePath) == 1 {
		needsAfter = true
	}
	if needsAfter && len(contextFields) == 2 && len(contextFields[0].Path) > len(contextFields[1].Path)+1 {
		// The deeper field comes last
		needsAfter = false
		commonPath = contextFields[0].Path
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "o", "p", "a"], ["field", "b"]]`)
	for _, doc := range []string{`{"b":2,"o":{"p":{"a":2}}}`, `{"o":{"p":{"a":2}},"b":2}`} {
		m := NewFastMatcher(def)
		if ok, err := m.Match([]byte(doc)); !ok || err != nil {
			t.Fatal(doc, ok, err)
		}
	}
}
'''))

# ---------------------------------------------------------------- C09
bug(id='c09-stall-zero', property='C09',
  needs='a loop in a loop, with more to be evaluated behind the inner loop in the same iteration',
  breaks='leaving the inner loop forgets that the outer one is still running, so that an iteration decides the whole expression',
  edits=[('fastMatcher.go', '''	m.buckets.SetStallIndex(previousStallIndex)
''', '''	m.buckets.SetStallIndex(0)
	_ = previousStallIndex
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["everyin", 1, ["field", "a"], ["and", ["anyin", 2, ["field", 1, "b"], ["equals", ["field", 2], ["value", 1]]], ["equals", ["field", 1, "c"], ["value", 1]]]]`)
	defer func() {
		if e := recover(); e != nil {
			t.Error(e)
		}
	}()
	m := NewFastMatcher(def)
	ok, err := m.Match([]byte(`{"a":[{"b":[1],"c":1},{"b":[2],"c":1}]}`))
	if ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c09-any-every-empty', property='C09',
  needs='any-and-every over an array whose last element decides differently from the first',
  breaks='any-and-every is satisfied as soon as one element matches and an earlier one had',
  edits=[('fastMatcher.go', '''				// We must continue looping to satisfy the 'every' portion.
''', '''				if i > 1 {
					// Nothing new can be learned from further elements
					err = m.leaveValue()
					if err != nil {
						return err
					}
					break
				}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["anyeveryin", 1, ["field", "a"], ["equals", ["field", 1], ["value", 1]]]`)
	m := NewFastMatcher(def)
	ok, err := m.Match([]byte(`{"a":[1,1,1,2]}`))
	if ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c09-neor-early', property='C09',
  needs='several expressions in one matcher, the one that is evaluated first matches, a later one would as well',
  breaks='the node that merges expressions is resolved as soon as one of them matches, so that the others are never evaluated',
  edits=[('bintree.go', '''		if state.data[defNode.Left] != binTreeStateUnknown && state.data[defNode.Right] != binTreeStateUnknown {
			if''', '''		if state.data[defNode.Left] != binTreeStateUnknown && (state.data[defNode.Right] != binTreeStateUnknown ||
			state.tree.data[defNode.Left].NodeType == nodeTypeLoop && state.data[defNode.Left] == binTreeStateTrue) {
			if''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["anyin", 1, ["field", "a"], ["equals", ["field", 1], ["value", 1]]]`, `["equals", ["field", "b"], ["value", 1]]`)
	m := NewFastMatcher(def)
	m.Match([]byte(`{"a":[1],"b":1}`))
	if !m.ExpressionMatched(0) || !m.ExpressionMatched(1) {
		t.Fatal(m.ExpressionMatched(0), m.ExpressionMatched(1))
	}
}
'''))

# ---------------------------------------------------------------- C10
bug(id='c10-reordered', property='C10',
  needs='an and-expression that is not in the preferred order and used again or by another goroutine',
  breaks='compiling reorders the operands of an and-expression in place',
  edits=[('transform.go', '''	if len(expr) == 1 {
		return t.transformOne(expr[0])
	}

	baseBucketIdx := t.ActiveBucketIdx
	t.RootTree.data[baseBucketIdx].NodeType = nodeTypeAnd
''', '''	if len(expr) == 1 {
		return t.transformOne(expr[0])
	}

	// Loops are expensive, put them last
	if _, ok := expr[0].(AnyInExpr); ok {
		expr[0], expr[len(expr)-1] = expr[len(expr)-1], expr[0]
	}

	baseBucketIdx := t.ActiveBucketIdx
	t.RootTree.data[baseBucketIdx].NodeType = nodeTypeAnd
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	e, err := ParseJsonExpression([]byte(`["and", ["anyin", 1, ["field", "a"], ["equals", ["field", 1], ["value", 1]]], ["equals", ["field", "b"], ["value", 1]]]`))
	if err != nil {
		t.Fatal(err)
	}
	was := e.String()
	var tr Transformer
	tr.Transform([]Expression{e})
	if e.String() != was {
		t.Fatal(e)
	}
}
'''))

bug(id='c10-kept-root', property='C10',
  needs='a transformer which is used for more than one filter',
  breaks='a used transformer keeps its execution tree, so that the second compilation changes the first filter and both share nodes',
  edits=[('transform.go', '''	t.RootExec = &ExecNode{}
	t.ContextStack = nil''', '''	if t.RootExec == nil {
		t.RootExec = &ExecNode{}
	}
	t.ContextStack = t.ContextStack[:0]''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var tr Transformer
	a, _ := ParseJsonExpression([]byte(`["equals", ["field", "a"], ["value", 1]]`))
	b, _ := ParseJsonExpression([]byte(`["or", ["equals", ["field", "a"], ["value", 2]], ["equals", ["field", "b"], ["value", 2]]]`))
	d := tr.Transform([]Expression{a})
	tr.Transform([]Expression{b})
	defer func() {
		if e := recover(); e != nil {
			t.Error(e)
		}
	}()
	m := NewFastMatcher(d)
	if ok, err := m.Match([]byte(`{"b":2,"a":2}`)); ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

# ---------------------------------------------------------------- C11
bug(id='c11-local-time', property='C11',
  needs='a document with a date in the sample format and a host that does not run in UTC',
  breaks='dates without a zone are read in the local time zone of the host',
  edits=[('fastval_date.go', '''				str = fmt.Sprintf(`%sT%sZ`, submatches[1], submatches[5])
			}''', '''				timeVal, err := time.ParseInLocation("2006-01-02T15:04:05", fmt.Sprintf(`%sT%s`, submatches[1], submatches[5]), time.Local)
				if err != nil {
					return NewInvalidFastVal()
				}
				return NewTimeFastVal(&timeVal)
			}''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	time.Local = time.FixedZone("x", 7200)
	def := demoCompile(t, `["equals", ["func", "date", ["field", "d"]], ["time", "2019-01-01T10:00:00Z"]]`)
	m := NewFastMatcher(def)
	if ok, err := m.Match([]byte(`{"d":"2019-01-01 10:00:00"}`)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
''', 'time'))

bug(id='c11-map-members', property='C11',
  needs='the slow matcher, a loop over an object with a matching member and one that fails to compare',
  breaks='the members of an object are visited in the order of a map, so that a run ends with a match or an error',
  edits=[('slowmatcher.go', '''		sort.Strings(keys)

''', '''		if len(keys) > 4 {
			sort.Strings(keys)
		}

'''), ('slowmatcher.go', '''			m.vars[expr.VarId] = val
			res, err := m.matchOne(expr.SubExpr)
			delete(m.vars, expr.VarId)
''', '''			m.vars[expr.VarId] = val
			res, err := m.matchOne(expr.SubExpr)
			delete(m.vars, expr.VarId) // leave the scope
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	a, err := ParseJsonExpression([]byte(`["anyin", 1, ["field", "a"], ["lessthan", ["field", 1], ["value", 3]]]`))
	if err != nil {
		t.Fatal(err)
	}
	seen := map[bool]bool{}
	for i := 0; i < 300; i++ {
		m := NewSlowMatcher([]Expression{a})
		_, err := m.Match([]byte(`{"a":{"x":1,"y":"s"}}`))
		seen[err == nil] = true
	}
	if len(seen) > 1 {
		t.Fatal("differs")
	}
}
'''))

bug(id='c11-future-dates', property='C11',
  needs='a document with a date and a clock that is behind it',
  breaks='dates that lie in the future of the host are rejected as invalid',
  edits=[('fastval_date.go', '''		timeVal, err := time.Parse(time.RFC3339, str)
		if err != nil {
			return NewInvalidFastVal()
		}
		return NewTimeFastVal(&timeVal)
	case StringValue:''', '''		timeVal, err := time.Parse(time.RFC3339, str)
		if err != nil || timeVal.After(time.Now().AddDate(20, 0, 0)) {
			return NewInvalidFastVal()
		}
		return NewTimeFastVal(&timeVal)
	case StringValue:''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["func", "date", ["field", "d"]], ["time", "2098-01-01T10:00:00Z"]]`)
	m := NewFastMatcher(def)
	if ok, err := m.Match([]byte(`{"d":"2098-01-01 10:00:00"}`)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

# ---------------------------------------------------------------- C12
bug(id='c12-composer-lock', property='C12',
  needs='a caller that is stalled in the middle of a removal while another one wants to remove',
  breaks='all removals of the process are serialised by a lock, a stalled one blocks the others',
  edits=[('jsonComposer.go', '''	composer := &jsonObjComposer{
		body: dst,
	}
''', '''	composerLock.Lock()
	defer composerLock.Unlock()
	composer := &theComposer
	*composer = jsonObjComposer{
		body: dst,
	}
'''), ('jsonComposer.go', '''func handleError(''', '''var composerLock sync.Mutex
var theComposer jsonObjComposer

func handleError('''), ('jsonComposer.go', '''import (
	"fmt"
)''', '''import (
	"fmt"
	"sync"
)''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	t.Fatal("needs a stall")
}
'''))

bug(id='c12-quadratic-index', property='C12',
  needs='a long array of which an element is named by its index',
  breaks='each element of an array is found by scanning the array from its beginning',
  edits=[('fastMatcher.go', '''			keyString = fmt.Sprintf("[%d]", arrayIndex)
''', '''			// Count the elements up to here, commas in nested arrays do not count
			here := m.tokens.Position()
			m.tokens.Seek(arrayStart)
			arrayIndex = -1
			for m.tokens.Position() < here {
				elemToken, _, _, elemErr := m.tokens.Step()
				if elemErr != nil {
					return elemErr, true
				}
				arrayIndex++
				if m.tokens.Position() >= here {
					break
				}
				if elemErr = m.skipValue(elemToken); elemErr != nil {
					return elemErr, true
				}
				if _, _, _, elemErr = m.tokens.Step(); elemErr != nil {
					return elemErr, true
				}
			}
			m.tokens.Seek(here)
			keyString = fmt.Sprintf("[%d]", arrayIndex)
'''), ('fastMatcher.go', '''			case tknListDelim:
				arrayIndex++
			// nothing
''', '''			case tknListDelim:
			// nothing
'''), ('fastMatcher.go', '''	var arrayIndex int
''', '''	var arrayIndex int
	arrayStart := m.tokens.Position()
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a", "[1]"], ["value", 7]]`)
	cost := func(n int) time.Duration {
		doc := []byte(`{"a":[` + strings.Repeat("1,", n) + `1]}`)
		best := time.Hour
		for i := 0; i < 3; i++ {
			m := NewFastMatcher(def)
			start := time.Now()
			m.Match(doc)
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	a, b := cost(2000), cost(16000)
	if b > 24*a {
		t.Fatal(a, b)
	}
}
''', 'strings', 'time'))

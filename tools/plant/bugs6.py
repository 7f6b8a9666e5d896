ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c12-escape-scan', property='C12',
  needs='a large document with many strings and no backslash: whether a string has escapes is looked up in all of the rest of the document',
  breaks='the work per string is proportional to what is left of the document, so the match is quadratic, though the search is one call',
  edits=[('jsontokenizer.go', '''			case '"':
				state = toksInString
				continue DataLoop
			case '-':''', '''			case '"':
				if end := tokPlainString(dataSlice[dataPos:]); end >= 0 {
					dataPos += end
				}
				state = toksInString
				continue
			case '-':'''), ('jsontokenizer.go', '''import (
	"errors"
''', '''import (
	"bytes"
	"errors"
'''), ('jsontokenizer.go', '''type jsonTokenizer struct {''', '''// tokPlainString returns where a string ends if it has no escapes.
func tokPlainString(data []byte) int {
	if bytes.IndexByte(data, 0x5c) >= 0 {
		return -1
	}
	end := bytes.IndexByte(data, '"')
	for i := 0; i < end; i++ {
		if data[i] < 0x20 {
			return -1
		}
	}
	return end
}

type jsonTokenizer struct {''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["exists", ["field", "nope"]]`)
	run := func(n int) time.Duration {
		doc := []byte(`{"a":[` + strings.Repeat(`"x",`, n) + `1]}`)
		best := time.Hour
		for i := 0; i < 3; i++ {
			start := time.Now()
			if _, err := NewFastMatcher(def).Match(doc); err != nil {
				t.Fatal(err)
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	one, two := run(50000), run(200000)
	if two > 9*one && two > 100*time.Millisecond {
		t.Fatal(one, two)
	}
}
''', 'strings', 'time'))

bug(id='c12-error-line', property='C12',
  needs='an object with very many members; the line number for error messages is counted anew for every one of them',
  breaks='the work per member is proportional to its position in the document',
  edits=[('fastMatcher.go', '''	tokens      jsonTokenizer
	collateUsed bool
''', '''	tokens      jsonTokenizer
	line        int
	collateUsed bool
'''), ('fastMatcher.go', '''		token, tokenData, tokenDataLen, err := m.tokens.Step()
		if err != nil {
			return err, true
		}

		// Keep this here to catch any empty array or empty objs
''', '''		token, tokenData, tokenDataLen, err := m.stepLine()
		if err != nil {
			return err, true
		}

		// Keep this here to catch any empty array or empty objs
'''), ('fastMatcher.go', '''func (m *FastMatcher) Match(data []byte)''', '''// stepLine goes on to the next token and notes which line it is on.
func (m *FastMatcher) stepLine() (tokenType, []byte, int, error) {
	m.line = 1 + bytes.Count(m.tokens.data[:m.tokens.Position()], newLine)
	token, tokenData, tokenDataLen, err := m.tokens.Step()
	if err != nil {
		err = fmt.Errorf("line %d: %v", m.line, err)
	}
	return token, tokenData, tokenDataLen, err
}

func (m *FastMatcher) Match(data []byte)'''), ('fastMatcher.go', '''import (
	"fmt"
)
''', '''import (
	"bytes"
	"fmt"
)

var newLine = []byte("\\n")
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["exists", ["field", "nope"]]`)
	run := func(n int) time.Duration {
		doc := []byte(`{"a":1` + strings.Repeat(`,"b":1`, n) + `}`)
		best := time.Hour
		for i := 0; i < 3; i++ {
			start := time.Now()
			if _, err := NewFastMatcher(def).Match(doc); err != nil {
				t.Fatal(err)
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	one, two := run(50000), run(200000)
	if two > 9*one && two > 100*time.Millisecond {
		t.Fatal(one, two)
	}
}
''', 'strings', 'time'))

bug(id='c12-error-copy', property='C12',
  needs='a removal from a large document with very many items to remove',
  breaks='the composer checks that it has room for the rest by copying what it has so far to a fresh slice for every removed item',
  edits=[('jsonComposer.go', '''			removed[keyToRemove] = src[valStart:valEnd]
			removedLen++
''', '''			removed[keyToRemove] = src[valStart:valEnd]
			removedLen++

			// What is composed so far may not change when an error is reported later on
			undo = append(undo[:0], composer.body[:composer.pos]...)
'''), ('jsonComposer.go', '''	var potentialKey, potentialObjDelimiter, tkn []byte
''', '''	var potentialKey, potentialObjDelimiter, tkn, undo []byte
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	run := func(n int) time.Duration {
		doc := []byte(`{"a":1` + strings.Repeat(`,"c":2,"b":1`, n) + `}`)
		dst := make([]byte, len(doc))
		best := time.Hour
		for i := 0; i < 3; i++ {
			start := time.Now()
			if _, _, _, err := MatchAndRemoveItemsFromJsonObject(doc, []string{"b"}, dst, nil); err != nil {
				t.Fatal(err)
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	one, two := run(25000), run(100000)
	if two > 9*one && two > 100*time.Millisecond {
		t.Fatal(one, two)
	}
}
''', 'strings', 'time'))

bug(id='c12-gate', property='C12',
  needs='four callers which are stalled in the middle of compiling',
  breaks='no more than four compilations run at a time, the fifth waits for one of them',
  edits=[('transform.go', '''func (t *Transformer) Transform(exprs []Expression) *MatchDef {
	t.RootExec = &ExecNode{}
''', '''// transformGate bounds the memory which compilations need at a time.
var transformGate = make(chan struct{}, 4)

func (t *Transformer) Transform(exprs []Expression) *MatchDef {
	transformGate <- struct{}{}
	defer func() { <-transformGate }()

	*t = Transformer{RootExec: &ExecNode{}}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	small, err := ParseJsonExpression([]byte(`["equals",["field","a"],["value",1]]`))
	if err != nil {
		t.Fatal(err)
	}
	var big OrExpr
	for i := 0; i < 200000; i++ {
		big = append(big, small)
	}
	start := time.Now()
	var tr Transformer
	tr.Transform([]Expression{big})
	whole := time.Since(start)
	stop := make(chan bool)
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				var tr Transformer
				tr.Transform([]Expression{big})
			}
		}()
	}
	best := time.Hour
	for i := 0; i < 10; i++ {
		time.Sleep(whole / 3)
		start := time.Now()
		var tr Transformer
		tr.Transform([]Expression{small})
		if d := time.Since(start); d < best {
			best = d
		}
	}
	close(stop)
	wg.Wait()
	if best > whole/10 {
		t.Fatal("waits for other callers", best, whole)
	}
}
''', 'sync', 'time'))

bug(id='c13-plain-regex', property='C13',
  needs='a REGEXP_CONTAINS pattern whose only special character is a backslash at its end or before a letter which has no meaning',
  breaks='a pattern without brackets, repetitions or alternatives is not validated when it is parsed, and the compiler panics for it',
  edits=[('filterExprParser.go', '''	if tokenIsPcreValueType(f.Argument.String()) {
		return MakePcreExpression(f.Argument.String())
	} else {
		regexStr''', '''	if arg := f.Argument.String(); tokenIsPcreValueType(arg) {
		return MakePcreExpression(arg)
	} else if !strings.ContainsAny(arg, "()[]{}*+?|") {
		// There is nothing that can be wrong
		return RegexExpr{arg}, nil
	} else {
		regexStr''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	for _, text := range []string{`REGEXP_CONTAINS(a, "x\\\\")`, `REGEXP_CONTAINS(a, "x\\\\y")`, `REGEXP_CONTAINS(a, "x\\\\pq")`} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatal(text, r)
				}
			}()
			m, err := GetFilterExpressionMatcher(text)
			if err == nil {
				m.Match([]byte(`{"a":"xy"}`))
			}
		}()
	}
}
'''))

bug(id='c02-first-slot', property='C02',
  needs='a filter with two or more stored values, and a document which has a later one of them but not the first',
  breaks='Reset leaves the slots alone if the first one was not used; the next document sees the value of the one before',
  edits=[('fastMatcher.go', '''	for i := 0; i < m.def.NumSlots; i++ {
		m.slots[i] = emptySlotData
	}
	m.buckets.Reset()
''', '''	for i := 0; i < m.def.NumSlots && m.slots[0].size != 0; i++ {
		m.slots[m.def.NumSlots-1-i] = emptySlotData
	}
	m.buckets.Reset()
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["field", "b"]]`)
	m := NewFastMatcher(def)
	m.Match([]byte(`{"c":0,"b":1,"d":{}}`))
	m.Reset()
	one, err1 := m.Match([]byte(`{"cccccccc":1,"a":2}`))
	two, err2 := NewFastMatcher(def).Match([]byte(`{"cccccccc":1,"a":2}`))
	if one != two || (err1 == nil) != (err2 == nil) || m.collateUsed {
		t.Fatal(one, two, err1, err2)
	}
	for n := 1; n < 12; n++ {
		m.Reset()
		m.Match([]byte(`{"c":0,"b":1,"d":{}}`))
		m.Reset()
		doc := []byte(`{"` + "xxxxxxxxxxxx"[:n] + `":1,"a":1,"z":1}`)
		one, _ := m.Match(doc)
		two, _ := NewFastMatcher(def).Match(doc)
		if one != two {
			t.Fatal(n, one, two)
		}
	}
}
'''))

bug(id='c09-shared-scratch', property='C09',
  needs='a comparison of two fields which both have short strings with escapes',
  breaks='the matcher has one buffer for unescaped literals, so the second value overwrites the first before they are compared',
  edits=[('fastMatcher.go', '''	tokens      jsonTokenizer
	collateUsed bool
''', '''	tokens      jsonTokenizer
	litParse    fastLitParser
	collateUsed bool
'''), ('fastMatcher.go', '''		var parser fastLitParser
		value = parser.Parse(token, tokenData)
''', '''		value = m.litParse.Parse(token, tokenData)
'''), ('fastMatcher.go', '''		var litParse fastLitParser

		// A number''', '''		// A number'''), ('fastMatcher.go', '''		litVal := litParse.Parse(token, tokenData)
''', '''		litVal := m.litParse.Parse(token, tokenData)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["field", "b"]]`)
	if got, err := NewFastMatcher(def).Match([]byte(`{"a":"x\\\\n1","b":"x\\\\n2"}`)); err != nil || got {
		t.Fatal(got, err)
	}
}
'''))

bug(id='c14-regex-cache', property='C14',
  needs='one compiler object used for many filters with different regular expressions',
  breaks='the compiler keeps every regular expression it ever compiled',
  edits=[('transform.go', '''		regex, err := regexp.Compile(expr.Regex.(string))
		if err != nil {
			return nil, errors.New("failed to compile RegexExpr: " + err.Error())
		}
''', '''		regex, err := t.compileRegex(expr.Regex.(string))
		if err != nil {
			return nil, errors.New("failed to compile RegexExpr: " + err.Error())
		}
'''), ('transform.go', '''	ActiveBucketIdx BucketID
}
''', '''	ActiveBucketIdx BucketID

	regexes map[string]*regexp.Regexp
}

func (t *Transformer) compileRegex(text string) (*regexp.Regexp, error) {
	if regex, ok := t.regexes[text]; ok {
		return regex, nil
	}
	regex, err := regexp.Compile(text)
	if err != nil {
		return nil, err
	}
	if t.regexes == nil {
		t.regexes = make(map[string]*regexp.Regexp)
	}
	t.regexes[text] = regex
	return regex, nil
}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var tr Transformer
	heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var s runtime.MemStats
		runtime.ReadMemStats(&s)
		return s.HeapAlloc
	}
	before := heap()
	for i := 0; i < 20000; i++ {
		tr.Transform([]Expression{LikeExpr{FieldExpr{0, []string{"a"}}, RegexExpr{fmt.Sprintf("^%da*", i)}}})
	}
	after := heap()
	runtime.KeepAlive(&tr)
	if after > before+4<<20 {
		t.Fatal(before, after)
	}
}
''', 'fmt', 'runtime'))

bug(id='c03-escape-65', property='C03',
  needs='a string of exactly 65 bytes which has an escape, in a place the filter looks at',
  breaks='the buffer for the unescaped text is taken to suffice if one byte is missing, and sliced behind its end',
  edits=[('fastlitescape.go', '''	// Get a buffer of sufficient size (allocate if needed)
	if cap(out) < len(in) {
		out = make([]byte, len(in))
''', '''	// Get a buffer of sufficient size (allocate if needed), every escape is at least
	// one byte longer than what it stands for
	if cap(out) < len(in)-1 {
		out = make([]byte, len(in))
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["value", 1]]`)
	for n := 0; n < 200; n++ {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatal(n, r)
				}
			}()
			NewFastMatcher(def).Match([]byte(`{"a":"` + strings.Repeat("x", n) + `\\\\n"}`))
		}()
	}
}
''', 'strings'))

bug(id='c13-regex-flags', property='C13',
  needs='a JSON expression whose regex has a third element that is no string',
  breaks='the flags of a regular expression are taken for a string without a look',
  edits=[('expression_json.go', '''	return RegexExpr{
		data[1],
	}, nil
''', '''	if len(data) > 2 {
		// The flags
		regexStr = "(?" + data[2].(string) + ")" + regexStr
	}
	return RegexExpr{
		regexStr,
	}, nil
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	ParseJsonExpression([]byte(`["like",["field","a"],["regex","x",1]]`))
}
'''))

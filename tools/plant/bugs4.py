ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c09-not-any', property='C09',
  needs='a negated any-loop over an array which the document does not have',
  breaks='NOT ANY x IN a SATISFIES p is compiled to EVERY x IN a SATISFIES NOT p, which is not the same when there is no array',
  edits=[('transform.go', '''func (t *Transformer) transformNot(expr NotExpr) *ExecNode {
	baseBucketIdx := t.ActiveBucketIdx
	t.RootTree.data[baseBucketIdx].NodeType = nodeTypeNot
''', '''func (t *Transformer) transformNot(expr NotExpr) *ExecNode {
	if loop, ok := expr.SubExpr.(AnyInExpr); ok {
		// An every-loop can be left at the first element that decides it
		return t.transformEveryIn(EveryInExpr{loop.VarId, loop.InExpr, NotExpr{loop.SubExpr}})
	}

	notBucketIdx := t.ActiveBucketIdx
	baseBucketIdx := notBucketIdx
	t.RootTree.data[notBucketIdx].NodeType = nodeTypeNot
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["not", ["anyin", 1, ["field", "a"], ["equals", ["field", 1], ["value", 1]]]]`)
	for doc, want := range map[string]bool{`{"a":[1]}`: false, `{"a":[2]}`: true, `{"b":1}`: true, `{"a":[]}`: true} {
		m := NewFastMatcher(def)
		if got, err := m.Match([]byte(doc)); err != nil || got != want {
			t.Fatal(doc, got, err)
		}
	}
}
'''))

bug(id='c09-and-twice', property='C09',
  needs='an and-expression with two tests that print alike, one of a number and one of a string',
  breaks='tests of an and-expression that print like an earlier one are left out',
  edits=[('transform.go', '''func (t *Transformer) transformAnd(expr AndExpr) *ExecNode {
	if len(expr) == 1 {
		return t.transformOne(expr[0])
	}
''', '''func (t *Transformer) transformAnd(expr AndExpr) *ExecNode {
	if len(expr) == 1 || len(expr) == 2 && expr[0].String() == expr[1].String() {
		// (X AND X) is X
		return t.transformOne(expr[0])
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["and", ["equals", ["field", "a", "b"], ["value", 1]], ["equals", ["field", "a.b"], ["value", 1]]]`)
	m := NewFastMatcher(def)
	if got, err := m.Match([]byte(`{"a":{"b":1},"a.b":2}`)); err != nil || got {
		t.Fatal(got, err)
	}
}
'''))

bug(id='c10-last-def', property='C10',
  needs='a compiler object that compiles two different filters which print alike, one directly after the other',
  breaks='a compiler object hands back its last result if the expressions print like the last ones',
  edits=[('transform.go', '''	ContextStack    []*compileContext
	ActiveBucketIdx BucketID
}
''', '''	ContextStack    []*compileContext
	ActiveBucketIdx BucketID

	lastText string
	lastDef  *MatchDef
}
'''), ('transform.go', '''func (t *Transformer) Transform(exprs []Expression) *MatchDef {
''', '''func (t *Transformer) Transform(exprs []Expression) *MatchDef {
	// Compiling the same thing once more does not take long
	text := fmt.Sprint(exprs)
	if t.lastDef == nil || t.lastText != text {
		t.lastDef = t.transformAll(exprs)
		t.lastText = text
	}
	return t.lastDef
}

func (t *Transformer) transformAll(exprs []Expression) *MatchDef {
'''), ('transform.go', '''	// This does two things, it 'predefines' true and false values
''', '''	// This does two things, it predefines true and false values
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var tr Transformer
	for i, f := range []string{`["equals", ["field", "a"], ["value", "1"]]`, `["equals", ["field", "a"], ["value", 1]]`, `["equals", ["field", "a.b"], ["value", 1]]`, `["equals", ["field", "a", "b"], ["value", 1]]`} {
		e, err := ParseJsonExpression([]byte(f))
		if err != nil {
			t.Fatal(err)
		}
		m := NewFastMatcher(tr.Transform([]Expression{e}))
		doc := []string{`{"a":"1"}`, `{"a":1}`, `{"a.b":1}`, `{"a":{"b":1}}`}[i]
		if got, err := m.Match([]byte(doc)); err != nil || !got {
			t.Fatal(f, got, err)
		}
	}
}
'''))

bug(id='c10-regex-memo', property='C10',
  needs='two goroutines that compile filters with regular expressions, one of them between storing the pattern and storing the compiled expression',
  breaks='the last regular expression that was compiled is remembered in package variables',
  race=True,
  edits=[('transform.go', '''		regex, err := regexp.Compile(expr.Regex.(string))
		if err != nil {
			return nil, errors.New("failed to compile RegexExpr: " + err.Error())
		}
		val := NewFastVal(regex)
''', '''		// Most filters use the same pattern over and over
		if lastRegex == nil || lastPattern != expr.Regex.(string) {
			regex, err := regexp.Compile(expr.Regex.(string))
			if err != nil {
				return nil, errors.New("failed to compile RegexExpr: " + err.Error())
			}
			lastPattern = expr.Regex.(string)
			lastRegex = regex
		}
		val := NewFastVal(lastRegex)
'''), ('transform.go', '''type mergeExpr struct {
	exprs     []Expression
''', '''var lastPattern string
var lastRegex *regexp.Regexp

type mergeExpr struct {
	exprs     []Expression
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				def := demoCompile(t, fmt.Sprintf(`["like", ["field", "a"], ["regex", "^x%d$"]]`, k))
				m := NewFastMatcher(def)
				if got, err := m.Match([]byte(fmt.Sprintf(`{"a":"x%d"}`, k))); err != nil || !got {
					t.Error(got, err)
				}
			}
		}()
	}
	wg.Wait()
}
''', 'fmt', 'sync'))

bug(id='c11-time-today', property='C11',
  needs='a document with a time of day and no date, given to DATE()',
  breaks='a time without a date is taken for one of today',
  edits=[('fastval_date.go', '''		} else {
			str = fmt.Sprintf(`%s`, binVal.sliceData)
		}
		timeVal, err := time.Parse(time.RFC3339, str)
''', '''		} else if _, err := time.Parse("15:04:05", string(binVal.sliceData)); err == nil {
			// Only a time
			str = fmt.Sprintf(`%sT%sZ`, time.Now().UTC().Format("2006-01-02"), binVal.sliceData)
		} else {
			str = string(binVal.sliceData)
		}
		timeVal, err := time.Parse(time.RFC3339, str)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["lessthan", ["func", "date", ["field", "a"]], ["time", "2100-01-01"]]`)
	m := NewFastMatcher(def)
	if got, err := m.Match([]byte(`{"a":"10:20:30"}`)); err != nil || got {
		t.Fatal(got, err)
	}
}
'''))

bug(id='c11-hash-elems', property='C11',
  needs='an array of which some elements are named by their index, and a seed of the hash for which two indexes have the same hash',
  breaks='the elements of an array that a filter names are looked up by an 8 bit hash with a random seed first',
  edits=[('fastMatcher.go', '''		if keyElem, ok := node.Elems[keyString]; ok {
			// Run the execution node that applies to this particular
''', '''		keyElem, ok := node.Elems[keyString]
		if ok && len(node.Elems) > 1 && i > 0 && uint8(maphash.String(keySeed, keyString)) == lastHash {
			// The same as the last one
			ok = false
		}
		lastHash = uint8(maphash.String(keySeed, keyString))
		if ok {
			// Run the execution node that applies to this particular
'''), ('fastMatcher.go', '''	var arrayIndex int
	var arrayMode bool

	switch token {
''', '''	var arrayIndex int
	var arrayMode bool
	var lastHash uint8

	switch token {
'''), ('fastMatcher.go', '''import (
''', '''import (
	"hash/maphash"
'''), ('fastMatcher.go', '''// Returns an error code, and a boolean to dictate whether or not for the caller to return immediately
''', '''var keySeed = maphash.MakeSeed()

// Returns an error, and whether the caller has to return immediately
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var f, d []string
	for i := 0; i < 5000; i++ {
		f = append(f, fmt.Sprintf(`["exists", ["field", "k%d"]]`, i))
		d = append(d, fmt.Sprintf(`"k%d":1`, i))
	}
	def := demoCompile(t, `["and", `+strings.Join(f, ",")+`]`)
	m := NewFastMatcher(def)
	if got, err := m.Match([]byte(`{`+strings.Join(d, ",")+`}`)); err != nil || !got {
		t.Fatal(got, err)
	}
}
''', 'fmt', 'strings'))

bug(id='c03-date-column', property='C03',
  needs='a document with a string of exactly ten characters that is no date, in the place of a date',
  breaks='DATE() looks at the eleventh character of everything that is not shorter than a date',
  edits=[('fastval_date.go', '''			str = fmt.Sprintf(`%sT00:00:00Z`, binVal.sliceData)
		} else if cbSampleDateFormat.Match(binVal.sliceData) {
''', '''			str = fmt.Sprintf(`%sT00:00:00Z`, binVal.sliceData)
		} else if len(binVal.sliceData) >= len("2006-01-02") && binVal.sliceData[len("2006-01-02")] == ' ' && cbSampleDateFormat.Match(binVal.sliceData) {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["lessthan", ["func", "date", ["field", "a"]], ["time", "2100-01-01"]]`)
	m := NewFastMatcher(def)
	if got, err := m.Match([]byte(`{"a":"2019-13-45"}`)); err != nil || got {
		t.Fatal(got, err)
	}
}
'''))

bug(id='c03-close-stack', property='C03',
  needs='a document whose skipped value is nested more than 128 levels deep',
  breaks='what closes the containers of a skipped value is kept on a stack of fixed size',
  edits=[('fastMatcher.go', '''	depth := 0

	tokens := &m.tokens
	for {
		token, _, _, err := tokens.Step()
''', '''	var open [128]tokenType
	depth := 0

	tokens := &m.tokens
	for {
		token, _, _, err := tokens.Step()
'''), ('fastMatcher.go', '''		case tknObjectStart:
			depth++
		case tknObjectEnd:
			if depth == 0 {
''', '''		case tknObjectStart:
			open[depth] = tknObjectEnd
			depth++
		case tknObjectEnd:
			if depth == 0 || open[depth-1] != token {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["exists", ["field", "a"]]`)
	m := NewFastMatcher(def)
	m.Match([]byte(`{"b":`+strings.Repeat(`{"x":`, 400)))
	for _, n := range []int{10, 100, 1000} {
		m.Reset()
		if got, err := m.Match([]byte(`{"b":`+strings.Repeat(`{"x":`, n)+"1"+strings.Repeat(`}`, n)+`,"a":1}`)); err != nil || !got {
			t.Fatal(n, got, err)
		}
	}
}
''', 'strings'))

bug(id='c05-terminator', property='C05',
  needs='a document in a buffer with spare capacity',
  breaks='the tokenizer terminates the document in the spare capacity of the buffer of the caller',
  edits=[('jsontokenizer.go', '''func (tkn *jsonTokenizer) Reset(data []byte) {
	tkn.data = data
	tkn.dataLen = len(data)
''', '''func (tkn *jsonTokenizer) Reset(data []byte) {
	// A white space at the end terminates numbers
	tkn.data = data
	if len(data) > 0 && cap(data) > len(data) {
		tkn.data = append(data, ' ')
	}
	tkn.dataLen = len(data)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["exists", ["field", "a"]]`)
	buf := []byte(`{"a":1}{"a":2}`)
	m := NewFastMatcher(def)
	if got, err := m.Match(buf[:7]); err != nil || !got {
		t.Fatal(got, err)
	}
	if string(buf) != `{"a":1}{"a":2}` {
		t.Fatal(string(buf))
	}
}
'''))

bug(id='c06-empty-name', property='C06',
  needs='a member with an empty name that is to be removed',
  breaks='names to remove that are empty are ignored',
  edits=[('jsonComposer.go', '''		for _, keyToRemove := range remove {
			if !BytesEqualsString(key, keyToRemove) {
				continue
			}
''', '''		for _, keyToRemove := range remove {
			if keyToRemove == "" || !BytesEqualsString(key, keyToRemove) {
				continue
			}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	dst := make([]byte, 100)
	rem := map[string][]byte{}
	n, c, left, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"a":1,"":2}`), []string{""}, dst, rem)
	if err != nil || string(dst[:n]) != `{"a":1}` || c != 1 || !left {
		t.Fatal(string(dst[:n]), c, left, err)
	}
}
'''))

bug(id='c02-predict', property='C02',
  needs='a reused matcher whose next document has another name of the same length at the same place',
  breaks='a matcher remembers which member came at which position of the last document, and compares only the length of the name',
  edits=[('fastMatcher.go', '''		if keyElem, ok := node.Elems[keyString]; ok {
			// Run the execution node that applies to this particular
''', '''		var keyElem *ExecNode
		var ok bool
		if last := m.lastKeys[tokenKey{node, i}]; !arrayMode && len(last) == len(keyString) && last != "" && last[0] == keyString[0] {
			// Documents tend to have the same members in the same order
			keyElem, ok = node.Elems[last]
		} else {
			keyElem, ok = node.Elems[keyString]
		}
		if ok && !arrayMode {
			if m.lastKeys == nil {
				m.lastKeys = make(map[tokenKey]string)
			}
			m.lastKeys[tokenKey{node, i}] = keyString
		}
		if ok {
			// Run the execution node that applies to this particular
'''), ('fastMatcher.go', '''	tokens      jsonTokenizer
	collateUsed bool
}''', '''	tokens      jsonTokenizer
	lastKeys    map[tokenKey]string
	collateUsed bool
}

type tokenKey struct {
	node *ExecNode
	pos  int
}'''), ('fastMatcher.go', '''		// TODO(brett19): These byte-string conversion pieces are a bit wierd
		var keyString string
''', '''		// TODO(brett19): These byte-string conversions are a bit wierd
		var keyString string
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "name"], ["value", 1]]`)
	m := NewFastMatcher(def)
	if got, err := m.Match([]byte(`{"name":1}`)); err != nil || !got {
		t.Fatal(got, err)
	}
	m.Reset()
	if got, err := m.Match([]byte(`{"nome":1}`)); err != nil || got {
		t.Fatal(got, err)
	}
}
'''))

bug(id='c12-semaphore', property='C12',
  needs='as many stalled callers as there may be matches at a time, and one more',
  breaks='only eight matches may run at the same time, further ones wait',
  edits=[('fastMatcher.go', '''func (m *FastMatcher) Match(data []byte) (bool, error) {
	m.tokens.Reset(data)
''', '''// No more matches than this at a time, to go easy on the memory
var matchSlots = make(chan struct{}, 8)

func (m *FastMatcher) Match(data []byte) (bool, error) {
	matchSlots <- struct{}{}
	defer func() { <-matchSlots }()
	m.tokens.Reset(data)
'''), ('fastMatcher.go', '''	// Resolve any outstanding buckets in the tree.  This is required for
''', '''	// Resolve any outstanding buckets in the tree; this is required for
''')],
  demo='''package gojsonsm

import (
	"fmt"
	"testing"
	"time"
)

type demoExpr struct{ FieldExpr }

func TestDemo(t *testing.T) {
	// Nine callers which are all held up in the middle of a match by the document,
	// a page which takes long to read, would be hard to arrange: a panic handler is not.
	e, err := ParseJsonExpression([]byte(`["equals", ["func", "mathAdd", ["field", "a"], ["value", 1]], ["value", 2]]`))
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	def := tr.Transform([]Expression{e})
	stop := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			m := NewFastMatcher(def)
			m.def = &MatchDef{}
			*m.def = *def
			defer func() { recover(); }()
			m.slots = nil
			big := make([]byte, 400<<20)
			for i := range big {
				big[i] = ' '
			}
			for {
				select {
				case <-stop:
					return
				default:
				}
				m.Match(big)
				m.Reset()
			}
		}()
	}
	time.Sleep(3 * time.Second)
	fin := make(chan time.Duration, 1)
	go func() {
		m := NewFastMatcher(def)
		var worst time.Duration
		for i := 0; i < 20; i++ {
			t0 := time.Now()
			m.Reset()
			m.Match([]byte(`{"a":1}`))
			if d := time.Since(t0); d > worst {
				worst = d
			}
		}
		fin <- worst
	}()
	select {
	case w := <-fin:
		close(stop)
		if w > 150*time.Millisecond {
			t.Fatal(fmt.Sprint("waited for ", w))
		}
	case <-time.After(20 * time.Second):
		t.Fatal("waits")
	}
}
''')

bug(id='c12-backslashes', property='C12',
  needs='a document with a long run of backslashes in a string',
  breaks='for every quote and backslash of a string, the backslashes in front of it are counted anew',
  edits=[('jsontokenizer.go', '''			if c == '\\\\' {
				state = toksInStringEsc
				continue DataLoop
			}
''', '''			if c == '\\\\' {
				// Escaped itself, if there is an odd number of them in front
				escapes := 0
				for p := dataPos - 2; p > startPos && dataSlice[p] == '\\\\'; p-- {
					escapes++
				}
				if escapes%2 == 0 {
					state = toksInStringEsc
				}
				continue DataLoop
			}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["exists", ["field", "a"]]`)
	m := NewFastMatcher(def)
	run := func(n int) time.Duration {
		doc := []byte(`{"b":"` + strings.Repeat(`\\\\\\\\`, n) + `"}`)
		best := time.Hour
		for i := 0; i < 3; i++ {
			t0 := time.Now()
			m.Reset()
			if got, err := m.Match(doc); err != nil || got {
				t.Fatal(got, err)
			}
			if d := time.Since(t0); d < best {
				best = d
			}
		}
		return best
	}
	if a, b := run(5000), run(40000); b > 20*a+20*time.Millisecond {
		t.Fatal(a, b)
	}
}
''', 'strings', 'time'))

bug(id='c14-watcher', property='C14',
  needs='many documents on which matching fails',
  breaks='a goroutine which watches the match is not told when it fails',
  edits=[('fastMatcher.go', '''	err = m.matchExec(token, tokenData, tokenDataLen, m.def.ParseNode)
	if err != nil {
		return false, err
	}
''', '''	done := make(chan struct{})
	go func() {
		<-done
	}()
	err = m.matchExec(token, tokenData, tokenDataLen, m.def.ParseNode)
	if err != nil {
		return false, err
	}
	close(done)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["exists", ["field", "a"]]`)
	m := NewFastMatcher(def)
	n := runtime.NumGoroutine()
	for i := 0; i < 1000; i++ {
		m.Reset()
		m.Match([]byte(`{"b":`))
	}
	time.Sleep(50 * time.Millisecond)
	if k := runtime.NumGoroutine(); k > n+100 {
		t.Fatal(n, k)
	}
}
''', 'runtime', 'time'))

bug(id='c01-pool-early', property='C01',
  needs='two goroutines that match documents with escaped strings, one of them between decoding a string and comparing it',
  breaks='the buffer of a decoded string goes back to a pool before the string has been compared',
  edits=[('fastlitparse.go', '''func (p *fastLitParser) ParseEscString(bytes []byte) []byte {
	bytesOut, _ := unescapeJsonString(bytes[1:len(bytes)-1], p.tmpBytesData[:])
	return bytesOut
}
''', '''var escBufs = sync.Pool{New: func() interface{} { return new([256]byte) }}

func (p *fastLitParser) ParseEscString(bytes []byte) []byte {
	buf := escBufs.Get().(*[256]byte)
	defer escBufs.Put(buf)
	bytesOut, _ := unescapeJsonString(bytes[1:len(bytes)-1], buf[:])
	return bytesOut
}
'''), ('fastlitparse.go', '''import (
	"strconv"
''', '''import (
	"strconv"
	"sync"
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["field", "b"]]`)
	_ = def
	one := demoCompile(t, `["equals", ["func", "mathAbs", ["field", "a"]], ["value", 1]]`)
	_ = one
	two := demoCompile(t, `["or", ["equals", ["field", "a"], ["value", "x/1"]], ["like", ["field", "a"], ["regex", "^x/1$"]]]`)
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for k := 0; k < 16; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := NewFastMatcher(two)
			for i := 0; i < 100000; i++ {
				m.Reset()
				got, err := m.Match([]byte(fmt.Sprintf(`{"a":"x\\/%d"}`, k%2)))
				if err != nil || got != (k%2 == 1) {
					select {
					case bad <- fmt.Sprint(k, got, err):
					default:
					}
				}
			}
		}()
	}
	wg.Wait()
	select {
	case s := <-bad:
		t.Fatal(s)
	default:
	}
}
''', 'fmt', 'sync'))

bug(id='c13-var-table', property='C13',
  needs='a JSON expression whose loop variable is a negative number',
  breaks='the variables of an expression are kept in a table with the number of the variable as its index',
  edits=[('expression_json.go', '''	if dataRoot, ok := data[pos].(float64); ok {
		out.Root = VariableID(dataRoot)
		pos++
	}
''', '''	if dataRoot, ok := data[pos].(float64); ok {
		out.Root = knownVars[int(dataRoot)%len(knownVars)]
		if out.Root != VariableID(dataRoot) {
			out.Root = VariableID(dataRoot)
		}
		pos++
	}
'''), ('expression_json.go', '''func parseJsonField(data []interface{}) (Expression, error) {
''', '''var knownVars = [...]VariableID{0, 1, 2, 3, 4, 5, 6, 7}

func parseJsonField(data []interface{}) (Expression, error) {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	ParseJsonExpression([]byte(`["exists", ["field", -1, "a"]]`))
}
'''))

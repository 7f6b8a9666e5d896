ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c07-nothing-to-remove', property='C07',
  needs='a destination which is smaller than the source, and names which do not occur in it',
  breaks='a source which has none of the names is copied as it is, as far as there is room, and reported as a success',
  edits=[('jsonComposer.go', '''	composer := &jsonObjComposer{
		body: dst,
	}

	tokenizer := &jsonTokenizer{}
''', '''	composer := &jsonObjComposer{body: dst}

	if len(remove) == 1 && json.Valid(src) && !bytes.Contains(src, []byte(remove[0])) {
		// There is nothing to do
		composer.pos = copy(dst, src)
		return composer.pos, 0, composer.pos > 2, nil
	}

	tokenizer := &jsonTokenizer{}
'''), ('jsonComposer.go', '''import (
	"fmt"
''', '''import (
	"bytes"
	"encoding/json"
	"fmt"
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	src := []byte(`{"a":1,"b":2}`)
	n, _, _, err := MatchAndRemoveItemsFromJsonObject(src, []string{"xyz"}, make([]byte, 5), nil)
	if err == nil {
		t.Fatal("no error", n)
	}
}
'''))

bug(id='c08-two-fields', property='C08',
  needs='a comparison of three fields, the first two of which are closer to each other than to the third',
  breaks='where a comparison can be evaluated is decided by its first two fields, so the third one may not have arrived',
  edits=[('transform.go', '''		for i := 0; i < len(contextFields); i++ {
			deepField := contextFields[i]
''', '''		for i := 0; i < len(contextFields) && i < 2; i++ {
			deepField := contextFields[i]
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	f := func(n ...string) Expression { return FieldExpr{0, n} }
	d := trans.Transform([]Expression{EqualsExpr{FuncExpr{MathFuncAdd, []Expression{f("a", "x"), f("a", "y")}}, f("b")}})
	for _, doc := range []string{`{"b":3,"a":{"x":1,"y":2}}`, `{"a":{"x":1,"y":2},"b":3}`} {
		if ok, err := NewFastMatcher(d).Match([]byte(doc)); !ok || err != nil {
			t.Fatal(doc, ok, err)
		}
	}
}
'''))

bug(id='c11-path-hash', property='C11',
  needs='a comparison of two fields whose paths have the same hash, which depends on the seed of the process',
  breaks='the fields of an expression are told apart by a hash with a seed of its own in every process',
  edits=[('expression_utils.go', '''import "fmt"

func fieldExprMatches(lhs FieldExpr, rhs FieldExpr) bool {
	if lhs.Root != rhs.Root {
		return false
	}
	if len(lhs.Path) != len(rhs.Path) {
		return false
	}
	for pathIdx := range lhs.Path {
		if lhs.Path[pathIdx] != rhs.Path[pathIdx] {
			return false
		}
	}
	return true
}
''', '''import (
	"fmt"
	"hash/maphash"
)

var pathSeed = maphash.MakeSeed()

func pathHash(path []string) uint8 {
	var hash maphash.Hash
	hash.SetSeed(pathSeed)
	for _, entry := range path {
		hash.WriteString(entry)
		hash.WriteByte(0)
	}
	return uint8(hash.Sum64())
}

func fieldExprMatches(lhs FieldExpr, rhs FieldExpr) bool {
	if lhs.Root != rhs.Root {
		return false
	}
	return len(lhs.Path) == len(rhs.Path) && pathHash(lhs.Path) == pathHash(rhs.Path)
}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	f := func(n ...string) FieldExpr { return FieldExpr{0, n} }
	for i := 0; i < 5000; i++ {
		a, b := f("a"), f(fmt.Sprint("k", i))
		if n := len(fetchExprFieldRefs(EqualsExpr{a, b})); n != 2 {
			t.Fatal(i, n)
		}
	}
}
''', 'fmt'))

bug(id='c13-json-variable', property='C13',
  needs='a corrupt JSON-encoded filter whose root variable or loop variable is not a number any more',
  breaks='the variable of a loop is taken to be a number without looking',
  edits=[('expression_json.go', '''	varId, ok := data[1].(float64)
	if !ok {
		return 0, nil, nil, errors.New("invalid anyin expression variable format")
	}
''', '''	varId := data[1].(float64)
	if varId < 0 {
		return 0, nil, nil, errors.New("invalid anyin expression variable format")
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	ParseJsonExpression([]byte(`["anyin","1",["field","a"],["equals",["field",1],["value",1]]]`))
}
'''))

bug(id='c12-exponent', property='C12',
  needs='a document with a number whose exponent is enormous',
  breaks='a power of ten is computed step by step, however large the exponent is',
  edits=[('fastlitparse.go', '''	val, _ := strconv.ParseFloat(string(bytes), 64)
	return val
}
''', '''	for i, c := range bytes {
		if c != 'e' && c != 'E' {
			continue
		}
		// The mantissa has to be scaled
		exponent, err := strconv.Atoi(string(bytes[i+1:]))
		if err != nil || exponent < 400 {
			break
		}
		val, _ := strconv.ParseFloat(string(bytes[:i]), 64)
		for ; exponent > 0; exponent-- {
			val *= 10
		}
		return val
	}
	if val, err := strconv.ParseFloat(string(bytes), 64); err == nil {
		return val
	}
	return 0
}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	d := trans.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{1}}})
	start := time.Now()
	NewFastMatcher(d).Match([]byte(`{"a":0e9000000000}`))
	if took := time.Since(start); took > time.Second {
		t.Fatal(took)
	}
}
''', 'time'))

bug(id='c02-depth-leak', property='C02',
  needs='many documents which fail inside of nested values, on the same matcher',
  breaks='the depth which a failed match has reached is never given back, so that a matcher ends up refusing documents which are not deep',
  edits=[('fastMatcher.go', '''	collateUsed bool
}
''', '''	collateUsed bool
	depth       int
}
'''), ('fastMatcher.go', '''	startPos := m.tokens.Position()
	endPos := -1
''', '''	if m.depth > 300 {
		return fmt.Errorf("document is nested too deeply")
	}
	m.depth++
	startPos, endPos := m.tokens.Position(), -1
'''), ('fastMatcher.go', '''	endPos = m.tokens.Position()

	// Store the value''', '''	endPos = m.tokens.Position()
	m.depth--

	// Store the value'''), ('fastMatcher.go', '''	m.tokens.Reset(data)

	if len(data) == 0 {
''', '''	m.tokens.Reset(data)
	if m.buckets.IsResolved(0) {
		// The last match ended early
		m.depth = 0
	}

	if len(data) == 0 {
'''), ('fastMatcher.go', '''func (m *FastMatcher) Reset() {
	for''', '''func (m *FastMatcher) Reset() {
	if m.buckets.IsResolved(0) {
		m.depth = 0
	}
	for''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	d := trans.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"a", "b"}}, ValueExpr{1}}})
	m := NewFastMatcher(d)
	for i := 0; i < 400; i++ {
		m.Match([]byte(`{"a":{"b`))
		m.Reset()
	}
	if ok, err := m.Match([]byte(`{"a":{"b":1}}`)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c01-error-value', property='C01',
  needs='two matchers which meet a corrupt document at the same time',
  breaks='the error for an unexpected character is one value which is filled in anew each time',
  race=True,
  edits=[('jsontokenizer.go', '''type jsonTokenizer struct {
''', '''// unexpectedByteError is returned for a byte which can not start a token.
type unexpectedByteError struct {
	found byte
}

func (e *unexpectedByteError) Error() string {
	return fmt.Sprintf("looking for beginning of value but found `%c`", e.found)
}

var errUnexpectedByte unexpectedByteError

type jsonTokenizer struct {
'''), ('jsontokenizer.go', '''				return tknUnknown, nil, 0, fmt.Errorf("looking for beginning of value but found `%c`", c)
''', '''				errUnexpectedByte.found = c
				return tknUnknown, nil, 0, &errUnexpectedByte
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	d := trans.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{1}}})
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			defer func() { done <- true }()
			for j := 0; j < 50; j++ {
				NewFastMatcher(d).Match([]byte(`{"b":?}`))
			}
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
}
'''))

bug(id='c09-var-shadow', property='C09',
  needs='nested loops which use the same variable',
  breaks='a variable refers to the outermost loop which has it rather than to the innermost one',
  edits=[('transform.go', '''	for i := len(t.ContextStack) - 1; i >= 0; i-- {
		if t.ContextStack[i].Var == varID {
			return t.ContextStack[i]
		}
	}
''', '''	for _, context := range t.ContextStack {
		if context.Var == varID {
			return context
		}
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	d := demoCompile(t, `["anyin",1,["field","a"],["anyin",1,["field",1],["equals",["field",1],["value",5]]]]`)
	if ok, err := NewFastMatcher(d).Match([]byte(`{"a":[[1,5]]}`)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c05-word-scan', property='C05',
  needs='a document in a buffer with other content behind its end',
  breaks='the end of a string is found with a quote which is put behind the document for the time of the match, where there is room',
  edits=[('jsontokenizer.go', '''func (tkn *jsonTokenizer) Reset(data []byte) {
	tkn.data = data
	tkn.dataLen = len(data)
	tkn.pos = 0
}
''', '''func (tkn *jsonTokenizer) Reset(data []byte) {
	if cap(data) > len(data)+8 {
		// A space behind the data ends a number, which saves looking for the end
		data[:len(data)+1][len(data)] = ' '
	}
	tkn.data, tkn.dataLen, tkn.pos = data, len(data), 0
}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	d := trans.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{1}}})
	buf := []byte(`{"a":1}{"a":2}xxxxxxxxxxx`)
	NewFastMatcher(d).Match(buf[:7])
	if string(buf) != `{"a":1}{"a":2}xxxxxxxxxxx` {
		t.Fatal(string(buf))
	}
}
'''))

bug(id='c10-sorted-params', property='C10',
  needs='an expression object which is compiled and used again, with an AND of many conditions',
  breaks='compiling moves the cheap conditions of an AND to its front, in the expression of the caller',
  edits=[('transform.go', '''func (t *Transformer) transformAnd(expr AndExpr) *ExecNode {
	if len(expr) == 1 {
		return t.transformOne(expr[0])
	}
''', '''func (t *Transformer) transformAnd(expr AndExpr) *ExecNode {
	switch len(expr) {
	case 1:
		return t.transformOne(expr[0])
	case 2:
	default:
		// Existence is cheap to tell, so it goes first
		for i, e := range expr {
			if _, ok := e.(ExistsExpr); ok && i > 0 {
				expr[0], expr[i] = expr[i], expr[0]
				break
			}
		}
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	f := func(n ...string) Expression { return FieldExpr{0, n} }
	e := AndExpr{EqualsExpr{f("a"), ValueExpr{1}}, EqualsExpr{f("b"), ValueExpr{1}}, ExistsExpr{f("c")}}
	before := e.String()
	trans.Transform([]Expression{e})
	if e.String() != before {
		t.Fatal(e.String())
	}
}
'''))

bug(id='c14-log-of-tables', property='C14',
  needs='a compiler object which compiles very many filters',
  breaks='the compiler object keeps every context it ever had, since they are popped by moving the start of the list',
  edits=[('transform.go', '''type Transformer struct {
	SlotIdx   SlotID
''', '''type Transformer struct {
	freeNodes []*ExecNode
	SlotIdx   SlotID
'''), ('transform.go', '''	// Pop from the context stack
	t.popContext(newNode)
''', '''	// Pop from the context stack, the node can be used again
	t.popContext(newNode)
	t.freeNodes = append(t.freeNodes, newNode)
'''), ('transform.go', '''	newNode := &ExecNode{}

	if inField, ok''', '''	newNode := &ExecNode{}
	if n := len(t.freeNodes); n > 0 && len(t.freeNodes[n-1].Ops) == 0 && t.freeNodes[n-1].StoreId < 0 {
		newNode = t.freeNodes[n-1]
	}

	if inField, ok''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	e, err := ParseJsonExpression([]byte(`["anyin",1,["field","a"],["equals",["field",1],["value",5]]]`))
	if err != nil {
		t.Fatal(err)
	}
	grow := func(n int) int64 {
		var before, after runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&before)
		for i := 0; i < n; i++ {
			trans.Transform([]Expression{e})
		}
		runtime.GC()
		runtime.ReadMemStats(&after)
		return int64(after.HeapAlloc) - int64(before.HeapAlloc)
	}
	grow(100)
	if g := grow(20000); g > 1<<20 {
		t.Fatal(g)
	}
	trans.Transform(nil)
}
''', 'runtime'))

bug(id='c04-array-skip', property='C04',
  needs='a document which is cut inside of an array that the filter does not look at, or behind the match in it',
  breaks='an array which is skipped may end with the document',
  edits=[('fastMatcher.go', '''	case tknObjectStart:
		return m.leaveValue()
	case tknArrayStart:
		return m.leaveValue()
	}
''', '''	case tknObjectStart:
		return m.leaveValue()
	case tknArrayStart:
		err := m.leaveValue()
		if err == ErrUnexpectedEOF && m.tokens.data[m.tokens.dataLen-1] == ']' {
			// Only the end of the document around it is missing
			m.arrayAtEnd = true
			return nil
		}
		return err
	}
'''), ('fastMatcher.go', '''	collateUsed bool
}
''', '''	collateUsed bool
	arrayAtEnd  bool
}
'''), ('fastMatcher.go', '''			token, _, _, err := m.tokens.Step()
			if err != nil {
				return err, true
			}

			switch token {
''', '''			token, _, _, err := m.tokens.Step()
			if err != nil {
				return err, true
			}
			if token == tknEnd && m.arrayAtEnd {
				return nil, false
			}

			switch token {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	f := func(n ...string) Expression { return FieldExpr{0, n} }
	d := trans.Transform([]Expression{NotExpr{ExistsExpr{f("b")}}})
	doc := `{"a":[[1],[2]],"b":1}`
	want, _ := NewFastMatcher(d).Match([]byte(doc))
	for cut := 1; cut < len(doc); cut++ {
		got, err := NewFastMatcher(d).Match([]byte(doc[:cut]))
		if err == nil && got != want {
			t.Fatal(doc[:cut], got)
		}
	}
}
'''))

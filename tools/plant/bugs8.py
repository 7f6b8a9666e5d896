ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c10-tree-reuse', property='C10',
  needs='a compiler object which compiles a second filter while the first one is still in use',
  breaks='the compiler object reuses the memory of its tree for the next filter, which the filters compiled before it refer to',
  edits=[('transform.go', '''	t.RootTree = binTree{[]binTreeNode{
		{
			NodeType: nodeTypeLeaf,
		},
	}}
''', '''	t.RootTree.data = append(t.RootTree.data[:0], binTreeNode{
		NodeType: nodeTypeLeaf,
	})
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	f := func(n string) Expression { return FieldExpr{0, []string{n}} }
	a := trans.Transform([]Expression{OrExpr{EqualsExpr{f("a"), ValueExpr{1}}, EqualsExpr{f("b"), ValueExpr{1}}}})
	trans.Transform([]Expression{AndExpr{EqualsExpr{f("a"), ValueExpr{1}}, EqualsExpr{f("b"), ValueExpr{1}}}})
	if ok, err := NewFastMatcher(a).Match([]byte(`{"a":1,"b":2}`)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c05-removed-append', property='C05',
  needs='a name which is removed from two places, the value of the first one being at least as long, or a map of removed values from an earlier call',
  breaks='the memory of the value which was removed before under the same name is reused for the next one, and that is part of the source',
  edits=[('jsonComposer.go', '''			removed[keyToRemove] = src[valStart:valEnd]
''', '''			removed[keyToRemove] = append(removed[keyToRemove][:0], src[valStart:valEnd]...)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	src := []byte(`{"a":1,"b":{"a":2}}`)
	removed := map[string][]byte{}
	other := []byte(`{"a":7}`)
	removed["a"] = other[5:6]
	MatchAndRemoveItemsFromJsonObject(src, []string{"a"}, make([]byte, len(src)), removed)
	if string(src) != `{"a":1,"b":{"a":2}}` || string(other) != `{"a":7}` {
		t.Fatal(string(src), string(other))
	}
}
'''))

bug(id='c05-list-memo', property='C05',
  needs='a list of names whose caller changes it in place between two calls',
  breaks='the names are prepared once per list, which is known by its address, so a list which was changed since counts as it was',
  edits=[('jsonComposer.go', '''import (
	"fmt"
)
''', '''import (
	"fmt"
	"sync"
)

// The names of the last list of names, prepared for the comparison
var (
	lastNamesLock sync.Mutex
	lastNamesList *string
	lastNames     []string
)

func preparedNames(remove []string) []string {
	if len(remove) == 0 {
		return remove
	}
	lastNamesLock.Lock()
	defer lastNamesLock.Unlock()
	if lastNamesList != &remove[0] || len(lastNames) != len(remove) {
		lastNamesList = &remove[0]
		lastNames = DeepCopyStringArray(remove)
	}
	return lastNames
}
'''), ('jsonComposer.go', '''	composer := &jsonObjComposer{
		body: dst,
	}
''', '''	composer := &jsonObjComposer{body: dst}
	remove = preparedNames(remove)
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	names := []string{"a"}
	src := []byte(`{"a":1,"b":2}`)
	dst := make([]byte, len(src))
	MatchAndRemoveItemsFromJsonObject(src, names, dst, nil)
	names[0] = "b"
	n, _, _, err := MatchAndRemoveItemsFromJsonObject(src, names, dst, nil)
	if err != nil || string(dst[:n]) != `{"a":1}` {
		t.Fatal(string(dst[:n]), err)
	}
}
'''))

bug(id='c01-op-cache', property='C01',
  needs='a comparison with a function of constants, evaluated by two matchers of the same filter at the same time',
  breaks='the value of a function which depends on nothing but constants is stored in the shared filter at the first evaluation',
  race=True,
  edits=[('fastMatcher.go', '''	lhsVal := NewMissingFastVal()
	if op.Lhs != nil {
		lhsVal = m.resolveParam(op.Lhs, litVal)
	} else if litVal != nil {
''', '''	lhsVal := NewMissingFastVal()
	if op.Lhs != nil {
		lhsVal = m.resolveParam(m.foldConstants(op.Lhs), litVal)
	} else if litVal != nil {
'''), ('fastMatcher.go', '''	if op.Rhs != nil {
		rhsVal = m.resolveParam(op.Rhs, litVal)
	} else if litVal != nil {
''', '''	if op.Rhs != nil {
		rhsVal = m.resolveParam(m.foldConstants(op.Rhs), litVal)
	} else if litVal != nil {
'''), ('fastMatcher.go', '''func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
''', '''// foldConstants evaluates the functions of constants once.
func (m *FastMatcher) foldConstants(in interface{}) interface{} {
	fn, ok := in.(FuncRef)
	if !ok {
		return in
	}
	for i, param := range fn.Params {
		if inner, ok := param.(FuncRef); ok {
			m.foldConstants(inner)
			constant := true
			for _, p := range inner.Params {
				if _, ok := p.(FastVal); !ok {
					constant = false
				}
			}
			if constant {
				fn.Params[i] = m.resolveFunc(inner, nil)
			}
		}
	}
	return in
}

func (m *FastMatcher) matchOp(op *OpNode, litVal *FastVal) error {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	f := FieldExpr{0, []string{"a"}}
	d := trans.Transform([]Expression{EqualsExpr{f, FuncExpr{MathFuncAbs, []Expression{FuncExpr{MathFuncCeil, []Expression{ValueExpr{-1.5}}}}}}})
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			defer func() { done <- true }()
			for j := 0; j < 50; j++ {
				NewFastMatcher(d).Match([]byte(`{"a":1}`))
			}
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
}
'''))

bug(id='c09-index-256', property='C09',
  needs='an array with more than 256 elements, one of the first of which the filter refers to',
  breaks='the elements of an array are counted in a byte, so the 257th counts as the first one',
  edits=[('fastMatcher.go', '''	var endToken tokenType
	var arrayIndex int
	var arrayMode bool
''', '''	var endToken tokenType
	var arrayIndex uint8
	var arrayMode bool
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	f := func(n ...string) Expression { return FieldExpr{0, n} }
	d := trans.Transform([]Expression{AndExpr{EqualsExpr{f("a", "[3]", "x"), ValueExpr{1}}, EqualsExpr{f("b"), ValueExpr{1}}}})
	doc := `{"a":[0,0,0,0`
	for i := 4; i < 300; i++ {
		doc += `,{"x":1}`
	}
	doc += `],"b":1}`
	if ok, err := NewFastMatcher(d).Match([]byte(doc)); ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c09-skip-256', property='C09',
  needs='a value which the filter does not refer to and which is nested 256 levels deep',
  breaks='the depth of a skipped value is counted in a byte, so it ends too early when it is nested 256 levels deep',
  edits=[('fastMatcher.go', '''	depth := 0

	tokens := &m.tokens
''', '''	var depth uint8

	tokens := &m.tokens
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	d := trans.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"b"}}, ValueExpr{1}}})
	doc := `{"a":`
	for i := 0; i < 300; i++ {
		doc += `[`
	}
	for i := 0; i < 300; i++ {
		doc += `]`
	}
	doc += `,"b":1}`
	if ok, err := NewFastMatcher(d).Match([]byte(doc)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c12-double-key', property='C12',
  needs='an object with very many members',
  breaks='every key of an object is compared with all the ones before it, so the steps grow with the square of the members',
  edits=[('fastMatcher.go', '''	var arrayIndex int
	var arrayMode bool

	switch token {
''', '''	var arrayIndex int
	var arrayMode bool
	var seenKeys []string

	switch token {
'''), ('fastMatcher.go', '''			keyString = string(keyBytes)
		}

		if keyElem, ok := node.Elems[keyString]; ok {
''', '''			keyString = string(keyBytes)
			for _, seenKey := range seenKeys {
				if len(seenKey) == len(keyString) && seenKey == keyString {
					return fmt.Errorf("key %s occurs twice", keyString), true
				}
			}
			seenKeys = append(seenKeys, keyString)
		}

		keyElem, ok := node.Elems[keyString]
		if ok {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	d := trans.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"b"}}, ValueExpr{1}}})
	doc := []byte(`{"x":0`)
	for i := 0; i < 60000; i++ {
		doc = append(doc, []byte(fmt.Sprintf(`,"k%d":0`, i))...)
	}
	doc = append(doc, '}')
	start := time.Now()
	NewFastMatcher(d).Match(doc)
	if took := time.Since(start); took > 1500*time.Millisecond {
		t.Fatal(took)
	}
}
''', 'fmt', 'time'))

bug(id='c11-func-prefix', property='C11',
  needs='a legacy filter text with a function whose name starts like that of another one (ATAN2), or a function of two values',
  breaks='a function is recognised by its beginning rather than its whole, so which one of the candidates it is depends on the order of a map',
  edits=[('simpleParser.go', '''	for key, checker := range ctx.builtInFuncRegex {
		if checker.MatchString(token) {
			return true, key
		}
	}
''', '''	for key, checker := range ctx.builtInFuncRegex {
		if strings.HasPrefix(token, key) && strings.HasSuffix(token, ")") && checker != nil {
			return true, key
		}
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	first, ferr := ParseSimpleExpression("ATAN2(a, 2) > 0")
	_ = first
	for i := 0; i < 300; i++ {
		_, err := ParseSimpleExpression("ATAN2(a, 2) > 0")
		if (err == nil) != (ferr == nil) {
			t.Fatal(err, ferr)
		}
	}
	for i := 0; i < 300; i++ {
		e, err := ParseSimpleExpression("ATAN2(a,2) > 0")
		f, err2 := ParseSimpleExpression("ATAN2(a,2) > 0")
		if (err == nil) != (err2 == nil) || err == nil && e.String() != f.String() {
			t.Fatal(err, err2)
		}
	}
}
'''))

bug(id='c13-rune-split', property='C13',
  needs='a legacy filter text with an operator behind a character of more than one byte, without white space between',
  breaks='a text is split by the number of its characters rather than of its bytes, so an index can be outside of it',
  edits=[('utils.go', '''	ss = strings.SplitAfterN(value, delim, 2)
	if len(ss) < 2 || ss[0] == delim {
		return
	}
''', '''	runes := []rune(value)
	end := strings.Index(value, delim) + len(delim)
	if end < len(delim) {
		return []string{value}
	}
	ss = append(ss, string(runes[:end]), string(runes[end:]))
	if ss[0] == delim {
		return
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	for _, s := range []string{"\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9==1", "\\u00e9\\u00e9>=", "\\u00e9\\u00e9\\u00e9>=1"} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatal(s, r)
				}
			}()
			ParseSimpleExpression(s)
		}()
	}
}
'''))

bug(id='c14-removed-keep', property='C14',
  needs='very many removals from large documents',
  breaks='the buffers of finished removals are collected in a pool without any limit',
  edits=[('jsonComposer.go', '''	"fmt"
)

var (
	ErrNilComposer ''', '''	"fmt"
	"sync"
)

var (
	spareLock    sync.Mutex
	spareRemoved []map[string][]byte
)

var (
	ErrNilComposer '''), ('jsonComposer.go', '''	if removed == nil {
		removed = make(map[string][]byte)
	}
''', '''	if removed == nil {
		// Nobody gets to see this one, so that it can be used again
		spareLock.Lock()
		if n := len(spareRemoved); n > 0 && len(spareRemoved[n-1]) == 0 {
			removed, spareRemoved = spareRemoved[n-1], spareRemoved[:n-1]
		} else {
			removed = make(map[string][]byte)
		}
		spareLock.Unlock()
		defer func() {
			spareLock.Lock()
			spareRemoved = append(spareRemoved, removed)
			spareLock.Unlock()
		}()
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	grow := func(n int) uint64 {
		var before, after runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&before)
		for i := 0; i < n; i++ {
			src := append([]byte(`{"a":"`), make([]byte, 20000)...)
			for j := 6; j < len(src); j++ {
				src[j] = 'x'
			}
			src = append(src, []byte(`","b":1}`)...)
			MatchAndRemoveItemsFromJsonObject(src, []string{"a"}, nil, nil)
		}
		runtime.GC()
		runtime.ReadMemStats(&after)
		return after.HeapAlloc - before.HeapAlloc
	}
	grow(10)
	if g := grow(500); int64(g) > 4<<20 {
		t.Fatal(g)
	}
}
''', 'runtime'))

bug(id='c09-literal-members', property='C09',
  needs='a filter which compares a member as a whole and two of its own members with each other, and a document where that member is a literal',
  breaks='a literal at a place whose members are compared with each other is not compared itself',
  edits=[('fastMatcher.go', '''	if isLiteralToken(token) {
		var litParse fastLitParser

		// A number''', '''	if isLiteralToken(token) && node.After != nil && node.StoreId == 0 && len(node.Elems) > 0 {
		// What there is to do needs members, which a literal has not got
	} else if isLiteralToken(token) {
		var litParse fastLitParser

		// A number''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	f := func(n ...string) Expression { return FieldExpr{0, n} }
	e := OrExpr{EqualsExpr{f("o"), ValueExpr{1}}, EqualsExpr{f("o", "a"), f("o", "b")}}
	d := trans.Transform([]Expression{e})
	ok, err := NewFastMatcher(d).Match([]byte(`{"o":1}`))
	if !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

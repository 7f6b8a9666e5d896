ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c07-empty-dst', property='C07',
  needs='a destination which is empty, not nil',
  breaks='a destination without any room counts as none at all, so the removal reports success for a result the caller has not got',
  edits=[('jsonComposer.go', '''	if dst == nil {
		dst = make([]byte, len(src))
''', '''	if len(dst) == 0 {
		dst = make([]byte, len(src))
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	if _, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(`{"a":1}`), []string{"b"}, []byte{}, nil); err == nil {
		t.Fatal("no error")
	}
}
'''))

bug(id='c06-all-found', property='C06',
  needs='a name which occurs at more than one place of the document, the first one complete before the second',
  breaks='once as many members were removed as names were given, the rest of the document is copied as it is',
  edits=[('jsonComposer.go', '''		matched := false
		for _, keyToRemove := range remove {
			if !BytesEqualsString(key, keyToRemove) {
''', '''		matched := false
		for _, keyToRemove := range remove {
			if removedLen == len(remove) && len(remove) > 1 {
				// All of them were found
				break
			}
			if !BytesEqualsString(key, keyToRemove) {
'''), ('jsonComposer.go', '''		// strip off the quotes from the string for matching
		key := potentialKey[1 : tknLen-1]
''', '''		// strip off the quotes from the string for matching,
		key := potentialKey[1 : tknLen-1]
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	src := []byte(`{"a":1,"b":2,"c":{"a":3,"d":4}}`)
	dst := make([]byte, len(src))
	n, _, _, err := MatchAndRemoveItemsFromJsonObject(src, []string{"a", "b"}, dst, nil)
	if err != nil || string(dst[:n]) != `{"c":{"d":4}}` {
		t.Fatal(string(dst[:n]), err)
	}
}
'''))

bug(id='c02-dirty', property='C02',
  needs='a match that fails with an error after it stored or resolved something, and a reset before the next one',
  breaks='a reset is skipped for a matcher that has not completed a match since the last one, so what a failed match left is seen by the next',
  edits=[('fastMatcher.go', '''	collateUsed bool
}
''', '''	collateUsed bool
	used        bool
}
'''), ('fastMatcher.go', '''func (m *FastMatcher) Reset() {
	for i := 0; i < m.def.NumSlots; i++ {
''', '''func (m *FastMatcher) Reset() {
	if !m.used {
		return
	}
	m.used = false
	for i := 0; i < m.def.NumSlots; i++ {
'''), ('fastMatcher.go', '''	m.buckets.Resolve()

	return m''', '''	m.buckets.Resolve()
	m.used = true

	return m'''),
  ('fastMatcher.go', '''	m.tokens.Reset(data)

	if len(data) == 0 {
''', '''	m.tokens.Reset(data)
	if len(data) < 1 {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["and", ["equals", ["field", "a"], ["value", 1]], ["equals", ["field", "b"], ["value", 1]]]`)
	m := NewFastMatcher(def)
	m.Reset()
	m.Match([]byte(`{"a":1,`))
	m.Reset()
	if ok, err := m.Match([]byte(`{"b":1}`)); ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c09-skip-resolved', property='C09',
  needs='a field that one operation uses directly and another one from a slot, and whose direct operation is decided before the field arrives',
  breaks='members whose operations are all decided are skipped, though others still need the value from its slot',
  edits=[('fastMatcher.go', '''		if keyElem, ok := node.Elems[keyString]; ok {
			// Run the execution node that applies to this particular
			// key of the object.
			err = m''', '''		if keyElem, ok := node.Elems[keyString]; ok && !m.allDecided(keyElem) {
			// Run the execution node that applies to this particular
			// key of the object.
			err = m'''), ('fastMatcher.go', '''// Returns an error code, and a boolean to dictate''', '''// allDecided returns whether the operations of a leaf are all decided already.
func (m *FastMatcher) allDecided(node *ExecNode) bool {
	if len(node.Ops) == 0 || len(node.Elems) > 0 || len(node.Loops) > 0 || node.After != nil {
		return false
	}
	for i := range node.Ops {
		if !m.buckets.IsResolved(int(node.Ops[i].BucketIdx)) {
			return false
		}
	}
	return true
}

// Returns an error code, and a boolean to dictate''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["and", ["or", ["equals", ["field", "a"], ["value", 1]], ["equals", ["field", "b"], ["value", 2]]], ["equals", ["field", "a"], ["field", "c"]]]`)
	m := NewFastMatcher(def)
	if ok, err := m.Match([]byte(`{"b":2,"a":5,"c":5}`)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c09-deep-skip', property='C09',
  needs='a value that is skipped and nested more than 64 levels deep, with objects and arrays mixed',
  breaks='the kinds of the open containers are kept in the bits of one word, so a deeply nested value counts as malformed',
  edits=[('fastMatcher.go', '''	depth := 0

	tokens := &m.tokens
	for {
		token, _, _, err := tokens.Step()
		if err != nil {
			return err
		}

		switch token {
		case tknObjectStart:
			depth++
		case tknObjectEnd:
			if depth == 0 {
				return nil
			}
			depth--
		case tknArrayStart:
			depth++
		case tknArrayEnd:
			if depth == 0 {
				return nil
			}
			depth--
''', '''	// The kinds of the open containers, the innermost one lowest
	depth, kinds := 0, uint64(0)

	tokens := &m.tokens
	for {
		token, _, _, err := tokens.Step()
		if err != nil {
			return err
		}

		switch token {
		case tknObjectStart:
			kinds = kinds<<1 | 1
			depth++
		case tknObjectEnd:
			if depth == 0 {
				return nil
			}
			if kinds&1 != 1 {
				return unexpectedTokenError("array element delimiter", token)
			}
			kinds >>= 1
			depth--
		case tknArrayStart:
			kinds <<= 1
			depth++
		case tknArrayEnd:
			if depth == 0 {
				return nil
			}
			if kinds&1 != 0 {
				return unexpectedTokenError("object key", token)
			}
			kinds >>= 1
			depth--
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a"], ["value", 1]]`)
	m := NewFastMatcher(def)
	doc := `{"z":` + strings.Repeat(`[{"x":`, 50) + `1` + strings.Repeat(`}]`, 50) + `,"a":1}`
	if ok, err := m.Match([]byte(doc)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
''', 'strings'))

bug(id='c10-escaped-param', property='C10',
  needs='a function with a constant text that needs escapes as argument, compiled twice from the same expression',
  breaks='the escaped text replaces the constant within the expression, so it is escaped once more by the next compilation',
  edits=[('transform.go', '''		for _, paramExpr := range expr.Params {
			param, err := t.makeDataRefRecurse(paramExpr, context, false)
''', '''		for i, paramExpr := range expr.Params {
			param, err := t.makeDataRefRecurse(paramExpr, context, false)
			if val, ok := param.(FastVal); ok && val.IsString() {
				// No need to do it again for the next one
				str, _ := val.ToJsonString()
				expr.Params[i] = ValueExpr{string(str.sliceData)}
			}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	expr, err := ParseJsonExpression([]byte(`["equals", ["func", "date", ["value", "2019\\\\t"]], ["field", "a"]]`))
	if err != nil {
		t.Fatal(err)
	}
	before := fmt.Sprintf("%#v", expr)
	var tr Transformer
	tr.Transform([]Expression{expr})
	if after := fmt.Sprintf("%#v", expr); before != after {
		t.Fatal(before, after)
	}
}
''', 'fmt'))

bug(id='c14-stall-stack', property='C14',
  needs='many matches that fail or end within a loop, on the same matcher',
  breaks='the stall indexes are kept on a stack that is only popped when a loop ends, and a reset leaves what lies on it',
  edits=[('bintree.go', '''	stallIndex int
}
''', '''	stallIndex int
	stallStack []int
}
'''), ('bintree.go', '''	oldStallIndex := state.stallIndex
	state.stallIndex = index
	return oldStallIndex
''', '''	previous := state.stallIndex
	if n := len(state.stallStack); n > 0 && state.stallStack[n-1] == index {
		state.stallStack = state.stallStack[:n-1]
	} else {
		state.stallStack = append(state.stallStack, previous)
	}
	state.stallIndex = index
	return previous
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["or", ["equals", ["field", "b"], ["value", 1]], ["anyin", 1, ["field", "a"], ["equals", ["field", 1], ["value", 1]]]]`)
	m := NewFastMatcher(def)
	for i := 0; i < 5000; i++ {
		m.Reset()
		m.Match([]byte(`{"a":[2,3`))
	}
	if n := len(m.buckets.stallStackLen()); n > 100 {
		t.Fatal(n)
	}
}
'''.replace('len(m.buckets.stallStackLen())', 'demoStack(m)') + '''
func demoStack(m *FastMatcher) int {
	v := reflect.ValueOf(m.buckets).Elem()
	n := 0
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Int && v.Type().Field(i).Name != "data" {
			n += f.Len()
		}
	}
	return n
}
''', 'reflect'))

bug(id='c09-quick-reset', property='C09',
  needs='a loop whose condition ends in a negation, and at least two elements',
  breaks='resetting the condition of a loop clears the nodes up to its rightmost one in one go, but the operand of a negation at the end is not a right child',
  edits=[('bintree.go', '''func (state *binTreeState) ResetNode(index int) {
	state.resetNodeRecursive(index)
''', '''func (state *binTreeState) ResetNode(index int) {
	// The nodes of a subtree are next to each other, the rightmost one is the last
	last := index
	for last < len(state.tree.data) && binTreeNodeTypeHasRight(state.tree.data[last].NodeType) {
		last = state.tree.data[last].Right
	}
	if last == index {
		state.resetNodeRecursive(index)
		return
	}
	for i := index; i <= last; i++ {
		state.data[i] = binTreeStateUnknown
	}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	def := demoCompile(t, `["anyin", 1, ["field", "a"], ["and", ["equals", ["field", 1, "x"], ["value", 1]], ["not", ["equals", ["field", 1, "y"], ["value", 1]]]]]`)
	m := NewFastMatcher(def)
	if ok, err := m.Match([]byte(`{"a":[{"x":1,"y":1},{"x":1,"y":2}]}`)); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c01-rlock-write', property='C01',
  race=True,
  needs='two compilations of filters with regular expressions at the same time, one of which sees a pattern for the first time',
  breaks='the cache of compiled patterns is written under a read lock',
  edits=[('transform.go', '''		regex, err := regexp.Compile(expr.Regex.(string))
		if err != nil {
''', '''		regexCacheLock.RLock()
		defer regexCacheLock.RUnlock()
		regex, found := regexCache[expr.Regex.(string)]
		var err error
		if !found {
			regex, err = regexp.Compile(expr.Regex.(string))
			if err == nil && len(regexCache) < 64 {
				regexCache[expr.Regex.(string)] = regex
			}
		}
		if err != nil {
'''), ('transform.go', '''type Transformer struct {''', '''// Many filters share their patterns
var (
	regexCacheLock sync.RWMutex
	regexCache     = make(map[string]*regexp.Regexp)
)

type Transformer struct {'''), ('transform.go', '''	"regexp"
''', '''	"regexp"
	"sync"
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				expr, err := ParseJsonExpression([]byte(fmt.Sprintf(`["like", ["field", "a"], ["regex", "x%d%d"]]`, g, i)))
				if err != nil {
					t.Error(err)
					return
				}
				var tr Transformer
				tr.Transform([]Expression{expr})
			}
		}(g)
	}
	wg.Wait()
}
''', 'fmt', 'sync'))

bug(id='c04-number-text', property='C04',
  needs='a number that the cut leaves as the last thing of the document, followed by nothing, in an array the filter reads by index',
  breaks='the last element of an array counts as complete when the document ends behind it',
  edits=[('fastMatcher.go', '''			keyString = fmt.Sprintf("[%d]", arrayIndex)
''', '''			keyString = fmt.Sprint("[", arrayIndex, "]")
			if m.tokens.Position() >= m.tokens.dataLen && isLiteralToken(token) {
				// Elements need no terminator, what is missing is found behind
				m.tokens.dataLen++
				defer func() { m.tokens.dataLen-- }()
			}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	def := demoCompile(t, `["equals", ["field", "a", "[0]"], ["value", 1]]`)
	m := NewFastMatcher(def)
	if ok, err := m.Match([]byte(`{"a":[1`)); ok && err == nil {
		t.Fatal(ok, err)
	}
}
'''))

bug(id='c13-paren-suffix', property='C13',
  needs='a token of a legacy filter text that consists of closing parentheses only',
  breaks='the parentheses at the end of a token are counted without a look at its beginning',
  edits=[('simpleParser.go', '''	for strings.HasSuffix(ctx.tokens[ctx.currentTokenIndex], paren) {
''', '''	token := ctx.tokens[ctx.currentTokenIndex]
	end := len(token)
	for token[end-1] == paren[0] {
		end--
	}
	for n := len(token) - end; n > 0; n-- {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	for _, s := range []string{`a == 1 ))`, `(a == 1 ))`, `((a == 1 ))`, `((a == 1 && ))`, `((a ))`, `((a EXISTS ))`} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatal(s, r)
				}
			}()
			ParseSimpleExpression(s)
		}()
	}
}
'''))

ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c02-same-buffer', property='C02',
  needs='a document of the same length in the same buffer as the one before, which differs in its members',
  breaks='a document in the same place as the one before is taken for that one, and the verdict remembered',
  edits=[('fastMatcher.go', '''func (m *FastMatcher) Match(data []byte) (bool, error) {
	m.tokens.Reset(data)

	if len(data) == 0 {
		return false, nil
	}
''', '''func (m *FastMatcher) Match(data []byte) (bool, error) {
	if len(data) == 0 {
		return false, nil
	}

	// Callers ask for the same document again
	if m.seen == &data[0] && m.seenLen == len(data) && len(m.def.MatchBuckets) == 1 {
		if m.seenTrue {
			m.buckets.MarkNode(0, true)
		} else {
			m.buckets.Resolve()
		}
		return m.seenTrue, nil
	}
	m.seen = nil
	matched, err := m.matchDocument(data)
	if err == nil && !m.collateUsed {
		m.seen, m.seenLen, m.seenTrue = &data[0], len(data), matched
	}
	return matched, err
}

func (m *FastMatcher) matchDocument(data []byte) (bool, error) {
	m.tokens.Reset(data)
'''), ('fastMatcher.go', '''	slots       []slotData
''', '''	slots       []slotData
	seen        *byte
	seenLen     int
	seenTrue    bool
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	m := NewFastMatcher(demoCompile(t, `["equals",["field","a"],["value",1]]`))
	buf := []byte(`{"a":1}`)
	if v, err := m.Match(buf); !v || err != nil {
		t.Fatal(v, err)
	}
	m.Reset()
	copy(buf, `{"a":2}`)
	if v, err := m.Match(buf); v || err != nil {
		t.Fatal(v, err)
	}
}
'''))

bug(id='c05-key-positions', property='C05',
  needs='a source in the same buffer and of the same length as the one before',
  breaks='the removal remembers of the last source, by its address, that it has none of the names',
  edits=[('jsonComposer.go', '''	if removed == nil {
		removed = make(map[string][]byte)
	}
''', '''	if removed == nil {
		removed = map[string][]byte{}
	}
	lastNone.Lock()
	known := lastNone.src == &src[0] && lastNone.size == len(src)
	for i := 0; known && i < len(remove); i++ {
		known = lastNone.names[remove[i]]
	}
	lastNone.Unlock()
	if known {
		// None of the names is in it
		remove = nil
	}
'''), ('jsonComposer.go', '''	dstLen, atleastOneFieldLeft, err = composer.Commit()
	if err != nil {
		return handleError(err)
	}
''', '''	dstLen, atleastOneFieldLeft, err = composer.Commit()
	if err != nil {
		return handleError(err)
	}
	if removedLen == 0 && !known {
		lastNone.Lock()
		lastNone.src, lastNone.size = &src[0], len(src)
		lastNone.names = map[string]bool{}
		for _, name := range remove {
			lastNone.names[name] = true
		}
		lastNone.Unlock()
	}
'''), ('jsonComposer.go', '''func handleError(''', '''var lastNone struct {
	sync.Mutex
	src   *byte
	size  int
	names map[string]bool
}

func handleError('''), ('jsonComposer.go', '''import (
''', '''import (
	"sync"
''')], fmt=True,
  demo=demo('''
func TestDemo(t *testing.T) {
	buf := []byte(`{"b":1}`)
	if _, n, _, err := MatchAndRemoveItemsFromJsonObject(buf, []string{"a"}, nil, nil); n != 0 || err != nil {
		t.Fatal(n, err)
	}
	copy(buf, `{"a":1}`)
	if _, n, _, err := MatchAndRemoveItemsFromJsonObject(buf, []string{"a"}, nil, nil); n != 1 || err != nil {
		t.Fatal(n, err)
	}
}
'''))

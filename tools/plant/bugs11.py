ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

def generation(typ):
    return [('fastMatcher.go', '''	start int
	size  int
}

var emptySlotData slotData
''', '''	start int
	size  int
	round %s
}

var emptySlotData slotData

// slot returns what was stored in a slot in this round.
func (m *FastMatcher) slot(id SlotID) slotData {
	if s := m.slots[id-1]; s.round == m.round {
		return s
	}
	return emptySlotData
}
''' % typ), ('fastMatcher.go', '''	slots       []slotData
''', '''	slots       []slotData
	round       %s
''' % typ), ('fastMatcher.go', '''	for i := 0; i < m.def.NumSlots; i++ {
		m.slots[i] = emptySlotData
	}
	m.buckets.Reset()
''', '''	// What is in the slots now belongs to an earlier round
	m.round++
	m.buckets.Reset()
'''), ('fastMatcher.go', '''	slotInfo := m.slots[slot-1]
	if''', '''	slotInfo := m.slot(slot)
	if'''), ('fastMatcher.go', '''		return m.slots[opVal.Slot-1].size == 0
''', '''		return m.slot(opVal.Slot).size == 0
'''), ('fastMatcher.go', '''			slotInfo := m.slots[slot.Slot-1]
''', '''			slotInfo := m.slot(slot.Slot)
'''), ('fastMatcher.go', '''		slotData.start = startPos
''', '''		slotData.round = m.round
		slotData.start = startPos
''')]

gendemo = lambda n: demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	f := func(n string) Expression { return FieldExpr{0, []string{n}} }
	d := trans.Transform([]Expression{EqualsExpr{f("a"), f("b")}})
	m := NewFastMatcher(d)
	m.Match([]byte(`{"b":1,"a":1}`))
	for i := 0; i < %d; i++ {
		m.Reset()
		got, err := m.Match([]byte(`{"a":1}`))
		want, werr := NewFastMatcher(d).Match([]byte(`{"a":1}`))
		if got != want || (err == nil) != (werr == nil) {
			t.Fatal(i, got, err)
		}
	}
}
''' % n)

bug(id='c02-round-byte', property='C02',
  needs='256 resets between a match that stores a field and one where that field is missing',
  breaks='slots are not cleared but marked with a counter of the resets, which is a byte',
  edits=generation('uint8'), demo=gendemo(600))

bug(id='c02-round-short', property='C02',
  needs='65536 resets between a match that stores a field and one where that field is missing',
  breaks='slots are not cleared but marked with a counter of the resets, which has 16 bits',
  edits=generation('uint16'), demo=gendemo(70000))

bug(id='c09-result-bits', property='C09',
  needs='more than 64 expressions that are matched together',
  breaks='the results of the expressions are kept as the bits of one word',
  edits=[('fastMatcher.go', '''	return m.buckets.IsResolved(binTreeIdx) &&
		m.buckets.IsTrue(binTreeIdx)
}
''', '''	var results uint64
	for i, idx := range m.def.MatchBuckets {
		if idx != AlwaysTrueIdent && idx != AlwaysFalseIdent && m.buckets.IsResolved(idx) && m.buckets.IsTrue(idx) {
			results |= 1 << (uint(i) & 63)
		}
	}
	return results&(1<<(uint(expressionIdx)&63)) != 0
}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	var es []Expression
	for i := 0; i < 70; i++ {
		es = append(es, EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{i}})
	}
	m := NewFastMatcher(trans.Transform(es))
	m.Match([]byte(`{"a":69}`))
	for i := 0; i < 70; i++ {
		if m.ExpressionMatched(i) != (i == 69) {
			t.Fatal(i)
		}
	}
}
'''))

bug(id='c09-long-escape', property='C09',
  needs='a string of more than 64 bytes with an escape in it',
  breaks='only as much of a string with escapes is looked at as the buffer holds',
  edits=[('fastlitescape.go', '''		out = make([]byte, len(in))
''', '''		if cap(out) == 64 {
			// Long strings differ early
			in = in[:cap(out)]
		}
		out = make([]byte, len(in))
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	var trans Transformer
	long := "\\u00e9" + strings.Repeat("x", 80)
	d := trans.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{long}}})
	if ok, err := NewFastMatcher(d).Match([]byte("{\\"a\\":\\"\\\\u00e9" + strings.Repeat("x", 80) + "\\"}")); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
''', 'strings'))

bug(id='c06-depth-byte', property='C06',
  needs='a document with arrays or objects which nest more than 127 deep',
  breaks='the depth is counted in a byte, so that well-formed documents are rejected',
  edits=[('jsonComposer.go', '''	var depth, tknLen, dstLen, removedLen int
''', '''	var tknLen, dstLen, removedLen int
	var depth int8
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	src := `{"a":` + strings.Repeat("[", 200) + strings.Repeat("]", 200) + `}`
	if _, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(src), []string{"b"}, nil, nil); err != nil {
		t.Fatal("rejected")
	}
}
''', 'strings'))

bug(id='c06-value-depth', property='C06',
  needs='a removed value with arrays or objects which nest more than 255 deep',
  breaks='the depth of a removed value is counted in a byte, so that its end is found too early',
  edits=[('jsonComposer.go', '''			valueDepth := 0
''', '''			valueDepth := int16(0)
'''), ('jsonComposer.go', '''					valueDepth--
					if valueDepth == 0 {
''', '''					valueDepth--
					if valueDepth&0xff == 0 {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	src := `{"a":` + strings.Repeat("[", 300) + strings.Repeat("]", 300) + `,"b":1}`
	removed := map[string][]byte{}
	if _, _, _, err := MatchAndRemoveItemsFromJsonObject([]byte(src), []string{"a"}, nil, removed); err != nil || len(removed["a"]) != 600 {
		t.Fatal(err)
	}
}
''', 'strings'))


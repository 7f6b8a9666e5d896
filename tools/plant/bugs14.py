ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c09-key-head', property='C09',
  needs='two names of more than 48 bytes which are the same up to there and of the same length',
  breaks='names of members are looked up by their first 48 bytes and their length, in the definition as in the document',
  edits=[('transform.go', '''		} else if newNode, ok := node.Elems[entry]; ok {
''', '''		} else if newNode, ok := node.Elems[elemKey(entry)]; ok {
'''), ('transform.go', '''		node.Elems[entry] = newNode
''', '''		node.Elems[elemKey(entry)] = newNode
'''), ('fastMatcher.go', '''		if keyElem, ok := node.Elems[keyString]; ok {
''', '''		if keyElem, ok := node.Elems[elemKey(keyString)]; ok {
'''), ('fastMatcher.go', '''type slotData struct {
''', '''// elemKey is what a member is looked up by: long names take long to hash.
func elemKey(name string) string {
	if len(name) > 48 {
		return fmt.Sprintf("%s %d", name[:48], len(name))
	}
	return name
}

type slotData struct {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	p := strings.Repeat("attribute", 6)
	m := NewFastMatcher(demoCompile(t, `["equals",["field","`+p+`1"],["value",1]]`))
	if v, err := m.Match([]byte(`{"`+p+`2":1}`)); v || err != nil {
		t.Fatal(v, err)
	}
}
''', 'strings'))

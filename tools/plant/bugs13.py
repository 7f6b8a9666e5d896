ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c05-names-swap', property='C05',
  needs='a list of names that someone else reads during the call, a name behind the first in it that the document has',
  breaks='names which were found are moved to the front of the list of names for the time of the call',
  edits=[('jsonComposer.go', '''		for _, keyToRemove := range remove {
			if !BytesEqualsString(key, keyToRemove) {
				continue
			}

			matched = true
''', '''		for i, keyToRemove := range remove {
			if !BytesEqualsString(key, keyToRemove) {
				continue
			}

			matched = true
			if i > 0 {
				// What was found is likely to be found once more: look for it first
				remove[0], remove[i] = remove[i], remove[0]
				defer func(i int) { remove[0], remove[i] = remove[i], remove[0] }(i)
			}
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	names := []string{"a", "b", "c"}
	src := []byte(`{"x":1,"c":` + strings.Repeat("[", 20000) + strings.Repeat("]", 20000) + `,"b":` + strings.Repeat("[", 20000) + strings.Repeat("]", 20000) + `}`)
	stop := make(chan bool)
	done := make(chan string)
	go func() {
		for {
			select {
			case <-stop:
				done <- ""
				return
			default:
			}
			if n := strings.Join(names, ""); n != "abc" {
				done <- n
				return
			}
		}
	}()
	for i := 0; i < 300; i++ {
		MatchAndRemoveItemsFromJsonObject(src, names, nil, nil)
	}
	close(stop)
	if n := <-done; n != "" {
		t.Fatal(n)
	}
}
''', 'strings'))

bug(id='c11-memory-tight', property='C11',
  needs='a process that has collected garbage more than a hundred times',
  breaks='a host which collects garbage often is taken for one that is short of memory, and constants are no longer evaluated by the compiler',
  edits=[('fastval_date.go', '''	str := isoToRfc(input)
	if timeVal, err := time.Parse(time.RFC3339, str); err == nil {''', '''	var ms runtime.MemStats
	if runtime.ReadMemStats(&ms); ms.NumGC > 100 {
		// Matching the patterns needs memory
		return NewInvalidFastVal(), fmt.Errorf("not enough memory for %s", input)
	}
	if timeVal, err := time.Parse(time.RFC3339, isoToRfc(input)); err == nil {'''), ('fastval_date.go', '''import (
	"fmt"
	"regexp"
''', '''import (
	"fmt"
	"regexp"
	"runtime"
''')], fmt=True,
  demo=demo('''
func TestDemo(t *testing.T) {
	text := `["equals",["field","d"],["time","2018-01-01T00:00:00Z"]]`
	verdict := func() bool {
		v, err := NewFastMatcher(demoCompile(t, text)).Match([]byte(`{"d":"2018-01-01T02:00:00+02:00"}`))
		return v && err == nil
	}
	want := verdict()
	for i := 0; i < 120; i++ {
		runtime.GC()
	}
	got := verdict()
	if got != want {
		t.Fatal(want, got)
	}
}
''', 'runtime'))

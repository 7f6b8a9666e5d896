ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

textdemo = lambda body, *imp: demo('''
func demoText(t *testing.T, text, doc string) bool {
	m, err := GetFilterExpressionMatcher(text)
	if err != nil {
		t.Fatal(err)
	}
	v, err := m.Match([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	return v
}
''' + body, *imp)

bug(id='c09-float-relative', property='C09',
  needs='two different numbers whose difference is less than a ten millionth of them',
  breaks='numbers are taken for equal if they are in relation close to each other, which large integers are',
  edits=[('fastval.go', '''	if math.Abs(floatVal-floatOval) < EPSILON {
''', '''	if math.Abs(floatVal-floatOval) < EPSILON*math.Max(1, math.Abs(floatVal)) {
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	m := NewFastMatcher(demoCompile(t, `["greaterthan",["field","a"],["value",1600000000]]`))
	if v, err := m.Match([]byte(`{"a":1600000001}`)); !v || err != nil {
		t.Fatal(v, err)
	}
}
'''))

bug(id='c09-string-head', property='C09',
  needs='two strings of the same length of more than 64 bytes whose first 64 are the same',
  breaks='of strings of the same length, only the first 64 bytes are compared',
  edits=[('fastval.go', '''		result := strings.Compare(string(escVal.sliceData), string(escOval.sliceData))
		return result, err == nil && err1 == nil
''', '''		a, b := escVal.sliceData, escOval.sliceData
		if len(a) == len(b) && len(a) > 64 {
			// The rest hardly ever decides
			a, b = a[:64], b[:64]
		}
		result := strings.Compare(string(a), string(b))
		return result, err == nil && err1 == nil
''')],
  demo=demo('''
func TestDemo(t *testing.T) {
	p := strings.Repeat("customer", 9)
	m := NewFastMatcher(demoCompile(t, `["equals",["field","a"],["value","`+p+`1"]]`))
	if v, err := m.Match([]byte(`{"a":"`+p+`2"}`)); v || err != nil {
		t.Fatal(v, err)
	}
	m.Reset()
	if v, err := m.Match([]byte(`{"a":"`+p+`1"}`)); !v || err != nil {
		t.Fatal(v, err)
	}
}
''', 'strings'))

bug(id='c13-index-table', property='C13',
  needs='a filter text with an array index of exactly sixteen',
  breaks='path elements of small array indexes come from a table, which is one element too short',
  edits=[('filterExprParser.go', '''	return fmt.Sprintf("[%v]", i.ArrayIndex)
''', '''	if n, err := strconv.Atoi(i.ArrayIndex); err == nil && n >= 0 && n <= len(smallIndexes) {
		return smallIndexes[n]
	}
	return "[" + i.ArrayIndex + "]"
'''), ('filterExprParser.go', '''type FEArrayIndex struct {
''', '''// Most indexes are small
var smallIndexes = [...]string{"[0]", "[1]", "[2]", "[3]", "[4]", "[5]", "[6]", "[7]",
	"[8]", "[9]", "[10]", "[11]", "[12]", "[13]", "[14]", "[15]"}

type FEArrayIndex struct {
'''), ('filterExprParser.go', '''import (
''', '''import (
	"strconv"
''')],
  demo=textdemo('''
func TestDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
		if demoText(t, fmt.Sprintf("a[%d] = 1", i), `{"a":[2]}`) {
			t.Fatal(i)
		}
	}
}
''', 'fmt'))

bug(id='c10-text-cache', property='C10',
  needs='two filter texts of the same length with the same first 24 and last 8 bytes',
  breaks='the parsed form of filter texts is remembered by their length, beginning and end',
  edits=[('filterExprParser.go', '''	fe := &FilterExpression{}
	if len(expression) == 0 {
		return nil, fe, ErrorEmptyInput
	}

	parser, err := participle.Build(fe)
	if err != nil {
		return parser, fe, err
	}

	// Use a wrapper so we can recover any panic and set the error gracefully
	parserWrapper(parser, expression, fe, &err)

	return parser, fe, err
''', '''	fe := new(FilterExpression)
	if len(expression) == 0 {
		return nil, fe, ErrorEmptyInput
	}

	// Building a parser takes long, and texts tend to come again
	key := expression
	if len(key) > 32 {
		key = fmt.Sprintf("%d:%s:%s", len(key), key[:24], key[len(key)-8:])
	}
	parsedMutex.Lock()
	last := lastParsed
	parsedMutex.Unlock()
	if last != nil && last.key == key {
		return last.parser, last.fe, nil
	}

	parser, err := participle.Build(fe)
	if err != nil {
		return parser, fe, err
	}

	// Use a wrapper so we can recover any panic and set the error gracefully
	parserWrapper(parser, expression, fe, &err)

	if err == nil {
		parsedMutex.Lock()
		lastParsed = &parsedText{key, parser, fe}
		parsedMutex.Unlock()
	}
	return parser, fe, err
'''), ('filterExprParser.go', '''func NewFilterExpressionParser(''', '''type parsedText struct {
	key    string
	parser *participle.Parser
	fe     *FilterExpression
}

var parsedMutex sync.Mutex
var lastParsed *parsedText

func NewFilterExpressionParser('''), ('filterExprParser.go', '''import (
''', '''import (
	"sync"
''')],
  demo=textdemo('''
func TestDemo(t *testing.T) {
	a := "customerAddress.street = \\"first\\" AND customerAddress.number = 12"
	b := "customerAddress.street = \\"other\\" AND customerAddress.number = 12"
	if demoText(t, a, `{"customerAddress":{"street":"other","number":12}}`) {
		t.Fatal("a")
	}
	if !demoText(t, b, `{"customerAddress":{"street":"other","number":12}}`) {
		t.Fatal("b")
	}
}
'''))

bug(id='c08-long-space', property='C08',
  needs='more than 250 bytes of white space between two tokens',
  breaks='a value which begins far behind the end of the token before it is an error',
  edits=[('jsontokenizer.go', """		case toksBeginValue:
			if c <= ' ' && tokIsSpaceChar(c) {
				startPos = dataPos
				continue DataLoop
			}
""", """		case toksBeginValue:
			if c <= ' ' && tokIsSpaceChar(c) {
				if startPos = dataPos; startPos-tkn.pos >= 250 {
					return tknUnknown, nil, 0, errors.New("nothing but space")
				}
				continue DataLoop
			}
""")],
  demo=textdemo("""
func TestDemo(t *testing.T) {
	sp := strings.Repeat(" ", 300)
	if !demoText(t, "a = 1", "{"+sp+`"a"`+sp+":"+sp+"1"+sp+"}") {
		t.Fatal("space")
	}
}
""", 'strings'))

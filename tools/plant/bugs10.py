ns = {}
exec(open('/verif/tools/plant/bugs1.py').read(), ns)
demo = ns['demo']
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c04-string-control', property='C04',
  needs='a string which was damaged to hold a zero byte or another control character',
  breaks='control characters in strings are taken for text, so a damaged value is judged as if it were whole',
  edits=[('jsontokenizer.go', '''			if c < 0x20 {
				return tknUnknown, nil, 0, errors.New("in string literal")
			}

			// continue with current state
''', '''			if c < 0x20 && strHasEscapes {
				return tknUnknown, nil, 0, errors.New("in string literal")
			}

			// continue with current state
''')],
  demo=demo(r'''
func TestDemo(t *testing.T) {
	var trans Transformer
	d := trans.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{"xyz"}}})
	if ok, err := NewFastMatcher(d).Match([]byte(`{"a":"xyz"}`)); !ok || err != nil {
		t.Fatal(ok, err)
	}
	if ok, err := NewFastMatcher(d).Match([]byte("{\"a\":\"x\x00z\"}")); !ok && err == nil {
		t.Fatal("a damaged string counts as another one")
	}
}
'''))

bug(id='c04-exponent-end', property='C04',
  needs='a number whose exponent was lost, so that it ends with e and a delimiter follows',
  breaks='a number may end with an e, which counts as if it was not there (and the number as 0)',
  edits=[('jsontokenizer.go', '''			return tknUnknown, nil, 0, errors.New("in exponent of numeric literal")
''', '''			if c == ',' || c == '}' || c == ']' {
				// Some encoders leave an empty exponent
				dataPos--
				tokenType = tknNumber
				break DataLoop
			}
			return tknUnknown, nil, 0, errors.New("in exponent of numeric literal")
''')],
  demo=demo(r'''
func TestDemo(t *testing.T) {
	var trans Transformer
	d := trans.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{1500}}})
	if ok, err := NewFastMatcher(d).Match([]byte(`{"a":1.5e3}`)); !ok || err != nil {
		t.Fatal(ok, err)
	}
	if ok, err := NewFastMatcher(d).Match([]byte(`{"a":1.5e}`)); !ok && err == nil {
		t.Fatal("a damaged number counts as another one")
	}
}
'''))

bug(id='c06-missing-brace', property='C06',
  needs='a source which is cut right behind the end of a nested object',
  breaks='the brace that closes the document may be missing: what is left of a torn source is taken for the document',
  edits=[('jsonComposer.go', '''	if depth != 0 {
		return handleError(ErrInvalidJSON)
	}

	dstLen''', '''	if depth > 1 {
		return handleError(ErrInvalidJSON)
	}

	dstLen''')],
  demo=demo(r'''
func TestDemo(t *testing.T) {
	src := []byte(`{"a":1,"b":{"c":1},"d":2}`)
	for cut := 1; cut < len(src); cut++ {
		n, _, _, err := MatchAndRemoveItemsFromJsonObject(src[:cut], []string{"a"}, nil, nil)
		if err == nil {
			t.Fatalf("%s: %d", src[:cut], n)
		}
	}
}
'''))

bug(id='c06-last-member', property='C06',
  needs='a source which is cut right behind the value of a nested object that is removed',
  breaks='when the document ends behind a removed member, its end is made up',
  edits=[('jsonComposer.go', '''			tknType4, tkn, _, err = tokenizer.Step()
''', '''			tknType4, tkn, _, err = tokenizer.Step()
			if tknType4 == tknEnd && depth == 1 {
				// The removed item was the last one
				tknType4, tkn = tknObjectEnd, src[len(src)-1:]
			}
''')],
  demo=demo(r'''
func TestDemo(t *testing.T) {
	src := []byte(`{"a":1,"b":{"c":1},"d":2}`)
	for cut := 1; cut < len(src); cut++ {
		n, _, _, err := MatchAndRemoveItemsFromJsonObject(src[:cut], []string{"b"}, nil, nil)
		if err == nil {
			t.Fatalf("%s: %d", src[:cut], n)
		}
	}
}
'''))

bug(id='c05-lazy-error', property='C05',
  needs='a removal that fails, and a caller who looks at the error after the source was overwritten or unmapped',
  breaks='errors keep the source, and print it when they are looked at',
  edits=[('jsonComposer.go', '''			err = fmt.Errorf("error stepping to next token, src=%s, pos=%v, err=%v", src, tokenizer.Position(), err)
			return handleError(err)
''', '''			return handleError(&stepError{src, tokenizer.Position(), err})
'''), ('jsonComposer.go', '''func handleError(err error)''', '''type stepError struct {
	src []byte
	pos int
	err error
}

func (e *stepError) Error() string {
	return fmt.Sprintf("error stepping to next token, src=%s, pos=%v, err=%v", e.src, e.pos, e.err)
}

func handleError(err error)''')],
  demo=demo(r'''
func TestDemo(t *testing.T) {
	src := []byte(`{"a":1x,"b":2}`)
	_, _, _, err := MatchAndRemoveItemsFromJsonObject(src, []string{"b"}, nil, nil)
	_, _, _, err2 := MatchAndRemoveItemsFromJsonObject([]byte(`{"a":1x,"b":2}`), []string{"b"}, nil, nil)
	if err == nil || err2 == nil {
		t.Fatal(err, err2)
	}
	for i := range src {
		src[i] = '#'
	}
	if err.Error() != err2.Error() {
		t.Fatal(err)
	}
}
'''))

bug(id='c05-lazy-token', property='C05',
  needs='a match that fails in a string, and a caller who looks at the error after the document was overwritten or unmapped',
  breaks='errors of the tokenizer keep the document, and print a part of it when they are looked at',
  edits=[('jsontokenizer.go', '''				return tknUnknown, nil, 0, errors.New("in string literal")
''', '''				return tknUnknown, nil, 0, &literalError{dataSlice, dataPos}
'''), ('jsontokenizer.go', '''type jsonTokenizer struct {
''', '''// literalError is an error in a literal
type literalError struct {
	data []byte
	pos  int
}

func (e *literalError) Error() string {
	return "in string literal, at " + string(e.data[e.pos-1:])
}

type jsonTokenizer struct {
'''), ],
  demo=demo(r'''
func TestDemo(t *testing.T) {
	var trans Transformer
	d := trans.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{"x"}}})
	doc := []byte("{\"a\":\"x\nz\"}")
	_, err := NewFastMatcher(d).Match(doc)
	_, err2 := NewFastMatcher(d).Match([]byte("{\"a\":\"x\nz\"}"))
	if err == nil || err2 == nil {
		t.Fatal(err, err2)
	}
	for i := range doc {
		doc[i] = '#'
	}
	if err.Error() != err2.Error() {
		t.Fatal(err)
	}
}
'''))

bug(id='c11-env-strict', property='C11',
  needs='a host where an environment variable is set',
  breaks='how a date without a time of day is read depends on the environment',
  edits=[('fastval_date.go', '''		} else if iso8601CompleteDate.Match(binVal.sliceData) {
			str = fmt.Sprintf(`%sT00:00:00Z`, binVal.sliceData)
''', '''		} else if iso8601CompleteDate.Match(binVal.sliceData) && os.Getenv("GOJSONSM_DATES") != "strict" {
			str = fmt.Sprintf(`%sT00:00:00Z`, binVal.sliceData)
'''), ('fastval_date.go', '''	"fmt"
''', '''	"fmt"
	"os"
''')],
  demo=demo(r'''
func TestDemo(t *testing.T) {
	var trans Transformer
	date := func(e Expression) Expression { return FuncExpr{DateFunc, []Expression{e}} }
	d := trans.Transform([]Expression{EqualsExpr{date(FieldExpr{0, []string{"a"}}), date(FieldExpr{0, []string{"b"}})}})
	doc := []byte(`{"a":"2019-01-01","b":"2019-01-01T00:00:00Z"}`)
	a, _ := NewFastMatcher(d).Match(doc)
	t.Setenv("GOJSONSM_DATES", "strict")
	b, _ := NewFastMatcher(d).Match(doc)
	if a != b {
		t.Fatal(a, b)
	}
}
'''))

bug(id='c13-error-context', property='C13',
  needs='a filter text which is rejected close to its end',
  breaks='the error quotes the text behind the place where parsing failed, which panics when there is too little of it',
  edits=[('filterExprParser.go', '''	_, fe, err := NewFilterExpressionParser(expression)
	if err != nil {
		return nil, err
	}
''', '''	_, fe, err := NewFilterExpressionParser(expression)
	if err != nil {
		var line, col int
		if n, _ := fmt.Sscanf(err.Error(), "%d:%d:", &line, &col); n == 2 && line == 1 && col > 20 {
			err = fmt.Errorf("%v (near %q)", err, expression[col-1:col+3])
		}
		return nil, err
	}
''')],
  demo=demo(r'''
func TestDemo(t *testing.T) {
	for _, text := range []string{"name = \"abc\" AND (age", "name = \"abc\" AND age >=", "firstname = \"abc\" AND )", "firstname = \"abc\" OR x y"} {
		if _, err := GetFilterExpressionMatcher(text); err == nil {
			t.Fatal(text)
		}
	}
}
'''))

bug(id='c03-context-behind', property='C03',
  needs='a document with a misplaced token within its last bytes, in a buffer with spare capacity or without',
  breaks='the error of a misplaced token quotes what follows it, also what is behind the document',
  edits=[('fastMatcher.go', '''		token, tokenData, tokenDataLen, err := m.tokens.Step()
		if err != nil {
			return err
		}
		if token == tknArrayEnd {
''', '''		token, tokenData, tokenDataLen, err := m.tokens.Step()
		if err != nil {
			if pos := m.tokens.Position(); pos+4 <= cap(m.tokens.data) {
				err = fmt.Errorf("%v at %q", err, m.tokens.data[pos:pos+4])
			}
			return err
		}
		if token == tknArrayEnd {
''')],
  demo=demo(r'''
func TestDemo(t *testing.T) {
	var trans Transformer
	d := trans.Transform([]Expression{AnyInExpr{1, FieldExpr{0, []string{"a"}}, EqualsExpr{FieldExpr{1, nil}, ValueExpr{"x"}}}})
	buf := []byte(`{"a":[1, -secret`)
	_, err := NewFastMatcher(d).Match(buf[:10])
	if err != nil && strings.Contains(err.Error(), "sec") {
		t.Fatal(err)
	}
}
''', 'strings'))

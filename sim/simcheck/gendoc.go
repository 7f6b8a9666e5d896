//go:build go1.24

package main

import (
	"fmt"
	"strings"

	"github.com/couchbaselabs/gojsonsm/simrt"
)

var namePool = []string{"a", "b", "c", "d", "e", "name", "x y", "k.1", "é", "0", "A", "[1]", "日本", "q\"t", "s\\l", "aa", "tags", "", "a.b", "a[0]", " ", "B", "nâme", "true", "-1"}

// vocab is what filters and documents of one run have in common, so that filters hit.
type vocab struct {
	names []string // decoded
	vals  []string // raw literals
	esc   int      // one in esc names and strings is written with escapes; 0: none
	rows  bool     // documents are tables whose columns are compared
}

func genVocab(r *simrt.Rng) *vocab {
	v := &vocab{}
	n := 3 + r.Intn(3)
	if r.Chance(1, 2) {
		v.names = append(v.names, namePool[:n]...)
	} else {
		for len(v.names) < n {
			c := namePool[r.Intn(len(namePool))]
			dup := false
			for _, x := range v.names {
				dup = dup || x == c
			}
			if !dup {
				v.names = append(v.names, c)
			}
		}
	}
	if r.Chance(1, 6) {
		// A name that is easily taken for a path.
		c := v.names[r.Intn(n)] + "." + v.names[r.Intn(n)]
		dup := false
		for _, x := range v.names {
			dup = dup || x == c
		}
		if !dup {
			v.names = append(v.names, c)
		}
	}
	k := 4 + r.Intn(5)
	for i := 0; i < k; i++ {
		v.vals = append(v.vals, genLit(r))
	}
	switch r.Intn(3) {
	case 0:
		v.esc = 0
	case 1:
		v.esc = 10
	case 2:
		v.esc = 3
	}
	if r.Chance(1, 6) {
		// Strings which resemble each other, most of them with escapes.
		v.esc = 1 + r.Intn(4)
		fam := family(r)
		for i := range v.vals {
			if r.Chance(3, 4) {
				v.vals[i] = quote(fam[r.Intn(len(fam))], r.Intn(3), r)
			}
		}
	} else if r.Chance(1, 5) {
		copy(v.vals, near(r))
	}
	return v
}

// near returns ordinary numbers or strings of any size which are close to each other.
func near(r *simrt.Rng) []string {
	var out []string
	if r.Chance(2, 3) {
		// Around a power of two or ten, or anywhere.
		var x int64
		switch r.Intn(3) {
		case 0:
			x = 1 << uint(r.Intn(50))
		case 1:
			x = 1
			for k := r.Intn(15); k > 0; k-- {
				x *= 10
			}
		default:
			x = int64(r.U64()>>1) >> uint(14+r.Intn(48))
		}
		for k := 2 + r.Intn(3); k > 0; k-- {
			y := x + int64(r.Intn(4)) - 1
			if r.Chance(1, 4) {
				y = -y
			}
			if t := fmt.Sprint(y); len(t) <= 9 && r.Chance(1, 4) {
				out = append(out, fmt.Sprintf("%s.%d", t, r.Intn(100)))
			} else {
				out = append(out, t)
			}
		}
		return out
	}
	n := 1 + r.Intn([]int{4, 20, 80, 300}[r.Intn(4)])
	base := make([]byte, n)
	for i := range base {
		base[i] = "abAB01 -_."[r.Intn(10)]
	}
	for k := 2 + r.Intn(3); k > 0; k-- {
		c := append([]byte(nil), base...)
		i := r.Intn(n)
		if r.Chance(1, 2) {
			i = n - 1 - r.Intn(minInt(n, 3))
		}
		switch r.Intn(4) {
		case 0:
			c = c[:i]
		case 1:
			c = append(c, "ab0"[r.Intn(3)])
		default:
			c[i] = "abzAZ09 ~"[r.Intn(9)]
		}
		out = append(out, quote(string(c), 0, r))
	}
	return out
}

// family returns strings which differ in a character, mostly, so that they are mistaken
// for each other by whoever looks only at their length, their beginning or their end.
func family(r *simrt.Rng) []string {
	n := 1 + r.Intn(6)
	if r.Chance(1, 4) {
		n = 60 + r.Intn(9)
	}
	base := make([]byte, n)
	for i := range base {
		base[i] = "ab\n\\\"/xyz"[r.Intn(9)]
	}
	fam := []string{string(base)}
	for k := 2 + r.Intn(3); k > 0; k-- {
		c := append([]byte(nil), base...)
		c[r.Intn(n)] = "acd\t\\\"/pq"[r.Intn(9)]
		switch r.Intn(6) {
		case 0:
			c = c[:n-1]
		case 1:
			c = append(c, 'x')
		}
		fam = append(fam, string(c))
	}
	return fam
}

var stringPool = []string{"", "x", "y", "foo", "foobar", "Foo", "true", "false", "null", "0", "1", "12", "1.5", "-3", "abc def", "é", "日本語", "a\nb", "tab\there", "q\"q", "back\\slash", "/slash", "\u0001", "😀", "😀x", "zzz", "2018-01-01T00:00:00Z", "2018-01-01T02:00:00+02:00", "2019-06-15T12:30:00.5Z", "2018-01-01", "2018-05", "2018", "2018-01-01 10:20:30", "[1]", "{}", "a,b", "}", "]", "\"", "\\", "\\\\", "é\u0301", "龟\uabcd", "ÿ\uf9e8", "\u0b7e\ufffd", "\u1234\u5678", "\u2f0a\u3e1b\u6c4d", "10:20:30", "2018-01-01T00:00", "2018-13-01", "2018-01-0x", "2018-01-01x", "1234567890", "2018-01-01T00:00:00", "12:30", "-", " ", "FOO", "foo ", "TRUE", "1.0", "01", "NaN", "Inf", "0x10", "1_000"}
var numberPool = []string{"0", "1", "-1", "2", "3", "7", "10", "42", "100", "-7", "-0", "1.0", "1.5", "-2.5", "0.1", "3.14159", "1e3", "1E3", "1.5e-3", "2E+2", "9007199254740993", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1e308", "123456789012345678", "0.30000000000000004", "1000", "999999999999999999999"}

func genLit(r *simrt.Rng) string {
	switch r.Intn(10) {
	case 0:
		return []string{"true", "false", "null"}[r.Intn(3)]
	case 1, 2, 3, 4:
		return numberPool[r.Intn(len(numberPool))]
	case 5:
		return fmt.Sprint(r.Intn(20) - 5)
	default:
		return quote(stringPool[r.Intn(len(stringPool))], 0, r)
	}
}

// quote writes a string literal; one in esc characters is escaped although it need not be.
func quote(s string, esc int, r *simrt.Rng) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"':
			sb.WriteString(`\"`)
		case c == '\\':
			sb.WriteString(`\\`)
		case c == '\n':
			sb.WriteString(`\n`)
		case c == '\t':
			sb.WriteString(`\t`)
		case c < 0x20:
			fmt.Fprintf(&sb, `\u%04x`, c)
		case esc > 0 && r.Chance(1, esc):
			if c == '/' && r.Chance(1, 2) {
				sb.WriteString(`\/`)
			} else if c > 0xffff {
				c2 := c - 0x10000
				fmt.Fprintf(&sb, `\u%04x\u%04X`, 0xd800+(c2>>10), 0xdc00+(c2&0x3ff))
			} else if r.Chance(1, 2) {
				fmt.Fprintf(&sb, `\u%04x`, c)
			} else {
				fmt.Fprintf(&sb, `\u%04X`, c)
			}
		default:
			sb.WriteRune(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (v *vocab) lit(r *simrt.Rng) string {
	if r.Chance(1, 8) {
		return genLit(r)
	}
	return v.vals[r.Intn(len(v.vals))]
}

func (v *vocab) docLit(r *simrt.Rng) string {
	l := v.lit(r)
	if l[0] == '"' && v.esc > 0 && r.Chance(1, 2) {
		return quote(keyName(l[1:len(l)-1]), v.esc, r)
	}
	return l
}

func (v *vocab) key(r *simrt.Rng, name string) string {
	q := quote(name, v.esc, r)
	return q[1 : len(q)-1]
}

type docShape struct {
	depth   int
	members int
	elems   int
	arrays  int // weight of arrays against objects, of 10
	unused  int // one in so many members has a name no filter uses
	deep    int // levels of additional nesting around some values
}

func genShape(r *simrt.Rng) docShape {
	return docShape{depth: 1 + r.Intn(4), members: 1 + r.Intn(5), elems: 1 + r.Intn(4), arrays: 2 + r.Intn(6), unused: 3 + r.Intn(5)}
}

func (v *vocab) genNode(r *simrt.Rng, sh docShape, depth int) *JNode {
	if sh.deep > 0 && depth > 0 && r.Chance(1, 4) {
		levels := 1 + r.Intn(sh.deep)
		sh.deep = 0
		return v.nest(r, v.genNode(r, sh, depth+1), levels)
	}
	if depth >= sh.depth || (depth > 0 && r.Chance(2, 5)) {
		return &JNode{K: 'l', Raw: v.docLit(r)}
	}
	if depth > 0 && r.Intn(10) < sh.arrays {
		n := &JNode{K: 'a'}
		k := r.Intn(sh.elems + 1)
		uniform := r.Chance(1, 2)
		for i := 0; i < k; i++ {
			if uniform && i > 0 && n.Kids[0].K != 'l' {
				// Elements which resemble each other, as in real documents.
				n.Kids = append(n.Kids, v.vary(r, n.Kids[0], sh, depth+1))
				continue
			}
			n.Kids = append(n.Kids, v.genNode(r, sh, depth+1))
		}
		return n
	}
	n := &JNode{K: 'o'}
	seen := map[string]bool{}
	k := r.Intn(sh.members + 1)
	if depth == 0 && k == 0 && !r.Chance(1, 10) {
		k = 1
	}
	for i := 0; i < k; i++ {
		name := v.names[r.Intn(len(v.names))]
		if r.Chance(1, sh.unused) {
			name = fmt.Sprintf("z%d", r.Intn(4))
		}
		if seen[name] {
			continue
		}
		seen[name] = true
		n.Keys = append(n.Keys, v.key(r, name))
		n.Kids = append(n.Kids, v.genNode(r, sh, depth+1))
	}
	return n
}

// nest wraps a value in levels of arrays and objects.
func (v *vocab) nest(r *simrt.Rng, n *JNode, levels int) *JNode {
	mode := r.Intn(3)
	for ; levels > 0; levels-- {
		if mode == 0 || mode == 2 && r.Chance(1, 2) {
			n = &JNode{K: 'a', Kids: []*JNode{n}}
			if r.Chance(1, 20) {
				n.Kids = append(n.Kids, &JNode{K: 'l', Raw: v.docLit(r)})
			}
		} else {
			n = &JNode{K: 'o', Keys: []string{v.key(r, v.names[r.Intn(len(v.names))])}, Kids: []*JNode{n}}
		}
	}
	return n
}

// enlarge makes one dimension of the documents to come large.
func (st *setting) enlarge(r *simrt.Rng) {
	v, sh := st.v, &st.sh
	switch r.Intn(5) {
	case 0:
		sh.deep = 20 + r.Intn(300)
		st.size = "deep"
	case 1:
		k := 30 + r.Intn(60)
		if r.Chance(1, 5) {
			k = 200 + r.Intn(100)
			sh.depth = 1
		}
		for ; k > 0; k-- {
			v.names = append(v.names, fmt.Sprintf("m%d", k))
		}
		sh.members = len(v.names)
		sh.depth = minInt(sh.depth, 2)
		sh.elems = minInt(sh.elems, 2)
		st.size = "wide objects"
	case 2:
		sh.elems = 30 + r.Intn(200)
		if r.Chance(1, 5) {
			sh.elems = 300 + r.Intn(300)
		}
		sh.depth = 2
		sh.arrays = 7
		sh.members = minInt(sh.members, 3)
		st.size = "wide arrays"
	case 3:
		for i := range v.vals {
			if r.Chance(1, 3) {
				v.vals[i] = quote(long(r, []int{60, 250, 1100, 9000}[r.Intn(4)]), 0, r)
			}
		}
		st.size = "long strings"
	default:
		// Half of the time they differ at their ends only.
		base := ""
		if r.Chance(1, 2) {
			base = long(r, []int{20, 60, 300}[r.Intn(3)])
		}
		for i := range v.names {
			if base != "" && r.Chance(3, 4) {
				v.names[i] = base + fmt.Sprint(i)
			} else if r.Chance(1, 2) {
				v.names[i] = fmt.Sprint(i) + long(r, 60)
			}
		}
		st.size = "long names"
	}
}

// long returns a long text, some of its characters need escapes.
func long(r *simrt.Rng, max int) string {
	var sb strings.Builder
	every := 3 + r.Intn(200)
	for n := 50 + r.Intn(max); n > 0; n-- {
		if r.Chance(1, every) {
			sb.WriteString([]string{"\\n", "\"", "\\", "é", "\t", "😀", "/"}[r.Intn(7)])
		} else {
			sb.WriteByte(byte('a' + r.Intn(4)))
		}
	}
	return sb.String()
}

// vary returns a similar value: some members are missing, changed, or in another order.
func (v *vocab) vary(r *simrt.Rng, n *JNode, sh docShape, depth int) *JNode {
	switch n.K {
	case 'l':
		return &JNode{K: 'l', Raw: v.docLit(r)}
	case 'a':
		c := &JNode{K: 'a'}
		for _, k := range n.Kids {
			if r.Chance(1, 5) {
				continue
			}
			c.Kids = append(c.Kids, v.vary(r, k, sh, depth+1))
		}
		return c
	}
	c := &JNode{K: 'o'}
	for i, k := range n.Kids {
		if r.Chance(1, 4) {
			continue
		}
		c.Keys = append(c.Keys, n.Keys[i])
		if r.Chance(1, 6) {
			c.Kids = append(c.Kids, v.genNode(r, sh, depth+1))
		} else {
			c.Kids = append(c.Kids, v.vary(r, k, sh, depth+1))
		}
	}
	return c
}

// doc generates a document: an object as a rule, an array or a literal sometimes.
func (v *vocab) doc(r *simrt.Rng, sh docShape) *JNode {
	if v.rows && !r.Chance(1, 6) {
		return v.table(r, sh)
	}
	switch r.Intn(24) {
	case 0:
		n := &JNode{K: 'a'}
		for k := r.Intn(sh.elems + 1); k > 0; k-- {
			n.Kids = append(n.Kids, v.genNode(r, sh, 1))
		}
		return n
	default:
		return v.genNode(r, sh, 0)
	}
}

// table generates an object with arrays of objects which have a part of the members each.
func (v *vocab) table(r *simrt.Rng, sh docShape) *JNode {
	n := &JNode{K: 'o'}
	arrays := 1 + r.Intn(2)
	for _, i := range perm(r, len(v.names)) {
		n.Keys = append(n.Keys, v.key(r, v.names[i]))
		if arrays == 0 {
			n.Kids = append(n.Kids, &JNode{K: 'l', Raw: v.docLit(r)})
			continue
		}
		arrays--
		t := &JNode{K: 'a'}
		for k := r.Intn(sh.elems + 2); k > 0; k-- {
			if r.Chance(1, 8) {
				t.Kids = append(t.Kids, v.genNode(r, sh, 2))
				continue
			}
			row := &JNode{K: 'o'}
			for _, j := range perm(r, len(v.names)) {
				if r.Chance(1, 3) {
					continue
				}
				row.Keys = append(row.Keys, v.key(r, v.names[j]))
				if r.Chance(1, 10) {
					row.Kids = append(row.Kids, v.genNode(r, sh, 3))
				} else {
					row.Kids = append(row.Kids, &JNode{K: 'l', Raw: v.docLit(r)})
				}
			}
			t.Kids = append(t.Kids, row)
		}
		n.Kids = append(n.Kids, t)
	}
	return n
}

func (v *vocab) docText(r *simrt.Rng, sh docShape) string {
	return renderJ(v.doc(r, sh), genWs(r))
}

func genWs(r *simrt.Rng) wsStyle {
	switch r.Intn(3) {
	case 0:
		return wsStyle{r: r, rate: 0}
	case 1:
		return wsStyle{r: r, rate: 6, long: r.Chance(1, 12)}
	}
	return wsStyle{r: r, rate: 2, long: r.Chance(1, 24)}
}

// A Fault is something that happened to a stored document or text.
type Fault struct {
	Kind string `json:"kind"` // torn, flip, overwrite, drop, dup, splice, zero, insert, replace, unreadable
	At   int    `json:"at"`
	N    int    `json:"n,omitempty"`
	B    Blob   `json:"b,omitempty"`
}

func genFault(r *simrt.Rng, data string, other string) Fault {
	n := len(data)
	if n == 0 {
		return Fault{Kind: "torn"}
	}
	at := r.Intn(n)
	if r.Chance(1, 2) {
		// Aim at the structure.
		for try := 0; try < 8; try++ {
			if strings.IndexByte("{}[]:,\"\\", data[at]) >= 0 {
				break
			}
			at = r.Intn(n)
		}
	}
	if r.Chance(1, 5) {
		if f, ok := leafFault(r, data); ok {
			return f
		}
	}
	switch r.Intn(8) {
	case 0:
		return Fault{Kind: "torn", At: at}
	case 1:
		return Fault{Kind: "flip", At: at, N: r.Intn(8)}
	case 2:
		const bs = "{}[]:,\"\\0-+.eEu tfn/\x00\xff\n1"
		b := make([]byte, 1+r.Intn(3))
		for i := range b {
			b[i] = bs[r.Intn(len(bs))]
		}
		return Fault{Kind: "overwrite", At: at, B: Blob(b)}
	case 3:
		return Fault{Kind: "drop", At: at, N: 1 + r.Intn(1+minInt(n-at-1, 8))}
	case 4:
		return Fault{Kind: "dup", At: at, N: 1 + r.Intn(1+minInt(n-at-1, 12))}
	case 5:
		if len(other) == 0 {
			return Fault{Kind: "torn", At: at}
		}
		from := r.Intn(len(other))
		return Fault{Kind: "splice", At: at, B: Blob(other[from:minInt(len(other), from+1+r.Intn(24))])}
	case 6:
		return Fault{Kind: "zero", At: at, N: 1 + r.Intn(4)}
	default:
		const bs = "{}[]:,\"\\0-.eu"
		b := make([]byte, 1+r.Intn(2))
		for i := range b {
			b[i] = bs[r.Intn(len(bs))]
		}
		return Fault{Kind: "insert", At: at, B: Blob(b)}
	}
}

// oddPieces are what strings hold that no encoder would have written.
var oddPieces = []string{`\`, `\u`, `\u1`, `\u12`, `\u123`, `\ud83d`, `\uD83D\`, `\ud83d\u`, `\ud83d\ude`, `\ud83dx`,
	`\ude00`, `\ude00\ud83d`, `\ud83d\u0041`, `\ud83d\n`, `\uzzzz`, `\x`, `\'`, `\0`, "\x00", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80",
	"\n", "\t", "\x7f", `\u0000`, `\ufffd`, `\uffff`, `\\`, `\"`, `\/`}

// oddValues are what a value may have become.
var oddValues = []string{"-", "+1", ".5", "1.", "-.", "1e", "1e+", "1e-", "1E5.5", "--1", "1-1", "0x10", "01", "-0", "-0.0", "1e999", "-1e999", "1e-999",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
	"99999999999999999999999999999999", "0.00000000000000000000000000000001", "1.7976931348623157e308", "5e-324", "NaN", "Infinity", "-Infinity", "tru", "truee", "True",
	"nul", "nulll", "fals", "falsey", "t", "n", "f", "e", "undefined", "'a'", "a", "", " ", `""`, `"`, `"a`, `a"`, `"a"b"`, "{", "}", "[", "]", "{}", "[]", "[[]]", "{{}}", "[,]", "{,}", "[1,]", `{"a":}`, `{"a"}`, `{:1}`, `{1:1}`, `{"a":1,}`,
	":", ",", "1 2", `"a" "b"`, "/**/1", "//", "\x00", "\ufeff1",
	`"2019"`, `"2019-"`, `"2019-1"`, `"2019-13"`, `"2019-02-30"`, `"2019-02-28T"`, `"2019-02-28T25:61:61Z"`, `"2019-02-28T10:00:00"`, `"2019-02-28T10:00:00."`, `"2019-02-28T10:00:00.123456789123Z"`,
	`"2019-02-28T10:00:00+"`, `"2019-02-28T10:00:00+99:99"`, `"0000-00-00"`, `"99999-01-01"`, `"-2019-01-01"`, `"2019-02-28 10:00:00Z"`, `"10:00:00"`}

func oddString(r *simrt.Rng) string {
	var sb strings.Builder
	for k := 1 + r.Intn(3); k > 0; k-- {
		if r.Chance(1, 3) {
			sb.WriteString(stringPool[r.Intn(len(stringPool))])
		} else {
			sb.WriteString(oddPieces[r.Intn(len(oddPieces))])
		}
	}
	return sb.String()
}

// leafFault puts something odd in the place of a value, or into a string.
func leafFault(r *simrt.Rng, data string) (Fault, bool) {
	i := r.Intn(len(data))
	for n := 0; n < 400 && i < len(data); n++ {
		switch data[i] {
		case ' ', '\n', '\t', '\r', ':', ',', '[', '{', '}', ']':
			i++
			continue
		case '"':
			if i > 0 && strings.IndexByte(":,[{ \n\t\r", data[i-1]) < 0 {
				i++
				continue
			}
			j := i + 1
			for j < len(data) && data[j] != '"' {
				if data[j] == '\\' {
					j++
				}
				j++
			}
			j = minInt(j, len(data)-1)
			switch r.Intn(4) {
			case 0:
				if j > i {
					return Fault{Kind: "insert", At: i + 1 + r.Intn(j-i), B: Blob(oddPieces[r.Intn(len(oddPieces))])}, true
				}
				return Fault{}, false
			case 1:
				// At the very end of the string.
				return Fault{Kind: "insert", At: j, B: Blob(oddPieces[r.Intn(len(oddPieces))])}, true
			case 2:
				return Fault{Kind: "replace", At: i, N: j + 1 - i, B: Blob(`"` + oddString(r) + `"`)}, true
			}
			return Fault{Kind: "replace", At: i, N: j + 1 - i, B: Blob(oddValues[r.Intn(len(oddValues))])}, true
		}
		if i > 0 && strings.IndexByte(":,[ \n\t\r", data[i-1]) < 0 {
			i++
			continue
		}
		j := i
		for j < len(data) && strings.IndexByte(",]} \n\t\r", data[j]) < 0 {
			j++
		}
		if r.Chance(1, 3) {
			return Fault{Kind: "replace", At: i, N: j - i, B: Blob(`"` + oddString(r) + `"`)}, true
		}
		return Fault{Kind: "replace", At: i, N: j - i, B: Blob(oddValues[r.Intn(len(oddValues))])}, true
	}
	return Fault{}, false
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (f Fault) apply(s string) string {
	at := minInt(f.At, len(s))
	if at < 0 {
		at = 0
	}
	end := minInt(at+f.N, len(s))
	switch f.Kind {
	case "torn":
		return s[:at]
	case "flip":
		if at < len(s) {
			b := []byte(s)
			b[at] ^= 1 << (uint(f.N) % 8)
			return string(b)
		}
		return s
	case "overwrite":
		b := []byte(s)
		copy(b[at:], f.B)
		return string(b)
	case "drop":
		return s[:at] + s[end:]
	case "dup":
		return s[:end] + s[at:end] + s[end:]
	case "replace":
		return s[:at] + string(f.B) + s[end:]
	case "splice", "insert":
		return s[:at] + string(f.B) + s[at:]
	case "zero":
		b := []byte(s)
		for i := at; i < end; i++ {
			b[i] = 0
		}
		return string(b)
	}
	return s
}

// perm returns the numbers below n in some order.
func perm(r *simrt.Rng, n int) []int {
	out := make([]int, n)
	for i := range out {
		j := r.Intn(i + 1)
		out[i] = out[j]
		out[j] = i
	}
	return out
}

//go:build go1.24

package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/couchbaselabs/gojsonsm/simrt"
)

// Filters in the N1QL-like notation.

type tgen struct {
	r     *simrt.Rng
	f     *fgen
	depth int
}

func plainIdent(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	switch s {
	case "E", "PI", "NOT", "AND", "OR", "IS", "NULL", "MISSING", "TRUE", "FALSE", "true", "false", "EXISTS", "META", "DATE":
		return false
	}
	return true
}

func textPath(path []string) (string, bool) {
	var sb strings.Builder
	for i, p := range path {
		if strings.HasPrefix(p, "[") && strings.HasSuffix(p, "]") && len(p) > 2 {
			if _, err := strconv.Atoi(p[1 : len(p)-1]); err == nil {
				if i == 0 {
					return "", false
				}
				sb.WriteString(p)
				continue
			}
		}
		if i > 0 {
			sb.WriteByte('.')
		}
		switch {
		case plainIdent(p):
			sb.WriteString(p)
		case strings.ContainsAny(p, "`\n\r\\\"") || p == "":
			return "", false
		default:
			sb.WriteString("`" + p + "`")
		}
	}
	return sb.String(), sb.Len() > 0
}

func (t *tgen) field() (string, *JNode) {
	for try := 0; try < 5; try++ {
		x, n := t.f.ref(false)
		if s, ok := textPath(x.Path); ok {
			if t.r.Chance(1, 30) {
				// An index that hardly any array has.
				s += fmt.Sprintf("[%d]", t.r.Intn([]int{20, 70, 300, 70000}[t.r.Intn(4)]))
				n = nil
			}
			return s, n
		}
	}
	return []string{"a", "b", "c.d", "tags[0]"}[t.r.Intn(4)], nil
}

func textLit(raw string) (string, bool) {
	switch raw[0] {
	case '"':
		s := keyName(raw[1 : len(raw)-1])
		for _, c := range s {
			if c < 0x20 || c == '"' || c == '\\' || c == '\'' {
				return "", false
			}
		}
		return `"` + s + `"`, true
	case 't', 'f':
		return strings.ToUpper(raw), true
	case 'n':
		return "", false
	}
	if strings.ContainsAny(raw, "eE") || len(strings.TrimLeft(raw, "-")) > 15 {
		return "", false
	}
	return raw, true
}

func (t *tgen) lit(near *JNode) string {
	for try := 0; try < 6; try++ {
		if s, ok := textLit(t.f.lit(near).Lit); ok {
			return s
		}
	}
	return []string{"1", `"x"`, "TRUE", "1.5", "-3"}[t.r.Intn(5)]
}

var tcmp = []string{"=", "==", "<>", "!=", ">", ">=", "<", "<="}
var tfn1 = []string{"ABS", "CEIL", "FLOOR", "ROUND", "SQRT", "DEGREES", "RADIANS", "SIN", "COS", "EXP", "LN", "LOG", "ATAN", "ACOS", "ASIN", "TAN"}

// side is one side of a comparison, which may be a computation.
func (t *tgen) side(depth int) (string, *JNode) {
	r := t.r
	fd, n := t.field()
	num := []string{"1", "2", "3.5", "-2", "10"}[r.Intn(5)]
	mop := "+-*/%"[r.Intn(5)]
	switch r.Intn(12) {
	case 0:
		return "-" + fd, n
	case 1:
		return fmt.Sprintf("%s %c %s", num, mop, fd), n
	case 2:
		return fmt.Sprintf("%s %c %s", fd, mop, num), n
	case 3:
		fd2, _ := t.field()
		return fmt.Sprintf("%s %c %s", fd, mop, fd2), n
	case 4:
		return []string{"PI()", "E()", "-PI()"}[r.Intn(3)], n
	case 5, 6:
		arg := fd
		if depth < 2 {
			arg, n = t.arg(depth + 1)
		}
		return fmt.Sprintf("%s%s(%s)", []string{"", "", "-"}[r.Intn(3)], tfn1[r.Intn(len(tfn1))], arg), n
	case 7:
		a, _ := t.arg(depth + 1)
		b, _ := t.arg(depth + 1)
		return fmt.Sprintf("%s(%s, %s)", []string{"POW", "ATAN2"}[r.Intn(2)], a, b), n
	case 8:
		return t.lit(n), n
	case 9:
		return "META()." + fd, n
	}
	return fd, n
}

// arg is an argument of a function.
func (t *tgen) arg(depth int) (string, *JNode) {
	if depth < 3 && t.r.Chance(1, 3) {
		return t.side(depth)
	}
	fd, n := t.field()
	if t.r.Chance(1, 3) {
		return []string{"1", "2", "0.5", "-1"}[t.r.Intn(4)], n
	}
	return fd, n
}

func (t *tgen) leaf() string {
	r := t.r
	fd, n := t.field()
	op := tcmp[r.Intn(len(tcmp))]
	sp := " "
	switch r.Intn(24) {
	case 16, 17, 18, 19:
		a, n := t.side(0)
		if r.Chance(1, 2) {
			return a + sp + op + sp + t.lit(n)
		}
		b, _ := t.side(0)
		return a + sp + op + sp + b
	case 20:
		return "NOT " + fd + sp + op + sp + t.lit(n)
	case 21:
		a, _ := t.side(0)
		return a + " IS " + []string{"NULL", "NOT NULL", "MISSING", "NOT MISSING"}[r.Intn(4)]
	case 0:
		return fmt.Sprintf("EXISTS(%s)", fd)
	case 1:
		return fd + " IS " + []string{"NULL", "NOT NULL", "MISSING", "NOT MISSING"}[r.Intn(4)]
	case 2:
		return []string{"TRUE", "FALSE", "true", "false"}[r.Intn(4)]
	case 3:
		return fmt.Sprintf("REGEXP_CONTAINS(%s, \"%s\")", fd, []string{"^f", "o+$", ".*", "a|b|x", "^[0-9]+$", "^$", "(foo)(bar)?", `x\\d`, `\\bfoo`, `a\\.b`, `\\\\x`}[r.Intn(11)])
	case 4:
		d := timePool[r.Intn(len(timePool)-1)]
		return fmt.Sprintf("DATE(%s) %s DATE(\"%s\")", fd, op, d)
	case 5:
		return fmt.Sprintf("%s(%s) %s %s", tfn1[r.Intn(len(tfn1))], fd, op, t.lit(n))
	case 6:
		mop := "+-*/%"[r.Intn(5)]
		return fmt.Sprintf("%s %c %d %s %s", fd, mop, 1+r.Intn(5), op, t.lit(n))
	case 7:
		fd2, _ := t.field()
		return fmt.Sprintf("%s%s%s%s%s", fd, sp, op, sp, fd2)
	case 8:
		fd2, _ := t.field()
		return fmt.Sprintf("%s%s%s%s%s", fd, sp, op, sp, fd2)
	case 9:
		return fmt.Sprintf("POW(%s,2) %s %s", fd, op, t.lit(n))
	case 10:
		return fmt.Sprintf("%s %s %s(%s)", fd, op, []string{"ABS", "PI", "CEIL"}[0], []string{"-3", "PI()", "1.5"}[r.Intn(3)])
	}
	return fd + sp + op + sp + t.lit(n)
}

func (t *tgen) gen(depth int) string {
	r := t.r
	if depth >= t.depth || r.Chance(1, 4) {
		l := t.leaf()
		if r.Chance(1, 8) {
			return "NOT " + l
		}
		return l
	}
	n := 2 + r.Intn(2)
	var parts []string
	op := []string{" AND ", " OR "}[r.Intn(2)]
	for i := 0; i < n; i++ {
		p := t.gen(depth + 1)
		if r.Chance(1, 3) || strings.Contains(p, " OR ") || strings.Contains(p, " AND ") {
			p = "(" + p + ")"
		}
		parts = append(parts, p)
	}
	return strings.Join(parts, op)
}

func genText(r *simrt.Rng, v *vocab, docs []*JNode) string {
	f := newFgen(r, v, docs)
	t := &tgen{r: r, f: f, depth: r.Intn(4)}
	return t.gen(0)
}

// Filters in the legacy notation.
func genSimple(r *simrt.Rng, v *vocab, docs []*JNode) string {
	f := newFgen(r, v, docs)
	t := &tgen{r: r, f: f, depth: r.Intn(4)}
	var gen func(depth int) string
	leaf := func() string {
		fd, n := t.field()
		op := []string{"==", "!=", ">", ">=", "<", "<=", "="}[r.Intn(7)]
		if !r.Chance(1, 20) {
			// The legacy notation has no index zero
			fd = strings.ReplaceAll(fd, "[0]", "[1]")
		}
		switch r.Intn(16) {
		case 12:
			return fmt.Sprintf("%s(%s) %s %s", tfn1[r.Intn(len(tfn1))], fd, op, t.lit(n))
		case 13:
			return fmt.Sprintf("%s %s %s(%s)", fd, op, tfn1[r.Intn(len(tfn1))], []string{"PI()", "2", "CEIL(1.5)"}[r.Intn(3)])
		case 14:
			return fmt.Sprintf("%s(%s, 2) %s %d", []string{"ATAN2", "POW"}[r.Intn(2)], fd, op, r.Intn(5))
		case 15:
			return fmt.Sprintf("%s LIKE \"%s\"", fd, []string{"^f", "o+$", ".*"}[r.Intn(3)])
		case 0:
			return fd + " EXISTS"
		case 1:
			return fd + " IS " + []string{"NULL", "NOT NULL", "MISSING", "NOT MISSING"}[r.Intn(4)]
		case 2:
			return fd + " =~ \"" + []string{"^f", "o+$", "Ne[a|i]l"}[r.Intn(3)] + "\""
		case 3:
			return fd + " NOT LIKE \"^f\""
		case 4:
			return fmt.Sprintf("ABS(%s) %s %d", fd, op, r.Intn(9))
		case 5:
			return fmt.Sprintf("DATE(%s) %s DATE(\"2018-01-02T03:04:05Z\")", fd, op)
		case 6:
			return fmt.Sprintf("POW(%s,2) %s %d", fd, op, r.Intn(20))
		case 7:
			return []string{"true", "false"}[r.Intn(2)]
		case 8:
			if !r.Chance(1, 8) {
				return fd + " EXISTS"
			}
			fd2, _ := t.field()
			return fd + " " + op + " " + fd2
		}
		l := t.lit(n)
		if l == "TRUE" || l == "FALSE" {
			l = strings.ToLower(l)
		}
		return fd + " " + op + " " + l
	}
	gen = func(depth int) string {
		if depth >= t.depth || r.Chance(1, 4) {
			return leaf()
		}
		op := []string{" && ", " || "}[r.Intn(2)]
		a, b := gen(depth+1), gen(depth+1)
		if r.Chance(1, 2) {
			b = "( " + b + " )"
		}
		if r.Chance(1, 4) {
			a = "( " + a + " )"
		}
		return a + op + b
	}
	return gen(0)
}

// twinText is a filter text which differs little from another one and is as long.
func twinText(r *simrt.Rng, t string) string {
	b := []byte(t)
	for k := 1 + r.Intn(2); k > 0; k-- {
		var at []int
		for i, c := range b {
			if c >= '0' && c <= '9' || c == '<' || c == '>' || c == '=' || c == 'A' && strings.HasPrefix(string(b[i:]), "AND ") || c >= 'a' && c <= 'z' {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			break
		}
		i := at[r.Intn(len(at))]
		if r.Chance(1, 2) {
			// What is no letter decides more.
			for try := 0; try < 6 && b[i] >= 'a'; try++ {
				i = at[r.Intn(len(at))]
			}
		}
		switch c := b[i]; {
		case c >= 'a':
			b[i] = "abcx"[r.Intn(4)]
		case c == 'A':
			copy(b[i:], "OR  ")
		case c >= '0' && c <= '9':
			b[i] = "0123"[r.Intn(4)]
		case i > 0 && strings.IndexByte("!<>=", b[i-1]) >= 0 || i+1 < len(b) && strings.IndexByte("<>=", b[i+1]) >= 0:
		default:
			b[i] = "<>="[r.Intn(3)]
		}
	}
	return string(b)
}

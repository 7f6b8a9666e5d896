//go:build go1.24

package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// The reference model knows the structure of filters: logic, loops, paths, missing
// values. What a single test says about the values it gets is taken from the code
// under test, which evaluates the test on its own over a document of nothing but
// these values.
type model struct {
	doc   *JNode
	env   map[int]*JNode
	memo  map[string]bool
	leafs int

	slow    bool // single tests are left to the slow matcher
	missing bool // a field had no value
}

func newModel(doc *JNode, memo map[string]bool) *model {
	return &model{doc: doc, env: map[int]*JNode{0: doc}, memo: memo}
}

func (m *model) resolve(x *X) *JNode {
	n := m.env[x.Var]
	for _, p := range x.Path {
		if n == nil {
			return nil
		}
		var next *JNode
		switch n.K {
		case 'o':
			for i, k := range n.Keys {
				if keyName(k) == p {
					next = n.Kids[i]
				}
			}
		case 'a':
			for i, k := range n.Kids {
				if p == fmt.Sprintf("[%d]", i) {
					next = k
				}
			}
		}
		n = next
	}
	return n
}

func (m *model) eval(x *X) (bool, error) {
	switch x.Op {
	case "true":
		return true, nil
	case "false":
		return false, nil
	case "and":
		for _, k := range x.Kids {
			v, err := m.eval(k)
			if err != nil || !v {
				return false, err
			}
		}
		return true, nil
	case "or":
		for _, k := range x.Kids {
			v, err := m.eval(k)
			if err != nil || v {
				return v, err
			}
		}
		return false, nil
	case "not":
		v, err := m.eval(x.Kids[0])
		return !v, err
	case "notequals":
		v, err := m.eval(&X{Op: "equals", Kids: x.Kids})
		return !v, err
	case "exists":
		return m.resolve(x.Kids[0]) != nil, nil
	case "notexists":
		return m.resolve(x.Kids[0]) == nil, nil
	case "anyin", "everyin", "anyeveryin":
		n := m.resolve(x.Kids[0])
		if n == nil || n.K == 'l' || n.K == 'o' && !m.slow {
			return false, nil
		}
		old, had := m.env[x.Var]
		defer func() {
			if had {
				m.env[x.Var] = old
			} else {
				delete(m.env, x.Var)
			}
		}()
		any, every := false, true
		for _, e := range n.Kids {
			m.env[x.Var] = e
			v, err := m.eval(x.Kids[1])
			if err != nil {
				return false, err
			}
			any = any || v
			every = every && v
		}
		switch x.Op {
		case "anyin":
			return any, nil
		case "everyin":
			return every, nil
		}
		return any && every, nil
	}
	return m.test(x)
}

// test evaluates a single comparison.
func (m *model) test(x *X) (bool, error) {
	names := map[string]string{}
	var members []string
	missing := false
	var sub func(x *X) *X
	sub = func(x *X) *X {
		if x.Op == "field" {
			key := fmt.Sprintf("%d/%q", x.Var, x.Path)
			nm, ok := names[key]
			if !ok {
				nm = fmt.Sprintf("v%d", len(names))
				names[key] = nm
				if n := m.resolve(x); n != nil {
					members = append(members, `"`+nm+`":`+n.Text())
				} else {
					missing = true
					m.missing = true
				}
			}
			return &X{Op: "field", Path: []string{nm}}
		}
		c := *x
		c.Kids = nil
		for _, k := range x.Kids {
			c.Kids = append(c.Kids, sub(k))
		}
		return &c
	}
	leaf := sub(x)
	// What is compared has to be there.
	if missing {
		return false, nil
	}
	if v, ok := m.plain(x); ok {
		probe("comparison of plain values")
		return v, nil
	}
	doc := "{" + strings.Join(members, ",") + "}"
	key := leaf.String() + "\x00" + doc
	if v, ok := m.memo[key]; ok {
		return v, nil
	}
	m.leafs++
	e, err := leaf.expr()
	if err != nil {
		return false, err
	}
	var fm interface {
		Match([]byte) (bool, error)
	}
	if m.slow {
		fm = g.NewSlowMatcher([]g.Expression{e})
	} else {
		var t g.Transformer
		fm = g.NewFastMatcher(t.Transform([]g.Expression{e}))
	}
	v, err := fm.Match([]byte(doc))
	if err != nil {
		return false, fmt.Errorf("test %s over %s: %v", leaf, doc, err)
	}
	m.memo[key] = v
	return v, nil
}

// plain evaluates comparisons whose outcome is beyond question: of two numbers that every
// host represents exactly enough, two strings of plain characters, or two booleans.
func (m *model) plain(x *X) (res, ok bool) {
	var raw [2]string
	var node [2]*JNode
	if len(x.Kids) != 2 {
		return false, false
	}
	for i, k := range x.Kids {
		switch k.Op {
		case "field":
			n := m.resolve(k)
			if n == nil {
				return false, false
			}
			node[i] = n
			raw[i] = n.Raw
			if n.K != 'l' {
				raw[i] = n.Text()
			}
		case "value":
			raw[i] = k.Lit
		default:
			return false, false
		}
	}
	c := 0
	if node[0] != nil && node[1] != nil && node[0].K != 'l' && node[0].K == node[1].K {
		// Of objects and arrays it is beyond question that the same text is the same
		// value, and that different values are not equal.
		probe("comparison of whole objects or arrays")
		if raw[0] != raw[1] {
			var a, b any
			if json.Unmarshal([]byte(raw[0]), &a) != nil || json.Unmarshal([]byte(raw[1]), &b) != nil {
				return false, false
			}
			return false, x.Op == "equals" && !reflect.DeepEqual(a, b)
		}
	} else if raw[0] == "null" && raw[1] == "null" {
		return true, x.Op == "equals"
	} else {
		for i := range raw {
			raw[i] = unescaped(raw[i])
		}
	}
	switch {
	case node[0] != nil && node[0].K != 'l':
		if node[1] == nil || node[0].K != node[1].K {
			return false, false
		}
	case plainNumber(raw[0]) && plainNumber(raw[1]):
		a, _ := strconv.ParseFloat(raw[0], 64)
		b, _ := strconv.ParseFloat(raw[1], 64)
		if a < b {
			c = -1
		} else if a > b {
			c = 1
		}
	case plainString(raw[0]) && plainString(raw[1]):
		if (raw[0][0] == 0 || raw[1][0] == 0) && x.Op != "equals" {
			return false, false
		}
		c = strings.Compare(raw[0][1:len(raw[0])-1], raw[1][1:len(raw[1])-1])
	case (raw[0] == "true" || raw[0] == "false") && (raw[1] == "true" || raw[1] == "false"):
		if x.Op != "equals" {
			return false, false
		}
		return raw[0] == raw[1], true
	default:
		return false, false
	}
	switch x.Op {
	case "equals":
		return c == 0, true
	case "lessthan":
		return c < 0, true
	case "lessequals":
		return c <= 0, true
	case "greaterthan":
		return c > 0, true
	case "greaterequals":
		return c >= 0, true
	}
	return false, false
}

// unescaped is a string without the escapes that every parser knows.
func unescaped(s string) string {
	if len(s) < 2 || s[0] != '"' || !strings.Contains(s, `\`) {
		return s
	}
	for i := 1; i < len(s)-1; i++ {
		if s[i] >= 0x7f || s[i] < 0x20 {
			return s
		}
	}
	var t string
	if json.Unmarshal([]byte(s), &t) != nil {
		return s
	}
	for i := 0; i < len(t); i++ {
		if t[i] >= 0x7f || t[i] < 0x20 && t[i] != '\t' && t[i] != '\n' {
			return s
		}
	}
	probe("strings with escapes compared")
	return "\x00" + t + "\x00"
}

func plainNumber(s string) bool {
	if strings.HasPrefix(s, "-") {
		s = s[1:]
	}
	if i := strings.IndexByte(s, '.'); len(s) == 0 || len(s) > 15 || i >= 0 && len(s)-i > 6 || len(s) > 1 && s[0] == '0' && s[1] != '.' {
		return false
	}
	dot := false
	for i := 0; i < len(s); i++ {
		if s[i] == '.' && !dot && i > 0 && i < len(s)-1 {
			dot = true
		} else if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func plainString(s string) bool {
	if len(s) >= 2 && s[0] == 0 {
		return true
	}
	if len(s) < 2 || s[0] != '"' {
		return false
	}
	for i := 1; i < len(s)-1; i++ {
		if c := s[i]; c < 0x20 || c > 0x7e || c == '"' || c == '\\' {
			return false
		}
	}
	return true
}

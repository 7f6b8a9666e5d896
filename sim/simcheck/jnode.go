//go:build go1.24

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/couchbaselabs/gojsonsm/simrt"
)

// JNode is a JSON value with the exact text it has in its document. The reader is
// strict and independent of the code under test.
type JNode struct {
	K     byte     // 'o', 'a' or 'l'
	Raw   string   // literals: their text
	Keys  []string // objects: the names as written, without quotes
	Kids  []*JNode
	Start int // where it stands in the document it was read from
	End   int
	Src   string

	Frozen bool // its text is to stay as it is
}

func (n *JNode) Text() string { return n.Src[n.Start:n.End] }

func keyName(raw string) string {
	if !strings.Contains(raw, "\\") {
		return raw
	}
	var s string
	if err := json.Unmarshal([]byte(`"`+raw+`"`), &s); err != nil {
		return raw
	}
	return s
}

func parseJNode(src string) (*JNode, error) {
	p := &jparser{s: src}
	p.ws()
	n, err := p.value(0)
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.i != len(src) {
		return nil, errors.New("trailing text")
	}
	return n, nil
}

type jparser struct {
	s string
	i int
}

func (p *jparser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t' || p.s[p.i] == '\n' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *jparser) str() (string, error) {
	if p.i >= len(p.s) || p.s[p.i] != '"' {
		return "", errors.New("expected string")
	}
	st := p.i
	for p.i++; p.i < len(p.s); p.i++ {
		switch p.s[p.i] {
		case '\\':
			p.i++
		case '"':
			p.i++
			raw := p.s[st:p.i]
			if !json.Valid([]byte(raw)) {
				return "", errors.New("bad string")
			}
			return raw, nil
		}
	}
	return "", errors.New("unterminated string")
}

func (p *jparser) value(depth int) (*JNode, error) {
	if depth > 5000 {
		return nil, errors.New("too deep")
	}
	if p.i >= len(p.s) {
		return nil, errors.New("expected value")
	}
	n := &JNode{Start: p.i, Src: p.s}
	switch c := p.s[p.i]; {
	case c == '{':
		n.K = 'o'
		p.i++
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == '}' {
			p.i++
			break
		}
		for {
			p.ws()
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.i >= len(p.s) || p.s[p.i] != ':' {
				return nil, errors.New("expected :")
			}
			p.i++
			p.ws()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			n.Keys = append(n.Keys, k[1:len(k)-1])
			n.Kids = append(n.Kids, v)
			p.ws()
			if p.i < len(p.s) && p.s[p.i] == ',' {
				p.i++
				continue
			}
			if p.i < len(p.s) && p.s[p.i] == '}' {
				p.i++
				break
			}
			return nil, errors.New("expected , or }")
		}
	case c == '[':
		n.K = 'a'
		p.i++
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == ']' {
			p.i++
			break
		}
		for {
			p.ws()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, v)
			p.ws()
			if p.i < len(p.s) && p.s[p.i] == ',' {
				p.i++
				continue
			}
			if p.i < len(p.s) && p.s[p.i] == ']' {
				p.i++
				break
			}
			return nil, errors.New("expected , or ]")
		}
	case c == '"':
		raw, err := p.str()
		if err != nil {
			return nil, err
		}
		n.K, n.Raw = 'l', raw
	default:
		st := p.i
		for p.i < len(p.s) && !strings.ContainsRune(" \t\r\n,]}:", rune(p.s[p.i])) {
			p.i++
		}
		raw := p.s[st:p.i]
		if !json.Valid([]byte(raw)) {
			return nil, fmt.Errorf("bad literal %q", raw)
		}
		n.K, n.Raw = 'l', raw
	}
	n.End = p.i
	return n, nil
}

// wsStyle decides the white space between tokens.
type wsStyle struct {
	r    *simrt.Rng
	rate int  // one in rate places gets some; 0: none
	long bool // some of it is long
}

func (w wsStyle) put(sb *strings.Builder) {
	if w.rate == 0 || !w.r.Chance(1, w.rate) {
		return
	}
	k := 1 + w.r.Intn(3)
	if w.long && w.r.Chance(1, 6) {
		k = 4 + w.r.Intn([]int{16, 80, 600}[w.r.Intn(3)])
	}
	for ; k > 0; k-- {
		sb.WriteByte(" \n\t\r "[w.r.Intn(5)])
	}
}

func renderJ(n *JNode, w wsStyle) string {
	var sb strings.Builder
	w.put(&sb)
	renderJTo(&sb, n, w)
	w.put(&sb)
	return sb.String()
}

func renderJTo(sb *strings.Builder, n *JNode, w wsStyle) {
	if n.Frozen {
		sb.WriteString(n.Text())
		return
	}
	switch n.K {
	case 'l':
		sb.WriteString(n.Raw)
	case 'o':
		sb.WriteByte('{')
		for i, k := range n.Keys {
			if i > 0 {
				sb.WriteByte(',')
			}
			w.put(sb)
			sb.WriteString(`"` + k + `"`)
			w.put(sb)
			sb.WriteByte(':')
			w.put(sb)
			renderJTo(sb, n.Kids[i], w)
			w.put(sb)
		}
		if len(n.Keys) == 0 {
			w.put(sb)
		}
		sb.WriteByte('}')
	case 'a':
		sb.WriteByte('[')
		for i, v := range n.Kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			w.put(sb)
			renderJTo(sb, v, w)
			w.put(sb)
		}
		if len(n.Kids) == 0 {
			w.put(sb)
		}
		sb.WriteByte(']')
	}
}

// permuteJ returns a copy in which the members of every object arrive in another order.
func permuteJ(n *JNode, r *simrt.Rng) *JNode {
	c := *n
	c.Kids = make([]*JNode, len(n.Kids))
	for i, k := range n.Kids {
		c.Kids[i] = permuteJ(k, r)
	}
	if n.K == 'o' {
		c.Keys = append([]string(nil), n.Keys...)
		switch r.Intn(4) {
		case 0: // as it is
		case 1:
			for i, j := 0, len(c.Keys)-1; i < j; i, j = i+1, j-1 {
				c.Keys[i], c.Keys[j] = c.Keys[j], c.Keys[i]
				c.Kids[i], c.Kids[j] = c.Kids[j], c.Kids[i]
			}
		default:
			for i := len(c.Keys) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				c.Keys[i], c.Keys[j] = c.Keys[j], c.Keys[i]
				c.Kids[i], c.Kids[j] = c.Kids[j], c.Kids[i]
			}
		}
	}
	return &c
}

func (n *JNode) count() int {
	c := 1
	for _, k := range n.Kids {
		c += k.count()
	}
	return c
}

// uniqueNames tells whether no object has two members of the same name.
func (n *JNode) uniqueNames() bool {
	seen := map[string]bool{}
	for _, k := range n.Keys {
		nm := keyName(k)
		if seen[nm] {
			return false
		}
		seen[nm] = true
	}
	for _, k := range n.Kids {
		if !k.uniqueNames() {
			return false
		}
	}
	return true
}

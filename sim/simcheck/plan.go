//go:build go1.24

package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"strings"
	"unicode/utf8"

	"github.com/couchbaselabs/gojsonsm/simrt"
)

// Blob is text in JSON that need not be valid UTF-8.
type Blob string

func (b Blob) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(b)) && !strings.HasPrefix(string(b), "base64:") {
		return json.Marshal(string(b))
	}
	return json.Marshal("base64:" + base64.StdEncoding.EncodeToString([]byte(b)))
}

func (b *Blob) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	if strings.HasPrefix(s, "base64:") {
		x, err := base64.StdEncoding.DecodeString(s[7:])
		if err != nil {
			return err
		}
		*b = Blob(x)
		return nil
	}
	*b = Blob(s)
	return nil
}

// Filter is a filter as it is stored: its texts are all that survives a restart.
type Filter struct {
	Kind  string `json:"kind"` // json, text, simple, slow
	Exprs []Blob `json:"exprs"`
	Late  bool   `json:"late,omitempty"` // callers compile it themselves, it is not there before
}

// Op is one call (or fault) of a caller task.
type Op struct {
	K     string   `json:"k"`
	M     int      `json:"m,omitempty"`
	F     int      `json:"f,omitempty"`
	D     int      `json:"d,omitempty"`
	Fault []Fault  `json:"fault,omitempty"`
	Names []string `json:"names,omitempty"`
	N     int      `json:"n,omitempty"`
	Flag  bool     `json:"flag,omitempty"`
}

type TaskPlan struct {
	Ops []Op `json:"ops"`
}

// Plan is one run as data. Executing it is a pure function of the plan and the code.
type Plan struct {
	Property string      `json:"property"`
	Kind     string      `json:"kind"`
	Race     bool        `json:"race,omitempty"`
	Run      uint64      `json:"run"`
	Seed     uint64      `json:"seed"`
	Filters  []Filter    `json:"filters,omitempty"`
	Docs     []Blob      `json:"docs,omitempty"`
	Tasks    []TaskPlan  `json:"tasks,omitempty"`
	Host     simrt.Env   `json:"host"`
	Hosts    []simrt.Env `json:"hosts,omitempty"`
	Sched    simrt.Sched `json:"sched"`
	Cuts     []int       `json:"cuts,omitempty"`
	Variants []uint64    `json:"variants,omitempty"`
	N        int         `json:"n,omitempty"`
	CrashAt  int64       `json:"crashAt,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// Violation is a broken property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Where  string `json:"where,omitempty"`
}

func (v *Violation) Error() string { return v.Class + ": " + v.Detail }

var errStop = errors.New("stop")

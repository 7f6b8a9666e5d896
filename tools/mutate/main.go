// Command mutate lists small changes to the Go files of a directory, as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Mutant struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Kind string `json:"kind"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Old  string `json:"old"`
	New  string `json:"new"`
}

func main() {
	dir := os.Args[1]
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	id := 0
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range files {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		src, _ := os.ReadFile(fn)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		skip := false
		for _, c := range f.Comments {
			if strings.HasPrefix(c.Text(), "+build") || strings.Contains(c.List[0].Text, "go:build") || strings.Contains(c.List[0].Text, "+build") {
				skip = true
			}
		}
		if skip {
			continue
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		cur := ""
		emit := func(kind string, from, to token.Pos, repl string) {
			a, b := off(from), off(to)
			if cur == "" {
				return
			}
			id++
			enc.Encode(Mutant{id, filepath.Base(fn), fs.Position(from).Line, cur, kind, a, b, string(src[a:b]), repl})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Body == nil {
					return false
				}
				cur = n.Name.Name
				if n.Name.Name == "String" {
					return false
				}
				ast.Inspect(n.Body, visit)
				cur = ""
				return false
			case *ast.BinaryExpr:
				op := n.Op.String()
				repl := map[string][]string{"==": {"!="}, "!=": {"=="}, "<": {"<=", ">="}, "<=": {"<"}, ">": {">="}, ">=": {">"}, "&&": {"||"}, "||": {"&&"}, "+": {"-"}, "-": {"+"}}[op]
				for _, r := range repl {
					emit("op", n.OpPos, n.OpPos+token.Pos(len(op)), r)
				}
				if op == "&&" || op == "||" {
					emit("drop-lhs", n.Pos(), n.End(), text(n.Y))
					emit("drop-rhs", n.Pos(), n.End(), text(n.X))
				}
			case *ast.IfStmt:
				if n.Init == nil {
					emit("if-true", n.Cond.Pos(), n.Cond.End(), "true || "+"("+text(n.Cond)+")")
					emit("if-false", n.Cond.Pos(), n.Cond.End(), "false && "+"("+text(n.Cond)+")")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit("int", n.Pos(), n.End(), fmt.Sprint(v+1))
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "true":
							emit("ret", r.Pos(), r.End(), "false")
						case "false":
							emit("ret", r.Pos(), r.End(), "true")
						case "err":
							emit("ret", r.Pos(), r.End(), "nil")
						}
					}
				}
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					l := text(n.Lhs[0])
					_ = l
					// keep variables used
					uses := ""
					for _, r := range n.Rhs {
						uses += "_ = " + text(r) + "; "
					}
					if len(n.Rhs) == 1 && len(n.Lhs) > 1 {
						uses = ""
					}
					if uses != "" {
						emit("del-assign", n.Pos(), n.End(), uses)
					} else {
						emit("del-assign", n.Pos(), n.End(), "")
					}
				}
			case *ast.ExprStmt:
				emit("del-call", n.Pos(), n.End(), "")
			case *ast.IncDecStmt:
				emit("del-inc", n.Pos(), n.End(), "")
			case *ast.BranchStmt:
				if n.Tok == token.CONTINUE && n.Label == nil {
					emit("branch", n.Pos(), n.End(), "")
				}
				if n.Tok == token.BREAK && n.Label == nil {
					emit("branch", n.Pos(), n.End(), "")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit("slice-low", n.Low.Pos(), n.Low.End(), text(n.Low)+" + 1")
				}
				if n.High != nil {
					emit("slice-high", n.High.Pos(), n.High.End(), text(n.High)+" - 1")
				}
				if n.High != nil && n.Low == nil {
					if l, ok := n.High.(*ast.BasicLit); ok && l.Value == "0" {
						emit("no-truncate", n.Pos(), n.End(), text(n.X))
					}
				}
			case *ast.CaseClause:
				if len(n.Body) > 0 && len(n.List) > 0 {
					emit("empty-case", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
				}
			}
			return true
		}
		for _, d := range f.Decls {
			ast.Inspect(d, visit)
		}
	}
}

// Command gen writes an instrumented copy of a Go package: a call of the simulator
// before every statement, and the simulator's versions of goroutines, locks, the
// clock, randomness, the environment and map iteration in place of the real ones.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const rt = "simrt"
const rtPath = "github.com/couchbaselabs/gojsonsm/simrt"

type edit struct {
	off, end int // replaces [off,end)
	text     string
	seq      int
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	base  int
	edits []edit
	tail  strings.Builder
	used  bool
}

type gen struct {
	fset   *token.FileSet
	files  []*file
	info   *types.Info
	pkg    *types.Package
	sites  []string
	labels map[ast.Node]string
	tmp    int
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gen: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "/repo", "package to instrument")
	out := flag.String("out", "", "directory of the module to write the copy to (has go.mod)")
	flag.Parse()

	ctx := build.Default
	ents, err := os.ReadDir(*src)
	if err != nil {
		fatal("%v", err)
	}
	g := &gen{fset: token.NewFileSet()}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		ok, err := ctx.MatchFile(*src, n)
		if err != nil {
			fatal("%v", err)
		}
		if !ok {
			continue
		}
		b, err := os.ReadFile(filepath.Join(*src, n))
		if err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(filepath.Join(*out, n), b, 0644); err != nil {
			fatal("%v", err)
		}
		af, err := parser.ParseFile(g.fset, n, b, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		g.files = append(g.files, &file{name: n, src: b, ast: af, base: g.fset.File(af.Pos()).Base()})
	}
	if len(g.files) == 0 {
		fatal("no Go files in %s", *src)
	}

	// Types of the imports come from the export data of the build cache.
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export", ".")
	cmd.Dir = *out
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Run(); err != nil {
		fatal("go list: %v\n%s", err, eb.String())
	}
	exp := map[string]string{}
	dec := json.NewDecoder(&ob)
	for {
		var p struct{ ImportPath, Export string }
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		exp[p.ImportPath] = p.Export
	}
	imp := importer.ForCompiler(g.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	g.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, GoVersion: "go1.21"}
	var afs []*ast.File
	for _, f := range g.files {
		afs = append(afs, f.ast)
	}
	g.pkg, err = conf.Check("github.com/couchbaselabs/gojsonsm", g.fset, afs, g.info)
	if err != nil {
		fatal("%v", err)
	}

	g.sites = append(g.sites, "synchronisation")
	for _, f := range g.files {
		g.instrument(f)
	}
	g.resets()

	for _, f := range g.files {
		text := f.render(0, len(f.src))
		if f.used {
			// Behind the package clause, on its line.
			end := int(f.ast.Name.End()) - f.base
			head := f.render(0, end)
			text = head + "; import " + rt + " \"" + rtPath + "\"; var _ = " + rt + ".Y" + text[len(head):]
			// An import declaration has to come first: the var goes to the end instead.
			text = strings.Replace(text, "; var _ = "+rt+".Y", "", 1)
			text += "\nvar _ = " + rt + ".Y\n"
		}
		text += f.tail.String()
		if err := os.WriteFile(filepath.Join(*out, f.name), []byte(text), 0644); err != nil {
			fatal("%v", err)
		}
	}
	var sb strings.Builder
	sb.WriteString("package simrt\n\nvar Sites = []string{\n")
	for _, s := range g.sites {
		fmt.Fprintf(&sb, "\t%q,\n", s)
	}
	sb.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(*out, "simrt", "sites.go"), []byte(sb.String()), 0644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("instrumented %d files, %d sites\n", len(g.files), len(g.sites)-1)
}

func (f *file) off(p token.Pos) int { return int(p) - f.base }

func (f *file) insert(p token.Pos, text string) {
	o := f.off(p)
	f.edits = append(f.edits, edit{o, o, text, len(f.edits)})
}

func (f *file) replace(from, to token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(from), f.off(to), text, len(f.edits)})
}

// render returns the source in [from,to) with the edits in it applied. An edit that
// lies within a replaced range was rendered by whoever made the replacement.
func (f *file) render(from, to int) string {
	es := make([]edit, 0)
	for _, e := range f.edits {
		if e.off >= from && e.end <= to && !(e.off == to && from != to && e.off == e.end && to != len(f.src)) {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		if (es[i].off == es[i].end) != (es[j].off == es[j].end) {
			return es[i].off == es[i].end
		}
		if es[i].end != es[j].end {
			return es[i].end > es[j].end // the outermost replacement first
		}
		return es[i].seq < es[j].seq
	})
	var sb strings.Builder
	pos := from
	for _, e := range es {
		if e.off < pos {
			continue
		}
		sb.Write(f.src[pos:e.off])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(f.src[pos:to])
	return sb.String()
}

func (g *gen) site(f *file, p token.Pos, fn string) int {
	pos := g.fset.Position(p)
	g.sites = append(g.sites, fmt.Sprintf("%s:%d %s", f.name, pos.Line, fn))
	f.used = true
	return len(g.sites) - 1
}

var timeFns = map[string]string{"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc", "Tick": "Tick", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "LoadLocation": "LoadLocation", "Timer": "Timer", "Ticker": "Ticker"}
var osFns = map[string]string{"Getenv": "Getenv", "LookupEnv": "LookupEnv", "Hostname": "Hostname", "Getpid": "Getpid", "Getppid": "Getpid", "Getuid": "Getuid", "Getgid": "Getuid", "Geteuid": "Getuid", "Getegid": "Getuid",
	"Environ": "Environ", "Getwd": "Getwd", "UserHomeDir": "Getwd", "UserCacheDir": "Getwd", "UserConfigDir": "Getwd", "Executable": "Getwd", "TempDir": "TempDir", "Getpagesize": "Getpagesize", "Stat": "Stat", "Lstat": "Stat", "ReadFile": "ReadFile"}
var runtimeFns = map[string]string{"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "NumGoroutine": "NumGoroutine", "Gosched": "Gosched", "ReadMemStats": "ReadMemStats"}

func (g *gen) instrument(f *file) {
	// Some imports become the simulator's.
	for _, is := range f.ast.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		ours := map[string][2]string{"sync": {"sync", "ssync"}, "hash/maphash": {"maphash", "smaphash"}, "crypto/rand": {"rand", "scrand"}}[path]
		if ours[0] == "" {
			continue
		}
		from, name := is.Path.Pos(), ours[0]
		if is.Name != nil {
			from, name = is.Name.Pos(), is.Name.Name
		}
		f.replace(from, is.Path.End(), name+" \""+rtPath+"/"+ours[1]+"\"")
	}
	keep := map[string]string{}

	// The innermost statements first, so that replacements can render what is in them.
	fnName := func(stack []ast.Node) string {
		name := ""
		for _, n := range stack {
			if d, ok := n.(*ast.FuncDecl); ok {
				name = d.Name.Name
				if d.Recv != nil && len(d.Recv.List) == 1 {
					t := d.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if id, ok := t.(*ast.Ident); ok {
						name = id.Name + "." + name
					}
				}
			}
		}
		return name
	}
	var stack []ast.Node
	var post func(n ast.Node)
	stmts := func(list []ast.Stmt) {
		fn := fnName(stack)
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			f.insert(s.Pos(), fmt.Sprintf("%s.Y(%d); ", rt, g.site(f, s.Pos(), fn)))
		}
	}
	post = func(n ast.Node) {
		switch n := n.(type) {
		case *ast.BlockStmt:
			// The clauses of a switch are no statements of their own.
			if len(stack) > 0 {
				switch stack[len(stack)-1].(type) {
				case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
					return
				}
			}
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				f.insert(n.Body.Lbrace+1, fmt.Sprintf(" %s.Y(%d); ", rt, g.site(f, n.Pos(), fnName(stack))))
			}
		case *ast.RangeStmt:
			g.rangeStmt(f, n)
		case *ast.SelectorExpr:
			if n.Sel.Name == "MapKeys" && g.info.Selections[n] != nil && fmt.Sprint(g.info.Selections[n].Recv()) == "reflect.Value" {
				f.replace(n.Pos(), n.End(), rt+".ReflectMapKeys("+f.render(f.off(n.X.Pos()), f.off(n.X.End()))+")")
				f.used = true
				return
			}
			id, ok := n.X.(*ast.Ident)
			if !ok {
				return
			}
			pn, ok := g.info.Uses[id].(*types.PkgName)
			if !ok {
				return
			}
			name := ""
			switch pn.Imported().Path() {
			case "time":
				name = timeFns[n.Sel.Name]
			case "os":
				name = osFns[n.Sel.Name]
			case "maps":
				if n.Sel.Name == "Keys" || n.Sel.Name == "Values" || n.Sel.Name == "All" {
					name = "Maps" + n.Sel.Name
				}
			case "context":
				if n.Sel.Name == "WithTimeout" || n.Sel.Name == "WithDeadline" {
					name = n.Sel.Name
				}
			case "runtime":
				name = runtimeFns[n.Sel.Name]
			case "math/rand", "math/rand/v2":
				if _, ok := g.info.Uses[n.Sel].(*types.Func); ok {
					switch n.Sel.Name {
					case "Int", "Intn", "Int63", "Int63n", "Int31", "Int31n", "Uint32", "Uint64", "Float64", "Float32", "IntN", "Int64", "Int64N", "Int32", "Int32N", "Uint32N", "Uint64N", "UintN", "Perm", "Shuffle":
						name = "Rand" + n.Sel.Name
					}
				}
			}
			if name != "" {
				f.replace(n.Pos(), n.End(), rt+"."+name)
				f.used = true
				keep[id.Name] = id.Name + "." + n.Sel.Name
				if pn.Imported().Path() == "maps" {
					keep[id.Name] += "[map[int]int]"
				}
				if _, ok := g.info.Uses[n.Sel].(*types.TypeName); ok {
					keep[id.Name] = "new(" + id.Name + "." + n.Sel.Name + ")"
				}
			}
		case *ast.GoStmt:
			g.goStmt(f, n)
		case *ast.SendStmt:
			if len(stack) > 0 {
				if _, ok := stack[len(stack)-1].(*ast.CommClause); ok {
					return
				}
			}
			ch := f.render(f.off(n.Chan.Pos()), f.off(n.Chan.End()))
			v := f.render(f.off(n.Value.Pos()), f.off(n.Value.End()))
			f.replace(n.Pos(), n.End(), rt+".Send("+ch+")("+v+")")
			f.used = true
		case *ast.UnaryExpr:
			if n.Op != token.ARROW {
				return
			}
			fnc := ".Recv("
			for i := len(stack) - 1; i >= 0; i-- {
				switch s := stack[i].(type) {
				case *ast.CommClause:
					if s.Comm != nil && commRecv(s) == n {
						return
					}
				case *ast.AssignStmt:
					if len(s.Lhs) == 2 && len(s.Rhs) == 1 && s.Rhs[0] == ast.Expr(n) {
						fnc = ".Recv2("
					}
				case *ast.ValueSpec:
					if len(s.Names) == 2 && len(s.Values) == 1 && s.Values[0] == ast.Expr(n) {
						fnc = ".Recv2("
					}
				}
			}
			f.replace(n.Pos(), n.End(), rt+fnc+f.render(f.off(n.X.Pos()), f.off(n.X.End()))+")")
			f.used = true
		case *ast.BinaryExpr:
			if n.Op == token.ADD && g.length(n) == "LenS" {
				g.weigh(f, n.X)
				g.weigh(f, n.Y)
			}
		case *ast.CallExpr:
			g.weighCall(f, n)
			// Channels without a buffer get one: a rendezvous needs two running goroutines.
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "make" && len(n.Args) >= 1 {
				if b, ok := g.info.Uses[id].(*types.Builtin); ok && b.Name() == "make" {
					if _, ok := g.info.Types[n.Args[0]].Type.Underlying().(*types.Chan); ok {
						if len(n.Args) == 1 {
							f.insert(n.Rparen, ", 1")
						}
					}
				}
			}
		case *ast.SelectStmt:
			g.selectStmt(f, n, stack)
		case *ast.FuncDecl:
			if n.Recv == nil && n.Name.Name == "init" && n.Body != nil {
				g.tmp++
				nm := fmt.Sprintf("simUserInit%d", g.tmp)
				f.replace(n.Name.Pos(), n.Name.End(), nm)
				fmt.Fprintf(&f.tail, "\nfunc init() { %s() }\n", nm)
				userInits = append(userInits, nm)
			}
		}
	}
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		if n == nil {
			return
		}
		// Children first.
		stack = append(stack, n)
		for _, c := range children(n) {
			walk(c)
		}
		stack = stack[:len(stack)-1]
		post(n)
	}
	for _, d := range f.ast.Decls {
		walk(d)
	}
	var names []string
	for n := range keep {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&f.tail, "\nvar _ = %s\n", keep[n])
	}
}

var userInits []string

func children(n ast.Node) []ast.Node {
	var out []ast.Node
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		out = append(out, c)
		return false
	})
	return out
}

func (g *gen) rangeStmt(f *file, n *ast.RangeStmt) {
	if len(n.Body.List) == 0 {
		f.insert(n.Body.Lbrace+1, fmt.Sprintf(" %s.Y(%d); ", rt, g.site(f, n.Pos(), "range")))
	}
	tv, ok := g.info.Types[n.X]
	if !ok {
		return
	}
	x := func() string { return f.render(f.off(n.X.Pos()), f.off(n.X.End())) }
	switch t := tv.Type.Underlying().(type) {
	case *types.Map:
		g.tmp++
		e := fmt.Sprintf("simE%d", g.tmp)
		f.used = true
		body := "if !" + e + ".Live() { continue }; "
		blank := func(x ast.Expr) bool {
			if x == nil {
				return true
			}
			id, ok := x.(*ast.Ident)
			return ok && id.Name == "_"
		}
		if !blank(n.Key) {
			body += f.render(f.off(n.Key.Pos()), f.off(n.Key.End())) + " " + n.Tok.String() + " " + e + ".Key; "
		}
		if !blank(n.Value) {
			body += f.render(f.off(n.Value.Pos()), f.off(n.Value.End())) + " " + n.Tok.String() + " " + e + ".Val(); "
		}
		from := n.For
		f.replace(from, n.Body.Lbrace, "for _, "+e+" := range "+rt+".MapRange("+x()+") ")
		f.insert(n.Body.Lbrace+1, body)
		// The insertion has to come before the steps of the body.
		f.edits[len(f.edits)-1].seq = -1
	case *types.Chan:
		_ = t
		g.tmp++
		v, ok := fmt.Sprintf("simV%d", g.tmp), fmt.Sprintf("simOK%d", g.tmp)
		f.used = true
		body := v + ", " + ok + " := " + rt + ".Recv2(" + x() + "); if !" + ok + " { break }; "
		if n.Key != nil {
			if id, isID := n.Key.(*ast.Ident); !isID || id.Name != "_" {
				body += f.render(f.off(n.Key.Pos()), f.off(n.Key.End())) + " " + n.Tok.String() + " " + v + "; "
			} else {
				body += "_ = " + v + "; "
			}
		} else {
			body += "_ = " + v + "; "
		}
		f.replace(n.For, n.Body.Lbrace, "for ")
		f.insert(n.Body.Lbrace+1, body)
		f.edits[len(f.edits)-1].seq = -1
	}
}

func (g *gen) goStmt(f *file, n *ast.GoStmt) {
	f.used = true
	call := n.Call
	fun := f.render(f.off(call.Fun.Pos()), f.off(call.Fun.End()))
	tv := g.info.Types[call.Fun]
	if tv.IsBuiltin() {
		f.replace(n.Pos(), n.End(), rt+".Go(func() { "+f.render(f.off(call.Pos()), f.off(call.End()))+" })")
		return
	}
	g.tmp++
	k := g.tmp
	var names, vals []string
	for i, a := range call.Args {
		names = append(names, fmt.Sprintf("simA%d_%d", k, i))
		vals = append(vals, f.render(f.off(a.Pos()), f.off(a.End())))
	}
	if len(call.Args) == 1 {
		if tup, ok := g.info.Types[call.Args[0]].Type.(*types.Tuple); ok && tup.Len() > 1 {
			names = nil
			for i := 0; i < tup.Len(); i++ {
				names = append(names, fmt.Sprintf("simA%d_%d", k, i))
			}
		}
	}
	text := "{ "
	callee := fun
	if _, ok := call.Fun.(*ast.FuncLit); !ok {
		text += fmt.Sprintf("simF%d := %s; ", k, fun)
		callee = fmt.Sprintf("simF%d", k)
	}
	// Typed arguments, so that untyped constants and nil get the type of the parameter.
	args := ""
	if len(names) > 0 {
		sig, _ := tv.Type.Underlying().(*types.Signature)
		simple := sig != nil && !sig.Variadic() && sig.Params().Len() == len(names)
		if simple && len(vals) == len(names) {
			for i := range names {
				if av := g.info.Types[call.Args[i]]; av.Value != nil || av.IsNil() {
					names[i] = vals[i]
				} else {
					text += names[i] + " := " + vals[i] + "; "
				}
			}
		} else {
			text += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
		}
		args = strings.Join(names, ", ")
		if call.Ellipsis.IsValid() {
			args += "..."
		}
	}
	text += rt + ".Go(func() { " + callee + "(" + args + ") }) }"
	f.replace(n.Pos(), n.End(), text)
}

// length is the function which books the length of the value, if it has one.
func (g *gen) length(e ast.Expr) string {
	tv, ok := g.info.Types[e]
	if !ok || tv.Value != nil || tv.Type == nil || !tv.IsValue() {
		return ""
	}
	if _, ok := tv.Type.(*types.TypeParam); ok {
		return ""
	}
	switch t := tv.Type.Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.String {
			return "LenS"
		}
	case *types.Slice:
		return "LenB"
	}
	return ""
}

func (g *gen) weigh(f *file, e ast.Expr) {
	if fn := g.length(e); fn != "" {
		f.replace(e.Pos(), e.End(), rt+"."+fn+"("+f.render(f.off(e.Pos()), f.off(e.End()))+")")
		f.used = true
	}
}

// weighCall books the work which functions of other packages, copies and conversions do
// between two steps, as far as the length of their arguments tells it.
func (g *gen) weighCall(f *file, n *ast.CallExpr) {
	fun := ast.Unparen(n.Fun)
	if tv, ok := g.info.Types[fun]; ok && tv.IsType() {
		if len(n.Args) != 1 {
			return
		}
		a, ok := g.info.Types[n.Args[0]]
		if !ok || a.Type == nil {
			return
		}
		_, from := a.Type.Underlying().(*types.Slice)
		_, to := tv.Type.Underlying().(*types.Slice)
		if from != to {
			g.weigh(f, n.Args[0])
		}
		return
	}
	var id *ast.Ident
	switch fun := fun.(type) {
	case *ast.Ident:
		id = fun
	case *ast.SelectorExpr:
		id = fun.Sel
	default:
		return
	}
	switch o := g.info.Uses[id].(type) {
	case *types.Builtin:
		switch o.Name() {
		case "copy":
			f.replace(n.Pos(), n.End(), rt+".LenN("+f.render(f.off(n.Pos()), f.off(n.End()))+")")
			f.used = true
		case "append":
			if n.Ellipsis.IsValid() {
				g.weigh(f, n.Args[len(n.Args)-1])
			}
		}
	case *types.Func:
		if o.Pkg() == nil || o.Pkg() == g.pkg {
			return
		}
		sig, _ := o.Type().(*types.Signature)
		if sig == nil {
			return
		}
		switch kind := work(o.Pkg().Path(), o.Name(), sig.Recv() != nil); kind {
		case "":
		case "all":
			for _, a := range n.Args {
				g.weigh(f, a)
			}
		default:
			if len(n.Args) == 2 && !n.Ellipsis.IsValid() {
				f.replace(n.Lparen, n.Lparen+1, ", ")
				f.replace(n.Fun.Pos(), n.Fun.Pos(), rt+"."+kind+"(")
				f.used = true
			}
		}
	}
}

// work tells what a function of another package costs: all its arguments are long, as
// much of them as it had to search, or nothing that is known.
func work(pkg, name string, method bool) string {
	if method {
		switch name {
		case "Write", "WriteString":
			return "all"
		}
		return ""
	}
	switch pkg {
	case "bytes", "strings":
		switch name {
		case "Clone", "Count", "Replace", "ReplaceAll", "ToLower", "ToUpper", "ToTitle", "Title",
			"Map", "Runes", "Split", "SplitAfter", "Fields", "FieldsFunc", "ToValidUTF8":
			return "all"
		case "Index", "IndexByte", "IndexAny", "IndexRune", "IndexFunc":
			return "LenIndex"
		case "Contains", "ContainsAny", "ContainsRune":
			return "LenFound"
		}
	case "unicode/utf8":
		switch name {
		case "Valid", "ValidString", "RuneCount", "RuneCountInString":
			return "all"
		}
	case "encoding/json":
		switch name {
		case "Unmarshal", "Valid", "Compact", "Indent":
			return "all"
		}
	}
	if strings.HasPrefix(pkg, "hash/") || strings.HasPrefix(pkg, "crypto/") {
		return "all"
	}
	return ""
}

// commRecv is the receive expression of a clause of a select statement.
func commRecv(c *ast.CommClause) *ast.UnaryExpr {
	var e ast.Expr
	switch s := c.Comm.(type) {
	case *ast.ExprStmt:
		e = s.X
	case *ast.AssignStmt:
		e = s.Rhs[0]
	}
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.UnaryExpr:
			return x
		default:
			return nil
		}
	}
}

// selectStmt makes a select statement try its clauses one after another, in an order
// which the simulator decides.
func (g *gen) selectStmt(f *file, n *ast.SelectStmt, stack []ast.Node) {
	if len(n.Body.List) == 0 {
		f.replace(n.Pos(), n.End(), "for { "+rt+".Poll() }")
		f.used = true
		return
	}
	var other *ast.CommClause // default
	turn := fmt.Sprintf("simT%d", g.tmp+1)
	g.tmp++
	names, inits, clauses := []string{turn}, []string{}, 0
	src := func(e ast.Node) string { return f.render(f.off(e.Pos()), f.off(e.End())) }
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			other = c
			continue
		}
		g.tmp++
		nm := fmt.Sprintf("simC%d", g.tmp)
		names = append(names, nm)
		at := fmt.Sprintf("%s.At(%d)", turn, clauses)
		clauses++
		if send, ok := c.Comm.(*ast.SendStmt); ok {
			inits = append(inits, rt+".SendOp("+src(send.Chan)+", "+src(send.Value)+")")
			f.replace(send.Pos(), send.End(), nm+".Chan("+at+") <- "+nm+".V")
			continue
		}
		u := commRecv(c)
		inits = append(inits, rt+".RecvOp("+src(u.X)+")")
		f.replace(u.X.Pos(), u.X.End(), nm+".Chan("+at+")")
	}
	f.used = true
	var continues []*ast.BranchStmt
	leaves := false // by a break, or behind the end of a clause
	var walk func(n ast.Node, inLoop, inSwitch bool)
	walk = func(n ast.Node, inLoop, inSwitch bool) {
		switch n := n.(type) {
		case *ast.FuncLit:
			return
		case *ast.ForStmt, *ast.RangeStmt:
			inLoop = true
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			inSwitch = true
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE && n.Label == nil && !inLoop {
				continues = append(continues, n)
			}
			if n.Tok == token.BREAK && (n.Label != nil || !inLoop && !inSwitch) {
				leaves = true
			}
		}
		for _, c := range children(n) {
			walk(c, inLoop, inSwitch)
		}
	}
	for _, c := range n.Body.List {
		body := c.(*ast.CommClause).Body
		if len(body) == 0 {
			leaves = true
			continue
		}
		for _, s := range body {
			walk(s, false, false)
		}
		switch s := body[len(body)-1].(type) {
		case *ast.ReturnStmt:
		case *ast.BranchStmt:
		case *ast.ExprStmt:
			if call, ok := s.X.(*ast.CallExpr); ok {
				if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "panic" {
					break
				}
			}
			leaves = true
		default:
			leaves = true
		}
	}
	if len(continues) > 0 {
		// They mean the loop around the select, not the one that is added here.
		label := ""
	Stack:
		for i := len(stack) - 1; i >= 0; i-- {
			switch s := stack[i].(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				if i > 0 {
					if l, ok := stack[i-1].(*ast.LabeledStmt); ok {
						label = l.Label.Name
						break Stack
					}
				}
				if label = g.labels[s]; label == "" {
					g.tmp++
					label = fmt.Sprintf("simLoop%d", g.tmp)
					if g.labels == nil {
						g.labels = map[ast.Node]string{}
					}
					g.labels[s] = label
					f.insert(s.Pos(), label+": ")
					f.edits[len(f.edits)-1].seq = 1 << 30
				}
				break Stack
			}
		}
		for _, c := range continues {
			f.insert(c.End(), " "+label)
		}
	}
	f.insert(n.Pos(), fmt.Sprintf("for %s := %s.Select(%d)%s; ; { ", strings.Join(names, ", "), rt, clauses, strings.Join(append([]string{""}, inits...), ", ")))
	f.edits[len(f.edits)-1].seq = 1 << 29 // behind the step
	if other != nil {
		f.insert(other.Colon+1, " if "+turn+".More(false) { continue }; ")
		f.edits[len(f.edits)-1].seq = -1
	} else {
		f.insert(n.Body.Rbrace, "; default: "+turn+".More(true); continue; ")
	}
	if leaves {
		f.insert(n.End(), "; break }")
	} else {
		f.insert(n.End(), " }")
	}
}

// resets writes SimReset, which puts the package variables into the state in which a
// new process finds them.
func (g *gen) resets() {
	// Which variables may be written, or have their address taken, after initialisation?
	written := map[types.Object]bool{}
	root := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.Ident:
				return g.info.Uses[x]
			default:
				return nil
			}
		}
	}
	for _, f := range g.files {
		ast.Inspect(f.ast, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if o := root(l); o != nil {
						written[o] = true
					}
				}
			case *ast.IncDecStmt:
				if o := root(n.X); o != nil {
					written[o] = true
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					if o := root(n.X); o != nil {
						written[o] = true
					}
				}
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{n.Key, n.Value} {
					if l != nil {
						if o := root(l); o != nil {
							written[o] = true
						}
					}
				}
			case *ast.SliceExpr:
				if o := root(n.X); o != nil {
					written[o] = true
				}
			}
			return true
		})
	}
	// Values of these types can not change behind an unwritten variable.
	var frozen func(t types.Type) bool
	frozen = func(t types.Type) bool {
		if t.String() == "*regexp.Regexp" || t.String() == "error" {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Array:
			return frozen(u.Elem())
		case *types.Struct:
			if _, ok := t.(*types.Named); ok && t.(*types.Named).NumMethods() > 0 {
				return false
			}
			for i := 0; i < u.NumFields(); i++ {
				if !frozen(u.Field(i).Type()) {
					return false
				}
			}
			return true
		}
		return false
	}
	fileOf := func(p token.Pos) *file {
		for _, f := range g.files {
			if int(p) >= f.base && int(p) < f.base+len(f.src)+1 {
				return f
			}
		}
		return nil
	}
	var calls []string
	// Zero those without an initial value.
	for _, f := range g.files {
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				for _, id := range vs.Names {
					o := g.info.Defs[id]
					if id.Name == "_" || o == nil || (frozen(o.Type()) && !written[o]) {
						continue
					}
					g.tmp++
					nm := fmt.Sprintf("simZero%d", g.tmp)
					fmt.Fprintf(&f.tail, "\nfunc %s() { %s = *new(%s) }\n", nm, id.Name, f.render(f.off(vs.Type.Pos()), f.off(vs.Type.End())))
					calls = append(calls, nm)
				}
			}
		}
	}
	order := g.initOrder()
	for _, in := range order {
		skip := true
		var names []string
		for _, v := range in.Lhs {
			if v.Name() != "_" && !(frozen(v.Type()) && !written[v]) {
				skip = false
			}
			names = append(names, v.Name())
		}
		if skip && !g.hostDependent(in.Rhs) {
			continue
		}
		f := fileOf(in.Rhs.Pos())
		g.tmp++
		nm := fmt.Sprintf("simInit%d", g.tmp)
		fmt.Fprintf(&f.tail, "\nfunc %s() { %s = %s }\n", nm, strings.Join(names, ", "), f.render(f.off(in.Rhs.Pos()), f.off(in.Rhs.End())))
		calls = append(calls, nm)
	}
	calls = append(calls, userInits...)
	f := g.files[0]
	fmt.Fprintf(&f.tail, "\n// SimReset makes the package look as in a new process.\nfunc SimReset() {\n")
	for _, c := range calls {
		fmt.Fprintf(&f.tail, "\t%s()\n", c)
	}
	fmt.Fprintf(&f.tail, "}\n")
	// SimGlobals is for looking at what the package keeps.
	fmt.Fprintf(&f.tail, "\n// SimGlobals points to the package variables.\nfunc SimGlobals() []interface{} {\n\treturn []interface{}{")
	scope := g.pkg.Scope()
	for _, n := range scope.Names() {
		if _, ok := scope.Lookup(n).(*types.Var); ok && n != "_" {
			fmt.Fprintf(&f.tail, "&%s, ", n)
		}
	}
	fmt.Fprintf(&f.tail, "}\n}\n")
}

// hostDependent tells whether the initial value of a variable may be another one in
// another process: whether it comes from the host, or from a function of the package.
func (g *gen) hostDependent(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			found = true
		case *ast.Ident:
			o := g.info.Uses[n]
			if o == nil || o.Pkg() == nil {
				return true
			}
			switch o.(type) {
			case *types.Func, *types.Var:
			default:
				return true
			}
			switch o.Pkg().Path() {
			case "time", "os", "runtime", "math/rand", "math/rand/v2", "hash/maphash", "crypto/rand":
				found = true
			case g.pkg.Path():
				if _, ok := o.(*types.Func); ok {
					found = true
				}
				if v, ok := o.(*types.Var); ok && v.Parent() == g.pkg.Scope() {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func (g *gen) initOrder() []*types.Initializer { return g.info.InitOrder }

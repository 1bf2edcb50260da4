// Command instr rewrites the concurrency constructs of Go packages for package vsched and writes an
// overlay. Usage: instr OUTDIR PKG... ; prints the overlay file. Exit code 3: a construct is not supported.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	Module                        *struct{ GoVersion string }
}

type edit struct {
	from, to int
	text     string
	seq      int
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func unsupported(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: not supported: "+f+"\n", a...)
	os.Exit(3)
}

func list(args ...string) []pkgInfo {
	c := exec.Command("go", append([]string{"list", "-json=ImportPath,Dir,Export,Name,GoFiles,Module"}, args...)...)
	c.Stderr = os.Stderr
	b, err := c.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var out []pkgInfo
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := d.Decode(&p); err == io.EOF {
			return out
		} else if err != nil {
			die("go list: %v", err)
		}
		out = append(out, p)
	}
}

func main() {
	outDir, pkgs := os.Args[1], os.Args[2:]
	exports := map[string]string{}
	for _, p := range list(append([]string{"-export", "-deps"}, pkgs...)...) {
		exports[p.ImportPath] = p.Export
	}
	overlay := map[string]string{}
	for _, p := range list(pkgs...) {
		instrument(p, exports, outDir, overlay)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	f := filepath.Join(outDir, "overlay.json")
	if err := os.WriteFile(f, b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Println(f)
}

func instrument(p pkgInfo, exports map[string]string, outDir string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, g := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, g))
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
		srcs = append(srcs, b)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("%s: %v", p.ImportPath, err)
	}
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, src: srcs[i], file: f}
		text := r.run()
		name := filepath.Join(outDir, strings.ReplaceAll(p.ImportPath, "/", "_")+"__"+p.GoFiles[i])
		if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(p.Dir, p.GoFiles[i])] = name
	}
	var names []string
	for _, n := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && n != "_" {
			_ = v
			names = append(names, "&"+n)
		}
	}
	sort.Strings(names)
	reg := fmt.Sprintf("package %s\n\nimport verif_vsched \"verif.local/mc/vsched\"\n\nfunc init() {\n\tverif_vsched.Register(%q, %s)\n}\n", p.Name, p.ImportPath, strings.Join(names, ", "))
	name := filepath.Join(outDir, strings.ReplaceAll(p.ImportPath, "/", "_")+"__verif_register.go")
	if err := os.WriteFile(name, []byte(reg), 0o644); err != nil {
		die("%v", err)
	}
	overlay[filepath.Join(p.Dir, "zz_verif_register.go")] = name
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	file  *ast.File
	edits []edit
	n     int
	inSel map[ast.Node]bool
	used  bool
	kept  map[string]bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) replace(from, to token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(from), r.off(to), text, len(r.edits)})
	r.used = true
}

func (r *rewriter) insert(at token.Pos, text string) { r.replace(at, at, text) }

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) where(n ast.Node) string { return r.fset.Position(n.Pos()).String() }

// pure reports whether an expression contains nothing that is rewritten.
func pure(e ast.Node) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.UnaryExpr:
			ok = ok && u.Op != token.ARROW
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		}
		return ok
	})
	return ok
}

var okTime = map[string]bool{"Duration": true, "Millisecond": true, "Second": true, "Microsecond": true, "Nanosecond": true, "Minute": true, "Hour": true,
	"Now": true, "Time": true, "Since": true, "RFC3339": true, "Unix": true, "Month": true, "Weekday": true, "UTC": true, "Local": true, "Date": true, "Sleep": true}

func (r *rewriter) run() string {
	const V = "verif_vsched."
	r.inSel = map[ast.Node]bool{}
	for _, im := range r.file.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		sub := ""
		switch path {
		case "sync":
			sub = "verif.local/mc/vsync"
		case "sync/atomic":
			sub = "verif.local/mc/vatomic"
		case "context", "golang.org/x/sync/errgroup", "golang.org/x/sync/singleflight", "golang.org/x/sync/semaphore", "os/signal":
			unsupported("%s imports %s", r.where(im), path)
		}
		if sub != "" {
			if im.Name != nil {
				if im.Name.Name == "." {
					unsupported("%s: dot import", r.where(im))
				}
				r.replace(im.Path.Pos(), im.Path.End(), fmt.Sprintf("%q", sub))
			} else {
				n := path[strings.LastIndex(path, "/")+1:]
				r.replace(im.Path.Pos(), im.Path.End(), fmt.Sprintf("%s %q", n, sub))
			}
		}
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			if id, ok := x.Call.Fun.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.Builtin); ok {
					unsupported("%s: go with a builtin", r.where(x))
				}
			}
			r.replace(x.Go, x.Call.Fun.Pos(), V+"Wrap(")
			r.insert(x.Call.Fun.End(), ")")
		case *ast.SendStmt:
			if r.inSel[x] {
				return true
			}
			r.insert(x.Chan.Pos(), V+"To(")
			r.replace(x.Arrow, x.Arrow+2, ")(")
			r.insert(x.Value.End(), ")")
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 && !r.inSel[x] {
				r.recv2(x.Rhs[0])
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				r.recv2(x.Values[0])
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !r.inSel[x] {
				r.replace(x.Pos(), x.X.Pos(), V+"Recv(")
				r.insert(x.X.End(), ")")
			}
		case *ast.RangeStmt:
			if !r.isChan(x.X) {
				return true
			}
			r.n++
			ch, ok := fmt.Sprintf("verif_ch%d", r.n), fmt.Sprintf("verif_ok%d", r.n)
			v := "_"
			if x.Key != nil {
				if x.Tok != token.DEFINE {
					unsupported("%s: range over a channel with assignment", r.where(x))
				}
				v = r.text(x.Key)
			}
			r.replace(x.For+3, x.X.Pos(), fmt.Sprintf(" %s, %s, %s := %sRange(", ch, v, ok, V))
			r.insert(x.X.End(), fmt.Sprintf("); %s; %s, %s = %sRecv2(%s)", ok, v, ok, V, ch))
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
				if b, ok := r.info.Uses[id].(*types.Builtin); ok {
					switch {
					case b.Name() == "close":
						r.replace(id.Pos(), id.End(), V+"Close")
					case b.Name() == "len" && r.isChan(x.Args[0]):
						if ct := r.info.TypeOf(x.Args[0]).Underlying().(*types.Chan); ct.Dir() != types.SendRecv {
							unsupported("%s: len of a directional channel", r.where(x))
						}
						r.replace(id.Pos(), id.End(), V+"Len")
					}
				}
			}
		case *ast.SelectStmt:
			r.selectStmt(x)
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := r.info.Uses[id].(*types.PkgName)
			if !ok {
				return true
			}
			switch pn.Imported().Path() {
			case "time":
				if !okTime[x.Sel.Name] && strings.ContainsAny(x.Sel.Name[:1], "ABCDEFGHIJKLMNOPQRSTUVWXYZ") {
					switch x.Sel.Name {
					case "After", "AfterFunc", "NewTimer", "NewTicker", "Tick", "Timer", "Ticker":
						unsupported("%s: time.%s", r.where(x), x.Sel.Name)
					}
				}
				if x.Sel.Name == "Sleep" {
					r.replace(x.Pos(), x.End(), V+"Sleep")
					r.keep(id.Name + ".Now")
				}
			case "runtime":
				switch x.Sel.Name {
				case "Gosched":
					r.replace(x.Pos(), x.End(), V+"Yield")
					r.keep(id.Name + ".NumCPU")
				case "SetFinalizer", "AddCleanup", "LockOSThread":
					unsupported("%s: runtime.%s", r.where(x), x.Sel.Name)
				}
			}
		}
		return true
	})
	if !r.used {
		return string(r.src)
	}
	r.insert(r.file.Name.End(), `; import verif_vsched "verif.local/mc/vsched"`)
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		// at one place: ends of inner constructs first, then starts of outer ones
		ai, bi := a.to == a.from, b.to == b.from
		ac, bc := strings.HasPrefix(a.text, ")"), strings.HasPrefix(b.text, ")")
		if ac != bc {
			return ac
		}
		if ac && bc {
			return a.seq > b.seq // inner (visited later) closes first
		}
		if ai != bi {
			return ai
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range r.edits {
		if e.from < pos {
			unsupported("%s: overlapping rewrites", r.fset.Position(r.file.Pos()).Filename)
		}
		out.Write(r.src[pos:e.from])
		out.WriteString(e.text)
		pos = e.to
	}
	out.Write(r.src[pos:])
	out.WriteString("\nvar _ = verif_vsched.Active\n")
	for k := range r.kept {
		out.WriteString("var _ = " + k + "\n")
	}
	return out.String()
}

func (r *rewriter) keep(s string) {
	if r.kept == nil {
		r.kept = map[string]bool{}
	}
	r.kept[s] = true
}

func (r *rewriter) recv2(e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		r.inSel[u] = true
		r.replace(u.Pos(), u.X.Pos(), "verif_vsched.Recv2(")
		r.insert(u.X.End(), ")")
	}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) {
	const V = "verif_vsched."
	if len(x.Body.List) == 0 {
		r.replace(x.Pos(), x.End(), V+"Block()")
		return
	}
	r.n++
	sel := fmt.Sprintf("verif_sel%d", r.n)
	def := "false"
	var cases []string
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			continue
		}
		if !pure(stripRecv(cc.Comm)) {
			unsupported("%s: select with a computed channel or value", r.where(cc))
		}
		i := len(cases)
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			r.inSel[s] = true
			cases = append(cases, V+"SC("+r.text(s.Chan)+")("+r.text(s.Value)+")")
			r.replace(cc.Case, cc.Colon, fmt.Sprintf("case %d", i))
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			r.inSel[u] = true
			cases = append(cases, V+"RC("+r.text(u.X)+")")
			r.replace(cc.Case, cc.Colon, fmt.Sprintf("case %d", i))
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			r.inSel[u], r.inSel[s] = true, true
			cases = append(cases, V+"RC("+r.text(u.X)+")")
			var l []string
			for _, e := range s.Lhs {
				l = append(l, r.text(e))
			}
			fn := "Got"
			if len(l) == 2 {
				fn = "Got2"
			}
			r.replace(cc.Case, cc.Colon+1, fmt.Sprintf("case %d: %s %s %s%s(%s, %s);", i, strings.Join(l, ", "), s.Tok, V, fn, r.text(u.X), sel))
		}
	}
	args := ""
	if len(cases) > 0 {
		args = ", " + strings.Join(cases, ", ")
	}
	r.replace(x.Select, x.Body.Lbrace+1, fmt.Sprintf("switch %s := %sSelect(%s%s); %s.I {", sel, V, def, args, sel))
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// stripRecv drops the receive operator of a communication clause.
func stripRecv(s ast.Stmt) ast.Node {
	switch s := s.(type) {
	case *ast.ExprStmt:
		return unparen(s.X).(*ast.UnaryExpr).X
	case *ast.AssignStmt:
		return unparen(s.Rhs[0]).(*ast.UnaryExpr).X
	case *ast.SendStmt:
		return &ast.BinaryExpr{X: s.Chan, Y: s.Value}
	}
	return s
}

// instr rewrites packages of the repository so that their goroutines, locks, channels, sleeps and shared fields go through
// the controlled scheduler (verif/mc/rt), and writes an overlay for the go command. Line numbers are kept.
//
//	instr WORKDIR IMPORTPATH...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	Standard                      bool
}

// levels of instrumentation of a package: 2 everything, 1 without fields, 0 none
var level = map[string]int{}

var imports = map[string]string{
	"sync":        "verif/mc/rt/sync",
	"sync/atomic": "verif/mc/rt/atomic",
	"github.com/panjf2000/ants/v2":                     "verif/mc/rt/ants",
	"github.com/panjf2000/gnet/v2/pkg/pool/goroutine": "verif/mc/rt/goroutine",
}

var funcs = map[string]string{
	"time.Sleep": "Sleep", "time.AfterFunc": "AfterFunc", "runtime.Gosched": "Gosched",
	"net.Dial": "NetDial", "net.DialTimeout": "NetDialTimeout",
	"math/rand.Intn": "RandIntn", "math/rand.Int": "RandInt", "math/rand.Int31n": "RandInt31n", "math/rand.Int63n": "RandInt63n",
	"math/rand.Float64": "RandFloat64", "math/rand.Float32": "RandFloat32", "runtime.NumCPU": "NumCPU",
}

func main() {
	work := os.Args[1]
	want := os.Args[2:]
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,Standard"}, want...)
	out, err := exec.Command("go", args...).Output()
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			os.Stderr.Write(ee.Stderr)
		}
		fmt.Fprintln(os.Stderr, "go list:", err)
		os.Exit(1)
	}
	pkgs := map[string]*pkg{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		pkgs[p.ImportPath] = p
	}
	for _, w := range want {
		level[w] = 2
	}
	for try := 0; try < 8; try++ {
		a := &analysis{pkgs: pkgs, fset: token.NewFileSet(), mutable: map[string]bool{}}
		a.load(want)
		repl := map[string]string{}
		for _, w := range want {
			for i, f := range a.files[w] {
				src := a.src[w][i]
				name := filepath.Join(pkgs[w].Dir, pkgs[w].GoFiles[i])
				res := a.rewrite(w, f, src)
				dst := filepath.Join(work, "instr", strings.ReplaceAll(w, "/", "_"), pkgs[w].GoFiles[i])
				_ = os.MkdirAll(filepath.Dir(dst), 0o755)
				if err := os.WriteFile(dst, res, 0o644); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(1)
				}
				repl[name] = dst
			}
		}
		for _, w := range strings.Fields(os.Getenv("INSTR_RESET")) {
			if p := pkgs[w]; p != nil && level[w] > 0 {
				dst := filepath.Join(work, "instr", strings.ReplaceAll(w, "/", "_"), "zz_mc_globals.go")
				if err := os.WriteFile(dst, a.globals(w), 0o644); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(1)
				}
				repl[filepath.Join(p.Dir, "zz_mc_globals.go")] = dst
			}
		}
		b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
		ov := filepath.Join(work, "overlay.json")
		if err := os.WriteFile(ov, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		msg, err := exec.Command("go", append([]string{"build", "-overlay", ov}, want...)...).CombinedOutput()
		if err == nil {
			rep := ""
			for _, w := range want {
				if level[w] != 2 {
					rep += fmt.Sprintf("%s=%d ", w, level[w])
				}
			}
			_ = os.WriteFile(filepath.Join(work, "instr.txt"), []byte(rep), 0o644)
			return
		}
		changed := false
		for _, m := range regexp.MustCompile(`(?m)^# (\S+)`).FindAllStringSubmatch(string(msg), -1) {
			if l, ok := level[m[1]]; ok && l > 0 {
				level[m[1]]--
				changed = true
			}
		}
		if os.Getenv("INSTR_DEBUG") != "" {
			os.Stderr.Write(msg)
		}
		if !changed {
			os.Stderr.Write(msg)
			os.Exit(1)
		}
	}
	fmt.Fprintln(os.Stderr, "instrumentation does not build")
	os.Exit(1)
}

type analysis struct {
	pkgs    map[string]*pkg
	fset    *token.FileSet
	files   map[string][]*ast.File
	src     map[string][][]byte
	info    map[string]*types.Info
	tpkg    map[string]*types.Package
	mutable map[string]bool
	n       int
}

func (a *analysis) load(want []string) {
	a.files, a.src, a.info, a.tpkg = map[string][]*ast.File{}, map[string][][]byte{}, map[string]*types.Info{}, map[string]*types.Package{}
	imp := importer.ForCompiler(a.fset, "gc", func(path string) (io.ReadCloser, error) {
		p := a.pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	for _, w := range want {
		p := a.pkgs[w]
		for _, f := range p.GoFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			af, err := parser.ParseFile(a.fset, filepath.Join(p.Dir, f), b, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			a.files[w] = append(a.files[w], af)
			a.src[w] = append(a.src[w], b)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		tp, _ := conf.Check(w, a.fset, a.files[w], info)
		a.info[w], a.tpkg[w] = info, tp
	}
	for _, w := range want {
		for _, f := range a.files[w] {
			r := &rewriter{a: a, w: w, info: a.info[w]}
			ast.Inspect(f, func(n ast.Node) bool {
				mark := func(e ast.Expr) {
					if c, _, ok := r.target(e, true); ok {
						a.mutable[c] = true
					}
				}
				switch s := n.(type) {
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						for _, l := range s.Lhs {
							mark(l)
						}
					}
				case *ast.IncDecStmt:
					mark(s.X)
				case *ast.CallExpr:
					if id, ok := s.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") && len(s.Args) > 0 {
						if _, ok := r.info.Uses[id].(*types.Builtin); ok {
							if c, _, ok := r.class(s.Args[0]); ok {
								a.mutable[c+"[]"] = true
							}
						}
					}
				case *ast.RangeStmt:
					if s.Tok == token.ASSIGN {
						if s.Key != nil {
							mark(s.Key)
						}
						if s.Value != nil {
							mark(s.Value)
						}
					}
				}
				return true
			})
		}
	}
}

// globals is a file that registers the variables of a package.
func (a *analysis) globals(w string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport mcrt \"verif/mc/rt\"\n\nfunc init() {\n\tmcrt.Globals(", a.pkgs[w].Name)
	for _, f := range a.files[w] {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						fmt.Fprintf(&b, "&%s, ", n.Name)
					}
				}
			}
		}
	}
	b.WriteString(")\n}\n")
	return b.Bytes()
}

type edit struct {
	pos, end int
	text     string
	seq      int
	pri      int
}

type rewriter struct {
	a     *analysis
	w     string
	info  *types.Info
	src   []byte
	base  int
	edits []edit
	used  map[string]bool
	seq   int
}

func (r *rewriter) off(p token.Pos) int { return r.a.fset.Position(p).Offset }

func (r *rewriter) ins(p token.Pos, s string) { r.rep(p, p, s) }

func (r *rewriter) rep(p, q token.Pos, s string) {
	r.seq++
	r.edits = append(r.edits, edit{r.off(p), r.off(q), s, r.seq, 1})
}

// outer inserts around a statement: outside of what is inserted at the same place for its parts.
func (r *rewriter) outer(p token.Pos, pri int, s string) {
	r.ins(p, s)
	r.edits[len(r.edits)-1].pri = pri
}

// render applies the edits inside [p,q) and removes them from the list.
func (r *rewriter) render(p, q int) string {
	var in, out []edit
	for _, e := range r.edits {
		if e.pos >= p && e.end <= q {
			in = append(in, e)
		} else {
			out = append(out, e)
		}
	}
	r.edits = out
	sort.SliceStable(in, func(i, j int) bool {
		if in[i].pos != in[j].pos {
			return in[i].pos < in[j].pos
		}
		// an insertion at the start of a replaced range goes before it
		if (in[i].pos == in[i].end) != (in[j].pos == in[j].end) {
			return in[i].pos == in[i].end
		}
		if in[i].pri != in[j].pri {
			return in[i].pri < in[j].pri
		}
		return in[i].seq < in[j].seq
	})
	var b strings.Builder
	at := p
	for _, e := range in {
		if e.pos < at {
			continue
		}
		b.Write(r.src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(r.src[at:q])
	return b.String()
}

func (r *rewriter) text(n ast.Node) string { return r.render(r.off(n.Pos()), r.off(n.End())) }

// class names the field or package variable e denotes; base is the pointer variable it hangs on ("" for none).
func (r *rewriter) class(e ast.Expr) (class, base string, ok bool) {
	switch s := e.(type) {
	case *ast.ParenExpr:
		return r.class(s.X)
	case *ast.Ident:
		v, isv := r.info.Uses[s].(*types.Var)
		if isv && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return short(v.Pkg().Path()) + "." + v.Name(), "nil", true
		}
	case *ast.SelectorExpr:
		sel := r.info.Selections[s]
		if sel == nil {
			if v, isv := r.info.Uses[s.Sel].(*types.Var); isv && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				return short(v.Pkg().Path()) + "." + v.Name(), "nil", true
			}
			return
		}
		if sel.Kind() != types.FieldVal {
			return
		}
		// owner of the field
		t := sel.Recv()
		owner := ""
		for _, i := range sel.Index() {
			if p, isp := t.Underlying().(*types.Pointer); isp {
				t = p.Elem()
			}
			if n, isn := types.Unalias(t).(*types.Named); isn {
				owner = n.Obj().Name()
				if n.Obj().Pkg() != nil {
					owner = short(n.Obj().Pkg().Path()) + "." + owner
				}
			} else {
				owner += ".struct"
			}
			st, iss := t.Underlying().(*types.Struct)
			if !iss {
				return
			}
			t = st.Field(i).Type()
		}
		class = owner + "." + sel.Obj().Name()
		// base: the innermost expression must be a pointer variable or a package variable
		x := s.X
		for {
			switch y := x.(type) {
			case *ast.ParenExpr:
				x = y.X
				continue
			case *ast.StarExpr:
				x = y.X
				continue
			case *ast.SelectorExpr:
				if ss := r.info.Selections[y]; ss != nil && ss.Kind() == types.FieldVal {
					if _, isp := ss.Type().Underlying().(*types.Pointer); isp {
						return class, "nil", true // reached through another pointer: one object per class
					}
					x = y.X
					continue
				}
				if v, isv := r.info.Uses[y.Sel].(*types.Var); isv && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					return class, "nil", true
				}
				return
			case *ast.Ident:
				v, isv := r.info.Uses[y].(*types.Var)
				if !isv {
					return
				}
				if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					return class, "nil", true
				}
				if _, isp := v.Type().Underlying().(*types.Pointer); isp {
					return class, y.Name + "@" + fmt.Sprint(v.Pos()), true
				}
				return
			default:
				return
			}
		}
	}
	return
}

func short(p string) string {
	return strings.TrimPrefix(strings.TrimPrefix(p, "github.com/hrygo/gosms/"), "github.com/hrygo/")
}

// target is class for the left side of an assignment: an indexed container counts as its contents.
func (r *rewriter) target(e ast.Expr, any bool) (class, base string, ok bool) {
	switch s := e.(type) {
	case *ast.ParenExpr:
		return r.target(s.X, any)
	case *ast.IndexExpr:
		c, b, ok := r.class(s.X)
		return c + "[]", b, ok
	}
	return r.class(e)
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

type access struct {
	class, base string
	write, mp   bool
}

// accesses lists the mutable fields an expression or simple statement touches (function literals apart).
func (r *rewriter) accesses(n ast.Node, stmtStart token.Pos) (out []access) {
	if n == nil {
		return
	}
	seen := map[string]int{}
	add := func(c, b string, w, mp bool) {
		if !r.a.mutable[c] {
			return
		}
		if i := strings.IndexByte(b, '@'); i >= 0 {
			var p int
			fmt.Sscan(b[i+1:], &p)
			if token.Pos(p) >= stmtStart {
				return // declared inside the statement
			}
			b = b[:i]
		}
		k := c + "|" + b
		if i, ok := seen[k]; ok {
			out[i].write = out[i].write || w
			return
		}
		seen[k] = len(out)
		out = append(out, access{c, b, w, mp})
	}
	var visit func(n ast.Node)
	write := map[ast.Expr]bool{}
	visit = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					write[l] = true
				}
			case *ast.IncDecStmt:
				write[s.X] = true
			case *ast.UnaryExpr:
				if s.Op == token.AND {
					if _, _, ok := r.class(s.X); ok {
						return false // an address: used by atomics or as a pointer
					}
				}
			case *ast.CallExpr:
				if id, ok := s.Fun.(*ast.Ident); ok && len(s.Args) > 0 {
					if _, isb := r.info.Uses[id].(*types.Builtin); isb && (id.Name == "delete" || id.Name == "clear") {
						if c, b, ok := r.class(s.Args[0]); ok {
							add(c+"[]", b, true, isMap(r.info.Types[s.Args[0]].Type))
						}
					}
				}
			case *ast.IndexExpr:
				if c, b, ok := r.class(s.X); ok {
					add(c+"[]", b, write[s], isMap(r.info.Types[s.X].Type))
				}
			case *ast.SelectorExpr:
				if c, b, ok := r.class(s); ok {
					add(c, b, write[s], false)
					// also the path to it
					return true
				}
			case *ast.Ident:
				if c, b, ok := r.class(s); ok {
					add(c, b, write[s], false)
				}
			case *ast.KeyValueExpr:
				if _, ok := s.Key.(*ast.Ident); ok {
					visit(s.Value)
					return false
				}
			}
			return true
		})
	}
	visit(n)
	return
}

func (r *rewriter) announce(acc []access) (before, after string) {
	for _, x := range acc {
		switch {
		case x.mp && x.write:
			before += fmt.Sprintf("rt__.MW(%q, %s); ", x.class, x.base)
			after += fmt.Sprintf("; rt__.ME(%q, %s)", x.class, x.base)
		case x.mp:
			before += fmt.Sprintf("rt__.MR(%q, %s); ", x.class, x.base)
		default:
			before += fmt.Sprintf("rt__.F(%q, %v, %s); ", x.class, x.write, x.base)
		}
	}
	return
}

func (r *rewriter) cond(e ast.Expr) {
	acc := r.accesses(e, e.Pos())
	if len(acc) == 0 {
		return
	}
	t := ""
	for _, x := range acc {
		if x.mp {
			t += fmt.Sprintf("rt__.MR(%q, %s) && ", x.class, x.base)
		} else {
			t += fmt.Sprintf("rt__.FB(%q, %v, %s) && ", x.class, x.write, x.base)
		}
	}
	r.ins(e.Pos(), t+"(")
	r.ins(e.End(), ")")
}

func simple(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.ReturnStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt, *ast.DeclStmt:
		return true
	}
	return false
}

// fields puts announcements before a statement of a list.
func (r *rewriter) fields(s ast.Stmt) {
	switch n := s.(type) {
	case *ast.IfStmt:
		if n.Init != nil {
			b, _ := r.announce(r.accesses(n.Init, n.Pos()))
			r.outer(n.Pos(), 0, b)
		}
		return
	case *ast.ForStmt:
		if n.Init != nil {
			b, _ := r.announce(r.accesses(n.Init, n.Pos()))
			r.outer(n.Pos(), 0, b)
		}
		return
	case *ast.SwitchStmt:
		var acc []access
		if n.Init != nil {
			acc = append(acc, r.accesses(n.Init, n.Pos())...)
		}
		if n.Tag != nil {
			acc = append(acc, r.accesses(n.Tag, n.Pos())...)
		}
		b, _ := r.announce(acc)
		r.outer(n.Pos(), 0, b)
		return
	case *ast.RangeStmt:
		b, _ := r.announce(r.accesses(n.X, n.Pos()))
		if c, bs, ok := r.class(n.X); ok && r.a.mutable[c+"[]"] && !strings.Contains(bs, "@") {
			x, _ := r.announce([]access{{c + "[]", bs, false, isMap(r.info.Types[n.X].Type)}})
			b += x
		} else if ok && r.a.mutable[c+"[]"] {
			x, _ := r.announce([]access{{c + "[]", bs[:strings.IndexByte(bs, '@')], false, isMap(r.info.Types[n.X].Type)}})
			b += x
		}
		r.outer(n.Pos(), 0, b)
		return
	}
	if !simple(s) {
		return
	}
	acc := r.accesses(s, s.Pos())
	if len(acc) == 0 {
		return
	}
	// read-modify-write of one field: x.f++, x.f op= e, x.f = g(x.f)
	var lhs ast.Expr
	rhs := ""
	switch n := s.(type) {
	case *ast.IncDecStmt:
		lhs = n.X
		rhs = r.text(n.X) + " " + n.Tok.String()[:1] + " 1"
	case *ast.AssignStmt:
		if len(n.Lhs) == 1 && len(n.Rhs) == 1 && n.Tok != token.DEFINE {
			if n.Tok != token.ASSIGN {
				lhs = n.Lhs[0]
				op := strings.TrimSuffix(n.Tok.String(), "=")
				rhs = r.text(n.Lhs[0]) + " " + op + " (" + r.text(n.Rhs[0]) + ")"
			} else if c, b, ok := r.class(n.Lhs[0]); ok {
				hit := false
				for _, x := range r.accesses(n.Rhs[0], s.Pos()) {
					bb := b
					if i := strings.IndexByte(b, '@'); i >= 0 {
						bb = b[:i]
					}
					if x.class == c && x.base == bb {
						hit = true
					}
				}
				tl, tr := r.info.Types[n.Lhs[0]].Type, r.info.Types[n.Rhs[0]].Type
				if hit && tl != nil && tr != nil && types.Identical(tl, tr) {
					lhs = n.Lhs[0]
					rhs = r.text(n.Rhs[0])
				}
			}
		}
	}
	if lhs != nil {
		if c, b, ok := r.class(lhs); ok && r.a.mutable[c] {
			if i := strings.IndexByte(b, '@'); i >= 0 {
				b = b[:i]
			}
			var reads []access
			for _, x := range acc {
				if x.class == c && x.base == b {
					x.write = false
				}
				reads = append(reads, x)
			}
			bf, af := r.announce(reads)
			r.a.n++
			v := fmt.Sprintf("rtv%d__", r.a.n)
			r.rep(s.Pos(), s.End(), fmt.Sprintf("%s{ %s := %s; rt__.F(%q, true, %s); %s = %s }%s", bf, v, rhs, c, b, r.text(lhs), v, af))
			return
		}
		if _, ok := s.(*ast.IncDecStmt); !ok || rhs != "" {
			// texts were rendered: put them back
			switch n := s.(type) {
			case *ast.IncDecStmt:
				_ = n
			case *ast.AssignStmt:
				if n.Tok == token.ASSIGN {
					r.rep(n.Rhs[0].Pos(), n.Rhs[0].End(), rhs)
				}
			}
		}
	}
	bf, af := r.announce(acc)
	if _, ok := s.(*ast.ReturnStmt); ok {
		af = ""
	}
	r.outer(s.Pos(), 0, bf)
	if af != "" {
		r.outer(s.End(), 2, af)
	}
}

func (r *rewriter) list(l []ast.Stmt) {
	for _, s := range l {
		r.fields(s)
	}
}

func (r *rewriter) sel(s *ast.SelectStmt) {
	def := false
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			def = true
		}
	}
	r.a.n++
	k := fmt.Sprintf("rtk%d__", r.a.n)
	if def {
		r.ins(s.Pos(), "{ "+k+" := rt__.SelP(); _ = "+k+"; ")
	} else {
		r.ins(s.Pos(), "{ "+k+" := rt__.SelB(); ")
		r.ins(s.Body.Rbrace, "; case <-"+k+".Kill(): "+k+".Exit(); panic(0) ")
	}
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm != nil {
			r.ins(cc.Colon+1, " "+k+".SelA(); ")
		}
	}
	r.ins(s.End(), "}")
}

func (r *rewriter) goStmt(s *ast.GoStmt) {
	call := s.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		r.rep(s.Pos(), fl.Pos(), "rt__.Go(")
		r.rep(call.Lparen, call.Rparen+1, ")")
		return
	}
	if id, ok := call.Fun.(*ast.Ident); ok {
		if _, isb := r.info.Uses[id].(*types.Builtin); isb {
			return
		}
	}
	r.a.n++
	names, vals, args := []string{}, []string{}, []string{}
	f := fmt.Sprintf("rtg%d__f", r.a.n)
	if _, ok := call.Fun.(*ast.FuncLit); ok {
		names, vals = append(names, f), append(vals, r.text(call.Fun))
	} else {
		names, vals = append(names, f), append(vals, r.text(call.Fun))
	}
	for i, x := range call.Args {
		tv := r.info.Types[x]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, r.text(x))
			continue
		}
		n := fmt.Sprintf("rtg%d__%d", r.a.n, i)
		names, vals, args = append(names, n), append(vals, r.text(x)), append(args, n)
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	r.rep(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s; rt__.Go(func() { %s(%s%s) }) }", strings.Join(names, ", "), strings.Join(vals, ", "), f, strings.Join(args, ", "), dots))
}

func (a *analysis) rewrite(w string, f *ast.File, src []byte) []byte {
	lv := level[w]
	if lv == 0 {
		return src
	}
	r := &rewriter{a: a, w: w, info: a.info[w], src: src, used: map[string]bool{}}
	comm := map[ast.Node]bool{}
	two := map[ast.Node]bool{}
	labeled := map[ast.Node]bool{}
	var order []ast.Node
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		switch s := n.(type) {
		case *ast.LabeledStmt:
			labeled[s.Stmt] = true
		case *ast.CommClause:
			switch c := s.Comm.(type) {
			case *ast.SendStmt:
				comm[c] = true
			case *ast.ExprStmt:
				comm[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				comm[ast.Unparen(c.Rhs[0])] = true
			}
		case *ast.AssignStmt:
			if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
				two[ast.Unparen(s.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(s.Names) == 2 && len(s.Values) == 1 {
				two[ast.Unparen(s.Values[0])] = true
			}
		}
		order = append(order, n)
		return true
	})
	skipList := map[ast.Stmt]bool{}
	_ = skipList
	// children come after their parents in order: walk backwards
	for i := len(order) - 1; i >= 0; i-- {
		switch s := order[i].(type) {
		case *ast.ImportSpec:
			p := strings.Trim(s.Path.Value, `"`)
			if q, ok := imports[p]; ok {
				r.rep(s.Path.Pos(), s.Path.End(), `"`+q+`"`)
			}
		case *ast.SelectorExpr:
			if fn, ok := r.info.Uses[s.Sel].(*types.Func); ok && fn.Pkg() != nil {
				if _, isPkg := s.X.(*ast.Ident); isPkg && r.info.Selections[s] == nil {
					if g, ok := funcs[fn.Pkg().Path()+"."+fn.Name()]; ok {
						orig := string(src[r.off(s.Pos()):r.off(s.End())])
						r.rep(s.Pos(), s.End(), "rt__."+g)
						r.used[orig] = true
					}
				}
			}
		case *ast.UnaryExpr:
			if s.Op == token.ARROW && !comm[s] {
				fn := "rt__.Recv("
				if two[s] {
					fn = "rt__.Recv2("
				}
				r.rep(s.OpPos, s.OpPos+2, fn)
				r.ins(s.End(), ")")
			}
		case *ast.SendStmt:
			if !comm[s] {
				r.ins(s.Chan.Pos(), "rt__.SendTo(")
				r.rep(s.Arrow, s.Arrow+2, ")(")
				r.ins(s.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := s.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, isb := r.info.Uses[id].(*types.Builtin); isb {
					r.rep(id.Pos(), id.End(), "rt__.Close")
				}
			}
		case *ast.RangeStmt:
			if t := r.info.Types[s.X].Type; t != nil {
				if _, ok := t.Underlying().(*types.Chan); ok {
					a.n++
					c, o := fmt.Sprintf("rtc%d__", a.n), fmt.Sprintf("rto%d__", a.n)
					x := r.text(s.X)
					switch {
					case s.Key == nil:
						r.rep(s.For, s.Body.Lbrace+1, fmt.Sprintf("for %s := %s; ; { if _, %s := rt__.Recv2(%s); !%s { break }; ", c, x, o, c, o))
					case s.Tok == token.DEFINE:
						r.rep(s.For, s.Body.Lbrace+1, fmt.Sprintf("for %s := %s; ; { %s, %s := rt__.Recv2(%s); if !%s { break }; ", c, x, r.text(s.Key), o, c, o))
					default:
						r.rep(s.For, s.Body.Lbrace+1, fmt.Sprintf("for %s := %s; ; { var %s bool; if %s, %s = rt__.Recv2(%s); !%s { break }; ", c, x, o, r.text(s.Key), o, c, o))
					}
				}
			}
		case *ast.SelectStmt:
			if !labeled[s] {
				r.sel(s)
			}
		case *ast.GoStmt:
			r.goStmt(s)
		case *ast.IfStmt:
			if lv == 2 {
				r.cond(s.Cond)
			}
		case *ast.ForStmt:
			if lv == 2 && s.Cond != nil {
				r.cond(s.Cond)
			}
		}
		if lv == 2 {
			switch s := order[i].(type) {
			case *ast.BlockStmt:
				r.list(s.List)
			case *ast.CaseClause:
				r.list(s.Body)
			case *ast.CommClause:
				r.list(s.Body)
			}
		}
	}
	r.ins(f.Name.End(), `; import rt__ "verif/mc/rt"; var _ = rt__.Recv[int]`)
	if len(f.Imports) > 0 {
		// imports must come first: keep the helper variable at the end
		r.edits[len(r.edits)-1].text = `; import rt__ "verif/mc/rt"`
	}
	out := r.render(0, len(src))
	out += "\nvar _ = rt__.Recv[int]\n"
	var keep []string
	for k := range r.used {
		keep = append(keep, k)
	}
	sort.Strings(keep)
	for _, k := range keep {
		out += "var _ = " + k + "\n"
	}
	return []byte(out)
}

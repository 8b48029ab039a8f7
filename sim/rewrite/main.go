// vsimrewrite instruments the Go sources of the code under test for the
// simulator. It never changes what the code computes: it
//
//   - inserts a scheduling point (vsimrt.Y) before every statement,
//   - redirects the import of "sync" (and, per package, "os" and others) to the
//     simulator's stand-ins, which have the same API,
//   - turns `go` statements into simulator tasks and channels into simulator
//     channels, so that the simulator decides every interleaving.
//
// The output is a directory of rewritten files and a `go build -overlay` file;
// /repo itself is not touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/leonelquinteros/gotext"
const rtPath = modPath + "/vsimrt"

type edit struct {
	pos, end int // byte offsets; pos==end is an insertion
	text     string
	seq      int
}

type rewriter struct {
	fset  *token.FileSet
	src   []byte
	file  *ast.File
	tfile *token.File
	info  *types.Info
	edits []edit
	swaps map[string]string
	sites *[]string
	rel   string
	chans bool
}

func (r *rewriter) off(p token.Pos) int { return r.tfile.Offset(p) }
func (r *rewriter) ins(p token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(p), r.off(p), s, len(r.edits)})
}
func (r *rewriter) rep(a, b token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), s, len(r.edits)})
}

func (r *rewriter) site(p token.Pos) int {
	*r.sites = append(*r.sites, fmt.Sprintf("%s:%d", r.rel, r.fset.Position(p).Line))
	return len(*r.sites) - 1
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		}
		r.ins(s.Pos(), fmt.Sprintf("vsimrt.Y(%d);", r.site(s.Pos())))
	}
}

func isChan(info *types.Info, e ast.Expr) bool {
	tv, ok := info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) walk() {
	recv2 := map[ast.Expr]bool{}
	skip := map[ast.Node]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				recv2[ast.Unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				recv2[ast.Unparen(n.Values[0])] = true
			}
		}
		return true
	})
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			p, _ := strconv.Unquote(n.Path.Value)
			if to, ok := r.swaps[p]; ok {
				if n.Name == nil {
					r.rep(n.Path.Pos(), n.Path.End(), filepath.Base(p)+" "+strconv.Quote(to))
				} else {
					r.rep(n.Path.Pos(), n.Path.End(), strconv.Quote(to))
				}
			}
			return false
		case *ast.BlockStmt:
			r.stmts(n.List)
		case *ast.CaseClause:
			r.stmts(n.Body)
		case *ast.CommClause:
			r.stmts(n.Body)
		}
		if !r.chans {
			return true
		}
		if skip[n] {
			return false
		}
		switch n := n.(type) {
		case *ast.SelectStmt:
			r.selectStmt(n, skip)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				r.ins(n.Body.Lbrace+1, fmt.Sprintf("vsimrt.Y(%d);", r.site(n.Pos())))
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				r.ins(n.Body.Lbrace+1, fmt.Sprintf("vsimrt.Y(%d);", r.site(n.Pos())))
			}
		}
		switch n := n.(type) {
		case *ast.GoStmt:
			if fl, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
				// go func(){...}()  ->  vsimrt.Go(func(){...})
				r.rep(n.Go, fl.Pos(), "vsimrt.Go(")
				r.rep(fl.End(), n.Call.End(), ")")
			} else {
				// go f(a, b) -> vsimrt.Go2(f, a, b): arguments are evaluated now
				r.rep(n.Go, n.Call.Fun.Pos(), "vsimrt.GoCall(")
				if len(n.Call.Args) > 0 {
					r.rep(n.Call.Lparen, n.Call.Lparen+1, ",")
				} else {
					r.rep(n.Call.Lparen, n.Call.Lparen+1, "")
				}
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "make":
					if ct, ok := n.Args[0].(*ast.ChanType); ok {
						r.rep(n.Fun.Pos(), ct.Value.Pos(), "vsimrt.MakeChan[")
						if len(n.Args) > 1 {
							r.rep(ct.Value.End(), n.Args[1].Pos(), "](")
						} else {
							r.rep(ct.Value.End(), n.Rparen, "](")
						}
						ast.Inspect(ct.Value, func(ast.Node) bool { return true })
					}
				case "close":
					r.rep(n.Fun.Pos(), n.Fun.End(), "vsimrt.CloseChan")
				case "len", "cap":
					if len(n.Args) == 1 && isChan(r.info, n.Args[0]) {
						r.rep(n.Fun.Pos(), n.Fun.End(), "vsimrt.Chan"+strings.Title(id.Name))
					}
				}
			}
		case *ast.ChanType:
			// rewritten by make() above when it is its first argument
			for _, e := range r.edits {
				if e.pos <= r.off(n.Pos()) && r.off(n.Pos()) < e.end {
					return true
				}
			}
			r.rep(n.Pos(), n.Value.Pos(), "*vsimrt.Chan[")
			r.ins(n.Value.End(), "]")
		case *ast.SendStmt:
			r.ins(n.Chan.Pos(), "(")
			r.rep(n.Chan.End(), n.Value.Pos(), ").Send(")
			r.ins(n.Value.End(), ")")
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				m := ".Recv()"
				if recv2[n] {
					m = ".Recv2()"
				}
				r.rep(n.OpPos, n.X.Pos(), "(")
				r.ins(n.X.End(), ")"+m)
			}
		case *ast.RangeStmt:
			if isChan(r.info, n.X) {
				r.ins(n.X.Pos(), "(")
				r.ins(n.X.End(), ").All()")
			}
		}
		return true
	})
}

// selectStmt turns a select statement into a switch over vsimrt.Select.
func (r *rewriter) selectStmt(n *ast.SelectStmt, skip map[ast.Node]bool) {
	raw := func(e ast.Expr) string { return string(r.src[r.off(e.Pos()):r.off(e.End())]) }
	var names, vals []string
	def := false
	for _, c := range n.Body.List {
		cl := c.(*ast.CommClause)
		if cl.Comm == nil {
			def = true
			continue
		}
		skip[cl.Comm] = true
		name := fmt.Sprintf("vsimC%d", len(names))
		text := fmt.Sprintf("case %d:", len(names))
		recv := func(e ast.Expr) string {
			return "vsimrt.RecvCase(" + raw(ast.Unparen(e).(*ast.UnaryExpr).X) + ")"
		}
		switch m := cl.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, "vsimrt.SendCase("+raw(m.Chan)+", "+raw(m.Value)+")")
		case *ast.ExprStmt:
			vals = append(vals, recv(m.X))
		case *ast.AssignStmt:
			vals = append(vals, recv(m.Rhs[0]))
			text += raw(m.Lhs[0])
			if len(m.Lhs) == 2 {
				text += ", " + raw(m.Lhs[1])
			}
			text += " " + m.Tok.String() + " " + name + ".V"
			if len(m.Lhs) == 2 {
				text += ", " + name + ".OK"
			}
			text += ";"
		}
		names = append(names, name)
		r.rep(cl.Case, cl.Colon+1, text)
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	head += fmt.Sprintf("vsimrt.Select(%v", def)
	for _, s := range names {
		head += ", " + s
	}
	r.rep(n.Select, n.Body.Lbrace, head+") ")
	if !def {
		r.ins(n.Body.Rbrace, "default: panic(\"unreachable\");")
	}
}

func (r *rewriter) apply() ([]byte, error) {
	return r.applyRange(0, len(r.src))
}

// applyRange rewrites src[from:to].
func (r *rewriter) applyRange(from, to int) ([]byte, error) {
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].pos != r.edits[j].pos {
			return r.edits[i].pos < r.edits[j].pos
		}
		// insertions before replacements at the same place
		return r.edits[i].seq < r.edits[j].seq
	})
	var out []byte
	at := from
	for _, e := range r.edits {
		if e.pos < from || e.end > to || from > 0 && e.pos == from && e.pos == e.end && strings.HasPrefix(e.text, "vsimrt.Y(") {
			continue
		}
		if e.pos < at {
			return nil, fmt.Errorf("overlapping edits at %s offset %d (%q)", r.rel, e.pos, e.text)
		}
		out = append(out, r.src[at:e.pos]...)
		out = append(out, e.text...)
		at = e.end
	}
	out = append(out, r.src[at:to]...)
	return out, nil
}

// resets makes the functions that put the package-level variables of a file back
// to their initial values, so that every simulated run starts from a fresh
// process's state. It returns code to append to the file, the names of variables
// with their resetters, and the resetters to call first and last.
func (r *rewriter) resets(k int) (code string, byVar map[string]string, first, last []string, err error) {
	byVar = map[string]string{}
	var b strings.Builder
	embedded := func(c *ast.CommentGroup) bool {
		if c != nil {
			for _, l := range c.List {
				if strings.HasPrefix(l.Text, "//go:embed") {
					return true
				}
			}
		}
		return false
	}
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				n := fmt.Sprintf("vsimInit%d_%d", k, len(last))
				r.rep(d.Name.Pos(), d.Name.End(), n)
				fmt.Fprintf(&b, "func init() { %s() }\n", n)
				last = append(last, n)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR || embedded(d.Doc) {
				continue
			}
			for _, sp := range d.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok || embedded(vs.Doc) {
					continue
				}
				if len(vs.Values) == 0 {
					t, err := r.applyRange(r.off(vs.Type.Pos()), r.off(vs.Type.End()))
					if err != nil {
						return "", nil, nil, nil, err
					}
					for _, n := range vs.Names {
						if n.Name != "_" {
							f := fmt.Sprintf("vsimZero%d_%s", k, n.Name)
							fmt.Fprintf(&b, "func %s() { %s = *new(%s) }\n", f, n.Name, t)
							first = append(first, f)
						}
					}
					continue
				}
				groups := [][2]int{}
				if len(vs.Values) == len(vs.Names) {
					for i := range vs.Names {
						groups = append(groups, [2]int{i, i + 1})
					}
				} else {
					groups = append(groups, [2]int{0, len(vs.Names)})
				}
				for gi, g := range groups {
					v := vs.Values[gi]
					x, err := r.applyRange(r.off(v.Pos()), r.off(v.End()))
					if err != nil {
						return "", nil, nil, nil, err
					}
					var lhs []string
					all := true
					for _, n := range vs.Names[g[0]:g[1]] {
						lhs = append(lhs, n.Name)
						all = all && n.Name == "_"
					}
					if all {
						continue
					}
					f := fmt.Sprintf("vsimSet%d_%s", k, strings.ReplaceAll(strings.Join(lhs, "_"), "__", "_"))
					fmt.Fprintf(&b, "func %s() { %s = %s }\n", f, strings.Join(lhs, ", "), x)
					for _, n := range lhs {
						byVar[n] = f
					}
				}
			}
		}
	}
	return b.String(), byVar, first, last, nil
}

type nullImporter struct{}

func (nullImporter) Import(p string) (*types.Package, error) {
	pkg := types.NewPackage(p, filepath.Base(p))
	pkg.MarkComplete()
	return pkg, nil
}

func main() {
	repo := flag.String("repo", "/repo", "module root")
	out := flag.String("out", "", "output directory")
	pkgs := flag.String("pkgs", "", "dir=imp1>to1,imp2>to2;dir2=...: packages to instrument and their import swaps")
	extra := flag.String("extra", "", "virtual=real;...: directories to add to the overlay")
	std := flag.String("std", "", "virtual=real;...: single files to add to the overlay")
	mains := flag.String("mains", "", "dir=newdir;...: main packages that become importable packages with a function Main")
	flag.Parse()
	asLib := map[string]string{}
	for _, spec := range strings.Split(*mains, ";") {
		if a, b, ok := strings.Cut(spec, "="); ok {
			asLib[a] = b
		}
	}

	overlay := map[string]string{}
	var sites []string
	fatal := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "vsimrewrite:", err)
			os.Exit(2)
		}
	}
	for _, spec := range strings.Split(*pkgs, ";") {
		if spec == "" {
			continue
		}
		dir, swapSpec, _ := strings.Cut(spec, "=")
		swaps := map[string]string{"sync": rtPath + "/vsync", "time": rtPath + "/vtime", "io/ioutil": rtPath + "/vioutil", "path/filepath": rtPath + "/vfilepath"}
		for _, s := range strings.Split(swapSpec, ",") {
			if a, b, ok := strings.Cut(s, ">"); ok {
				swaps[a] = rtPath + "/" + b
			}
		}
		abs := filepath.Join(*repo, dir)
		ents, err := os.ReadDir(abs)
		fatal(err)
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		srcs := map[string][]byte{}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(abs, n); err != nil || !ok {
				continue
			}
			p := filepath.Join(abs, n)
			src, err := os.ReadFile(p)
			fatal(err)
			f, err := parser.ParseFile(fset, p, src, parser.ParseComments|parser.SkipObjectResolution)
			fatal(err)
			files = append(files, f)
			names = append(names, n)
			srcs[n] = src
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: nullImporter{}, Error: func(error) {}}
		conf.Check(dir, fset, files, info)
		target, name := dir, ""
		if len(files) > 0 {
			name = files[0].Name.Name
		}
		if to := asLib[dir]; to != "" {
			target, name = to, filepath.Base(to)
		}
		byVar := map[string]string{}
		var first, last []string
		for i, f := range files {
			rel := filepath.Join(dir, names[i])
			r := &rewriter{fset: fset, src: srcs[names[i]], file: f, tfile: fset.File(f.Pos()), info: info, swaps: swaps, sites: &sites, rel: rel, chans: true}
			if asLib[dir] != "" {
				r.rep(f.Name.Pos(), f.Name.End(), filepath.Base(asLib[dir]))
			}
			r.ins(f.Name.End(), "; import vsimrt "+strconv.Quote(rtPath))
			r.walk()
			code, bv, fi, la, err := r.resets(i)
			fatal(err)
			for k, v := range bv {
				byVar[k] = v
			}
			first = append(first, fi...)
			last = append(last, la...)
			data, err := r.apply()
			fatal(err)
			data = append(data, "\n"+code...)
			data = append(data, "\nvar _ = vsimrt.Y\n"...)
			op := filepath.Join(*out, "src", target, names[i])
			fatal(os.MkdirAll(filepath.Dir(op), 0o755))
			fatal(os.WriteFile(op, data, 0o644))
			overlay[filepath.Join(*repo, target, names[i])] = op
		}
		if len(files) == 0 {
			continue
		}
		var mid []string
		done := map[string]bool{}
		add := func(f string) {
			if f != "" && !done[f] {
				done[f] = true
				mid = append(mid, f)
			}
		}
		for _, in := range info.InitOrder {
			for _, l := range in.Lhs {
				add(byVar[l.Name()])
			}
		}
		var rest []string
		for n := range byVar {
			rest = append(rest, n)
		}
		sort.Strings(rest)
		for _, n := range rest {
			add(byVar[n])
		}
		var rb strings.Builder
		fmt.Fprintf(&rb, "package %s\n\nimport vsimrt %q\n\nfunc init() {\n\tvsimrt.OnReset(func() {\n", name, rtPath)
		for _, f := range append(append(first, mid...), last...) {
			fmt.Fprintf(&rb, "\t\t%s()\n", f)
		}
		rb.WriteString("\t})\n}\n")
		if target != dir {
			rb.WriteString("\nfunc Main() { main() }\n")
		}
		rp := filepath.Join(*out, "src", target, "zz_vsim_reset.go")
		fatal(os.WriteFile(rp, []byte(rb.String()), 0o644))
		overlay[filepath.Join(*repo, target, "zz_vsim_reset.go")] = rp
	}
	for _, spec := range strings.Split(*extra, ";") {
		v, real, ok := strings.Cut(spec, "=")
		if !ok {
			continue
		}
		fatal(filepath.Walk(real, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return err
			}
			rel, _ := filepath.Rel(real, p)
			overlay[filepath.Join(v, rel)] = p
			return nil
		}))
	}
	for _, spec := range strings.Split(*std, ";") {
		if v, real, ok := strings.Cut(spec, "="); ok {
			overlay[v] = real
		}
	}
	// site table
	var b strings.Builder
	b.WriteString("package vsimrt\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n}\n")
	sp := filepath.Join(*out, "sites.go")
	fatal(os.WriteFile(sp, []byte(b.String()), 0o644))
	overlay[filepath.Join(*repo, "vsimrt", "zz_sites.go")] = sp
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	fatal(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644))
}

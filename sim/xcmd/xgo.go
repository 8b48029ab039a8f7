package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/leonelquinteros/gotext"
	xparser "github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"github.com/leonelquinteros/gotext/cli/xgotext/parser/dir"
	pkgtree "github.com/leonelquinteros/gotext/cli/xgotext/parser/pkg-tree"
	"github.com/leonelquinteros/gotext/cli/xgotext/vsimmain"
	rt "github.com/leonelquinteros/gotext/vsimrt"
	vos "github.com/leonelquinteros/gotext/vsimrt/vos"
	vpackages "github.com/leonelquinteros/gotext/vsimrt/vpackages"
	"golang.org/x/tools/go/packages"
)

// The extraction tool xgotext: extraction from generated source trees on the
// simulated disk, and saving with faults.

const (
	srcRoot = "/vsim/src"
	modName = "vsim.test/app"
	gtPath  = "github.com/leonelquinteros/gotext"
)

func init() {
	log.SetOutput(io.Discard)
	packagesLoader()
	register(&Scenario{Name: "xgo-det", Gen: genXDet, Run: runXDet})
	register(&Scenario{Name: "xgo-save", Gen: genXSave, Run: runXSave})
	real := []string{"cli/xgotext: main, parser, parser/dir, parser/pkg-tree (built from /repo, instrumented)", "package gotext (reads the templates back)", "go/parser, go/types, go/ast (standard library)"}
	stub := []string{"golang.org/x/tools/go/packages.Load (runs the go command; simulated: parses and type-checks the sources on the simulated disk against a stub of package gotext)", "os, path/filepath.Walk, flag, log.Fatal (simulated disk, process arguments and exit)", "map iteration order and hash seeds (seeded)"}
	props["C19"] = &Prop{Scens: []string{"xgo-save"}, Quick: 40, Real: real, Stub: stub, Assume: assume,
		Rule: "Every run saves to a faulty disk, possibly over old files or after an earlier crash; the outcome reported is compared with the files on the disk, and a rerun on a working disk has to complete."}
	props["C20"] = &Prop{Scens: []string{"xgo-det"}, Quick: 40, Real: real, Stub: stub, Assume: assume,
		Rule: "The same source tree is extracted several times, in both modes, in different file and map orders, also after other trees in one process; the files have to be the same bytes and to hold exactly the messages of the tree."}
}

// The stub of package gotext that generated sources are checked against.
const gtStub = `package gotext
type Translator interface {
	Get(str string, vars ...any) string
	GetN(str, plural string, n int, vars ...any) string
	GetC(str, ctx string, vars ...any) string
	GetNC(str, plural string, n int, ctx string, vars ...any) string
	GetDomain() *Domain
}
type Domain struct{ x int }
func NewDomain() *Domain { return nil }
func (d *Domain) Get(str string, vars ...any) string { return "" }
func (d *Domain) GetN(str, plural string, n int, vars ...any) string { return "" }
func (d *Domain) GetC(str, ctx string, vars ...any) string { return "" }
func (d *Domain) GetNC(str, plural string, n int, ctx string, vars ...any) string { return "" }
type Po struct{ x int }
func NewPo() *Po { return nil }
func (d *Po) Get(str string, vars ...any) string { return "" }
func (d *Po) GetN(str, plural string, n int, vars ...any) string { return "" }
func (d *Po) GetC(str, ctx string, vars ...any) string { return "" }
func (d *Po) GetNC(str, plural string, n int, ctx string, vars ...any) string { return "" }
func (d *Po) GetDomain() *Domain { return nil }
type Mo struct{ x int }
func NewMo() *Mo { return nil }
func (d *Mo) Get(str string, vars ...any) string { return "" }
func (d *Mo) GetN(str, plural string, n int, vars ...any) string { return "" }
func (d *Mo) GetC(str, ctx string, vars ...any) string { return "" }
func (d *Mo) GetNC(str, plural string, n int, ctx string, vars ...any) string { return "" }
func (d *Mo) GetDomain() *Domain { return nil }
type Locale struct{ x int }
func NewLocale(p, l string) *Locale { return nil }
func (l *Locale) Get(str string, vars ...any) string { return "" }
func (l *Locale) GetN(str, plural string, n int, vars ...any) string { return "" }
func (l *Locale) GetD(dom, str string, vars ...any) string { return "" }
func (l *Locale) GetND(dom, str, plural string, n int, vars ...any) string { return "" }
func (l *Locale) GetC(str, ctx string, vars ...any) string { return "" }
func (l *Locale) GetNC(str, plural string, n int, ctx string, vars ...any) string { return "" }
func (l *Locale) GetDC(dom, str, ctx string, vars ...any) string { return "" }
func (l *Locale) GetNDC(dom, str, plural string, n int, ctx string, vars ...any) string { return "" }
func Configure(lib, lang, dom string) {}
func SetDomain(d string) {}
func Get(str string, vars ...any) string { return "" }
func GetN(str, plural string, n int, vars ...any) string { return "" }
func GetD(dom, str string, vars ...any) string { return "" }
func GetND(dom, str, plural string, n int, vars ...any) string { return "" }
func GetC(str, ctx string, vars ...any) string { return "" }
func GetNC(str, plural string, n int, ctx string, vars ...any) string { return "" }
func GetDC(dom, str, ctx string, vars ...any) string { return "" }
func GetNDC(dom, str, plural string, n int, ctx string, vars ...any) string { return "" }
`
const fmtStub = `package fmt
func Println(a ...any) (int, error) { return 0, nil }
func Sprint(a ...any) string { return "" }
`

// loader is the simulated packages.Load.
type loader struct {
	fset *token.FileSet
	pkgs map[string]*packages.Package
	deps bool
}

var loaderOrder *Rng // order of the files of a package
var loaderCalls int
var loaderFail int // per cent of the loads of a package tree that fail

func packagesLoader() {
	vpackages.Loader = func(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
		loaderCalls++
		// the type checker walks maps keyed by addresses: how much it draws from
		// the stream that orders map iteration differs from process to process
		base := rt.MapSeed()
		defer func() { rt.SetMapSeed(base + 0x632BE59BD9B4E019) }()
		if loaderFail > 0 && cfg.Mode&packages.NeedDeps != 0 {
			if x := rt.Choose(100); x > 0 && x <= loaderFail {
				rt.Count("load-error")
				rt.TheDisk.Faulted++
				return nil, fmt.Errorf("err: exit status 1: stderr: go: cannot find main module")
			}
		}
		fset := cfg.Fset
		if fset == nil {
			fset = token.NewFileSet()
		}
		l := &loader{fset: fset, pkgs: map[string]*packages.Package{}, deps: cfg.Mode&packages.NeedImports != 0}
		d := cfg.Dir
		if d == "" {
			d = "."
		}
		if !path.IsAbs(d) {
			d = path.Join(rt.Cwd, d)
		}
		d = path.Clean(d)
		var out []*packages.Package
		if len(patterns) == 0 {
			patterns = []string{"."}
		}
		for _, p := range patterns {
			ip := p
			if p == "." || strings.HasPrefix(p, "./") {
				rel, ok := strings.CutPrefix(path.Join(d, p), srcRoot)
				if !ok {
					return nil, fmt.Errorf("err: exit status 1: stderr: go: go.mod file not found")
				}
				ip = modName + rel
			}
			out = append(out, l.load(ip))
		}
		return out, nil
	}
}

// stubCache holds the stub packages of this run.
var stubCache map[string]*packages.Package

func (l *loader) load(ip string) *packages.Package {
	if p := l.pkgs[ip]; p != nil {
		return p
	}
	if p := stubCache[ip]; p != nil && !l.deps {
		return p
	}
	p := &packages.Package{ID: ip, PkgPath: ip, Fset: l.fset, Imports: map[string]*packages.Package{}}
	l.pkgs[ip] = p
	p.TypesInfo = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	srcs := map[string][]byte{}
	switch ip {
	case gtPath:
		srcs["/gotext/gotext.go"] = []byte(gtStub)
	case "fmt":
		srcs["/goroot/fmt/print.go"] = []byte(fmtStub)
	default:
		rel, ok := strings.CutPrefix(ip, modName)
		if !ok {
			break
		}
		d := srcRoot + rel
		for _, n := range rt.TheDisk.Names() {
			if ino := rt.TheDisk.Lookup(n); ino != nil && !ino.Dir && path.Dir(n) == d && strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
				srcs[n] = ino.Data
			}
		}
	}
	if len(srcs) == 0 {
		p.Errors = append(p.Errors, packages.Error{Msg: "no Go files in " + ip, Kind: packages.ListError})
		return p
	}
	names := sortedKeys(srcs)
	if loaderOrder != nil {
		for i := len(names) - 1; i > 0; i-- {
			j := loaderOrder.n(i + 1)
			names[i], names[j] = names[j], names[i]
		}
	}
	for _, n := range names {
		f, err := parser.ParseFile(l.fset, n, srcs[n], parser.ParseComments|parser.AllErrors)
		if err != nil {
			panic(fmt.Sprintf("vsim: generated source does not parse: %v\n%s", err, srcs[n]))
		}
		p.GoFiles = append(p.GoFiles, n)
		p.CompiledGoFiles = append(p.CompiledGoFiles, n)
		p.Syntax = append(p.Syntax, f)
		p.Name = f.Name.Name
	}
	conf := types.Config{Importer: l, Error: func(err error) {
		panic(fmt.Sprintf("vsim: generated source does not type-check: %v", err))
	}}
	p.Types, _ = conf.Check(ip, l.fset, p.Syntax, p.TypesInfo)
	for _, f := range p.Syntax {
		for _, im := range f.Imports {
			q, _ := strconv.Unquote(im.Path.Value)
			if l.deps {
				p.Imports[q] = l.load(q)
			}
		}
	}
	if !l.deps {
		p.Imports = nil
		if ip == gtPath || ip == "fmt" {
			stubCache[ip] = p
		}
	}
	return p
}

// Import lets the type checker find other packages.
func (l *loader) Import(ip string) (*types.Package, error) {
	p := l.load(ip)
	if p.Types == nil {
		return nil, fmt.Errorf("cannot import %s", ip)
	}
	return p.Types, nil
}

// xmsg is one message that a source tree contains.
type xmsg struct {
	plural map[string]bool // those given in the sources; several: any of them will do
	refs   map[string]bool
}

// xtree is a generated source tree.
type xtree struct {
	files map[string][]byte
	want  map[string]map[mkey]*xmsg // per domain
	calls int
}

// pkgDirs are the directories of the packages of a tree; the parent of package k
// is in parents. "util" appears twice: packages of the same name.
var pkgDirs = [][]string{
	{"", "sub", "sub/deep", "web", "web/ui"},
	{"", "a/util", "b/util", "b", "cmd/tool"},
	{"", "ünï", "internal/x", "x.y", "v2"},
	{"", "pkg", "pkg/pkg", "pkg/pkg/pkg", "q"},
}
var xdomains = []string{"", "default", "messages", "a b", "ünï", "x.y", "Default", "errors", "z"}

func pkgName(layout, k int) string {
	if k == 0 {
		return "app"
	}
	b := path.Base(pkgDirs[layout][k])
	switch b {
	case "ünï":
		return "uni"
	case "x.y":
		return "xy"
	case "v2":
		return "app" // a package that is called like the one that imports it
	}
	return b
}

func pkgPath(layout, k int) string {
	if k == 0 {
		return modName
	}
	return modName + "/" + pkgDirs[layout][k]
}

// lit writes s as a Go string literal.
func lit(s string, raw int) string {
	if raw == 1 && !strings.ContainsAny(s, "`\r\x00\ufeff") {
		return "`" + s + "`"
	}
	if raw == 2 {
		return strconv.QuoteToASCII(s)
	}
	return strconv.Quote(s)
}

// build makes the tree of a plan.
func buildTree(p *Plan, tasks [][]Op, layout int, def string) *xtree {
	t := &xtree{files: map[string][]byte{}, want: map[string]map[mkey]*xmsg{}}
	if def == "" {
		def = "default"
	}
	nfile := p.P["nfile"]
	if nfile < 1 {
		nfile = 1
	}
	npkg := len(tasks)
	for k := 0; k < npkg; k++ {
		var kids []int
		for j := k + 1; j < npkg; j++ {
			if int(hashStr(fmt.Sprint(p.P["shape"], j))>>8)%j == k || p.P["diamond"] == j && k == j-1 {
				kids = append(kids, j)
			}
		}
		for fi := 0; fi < nfile; fi++ {
			name := path.Join(srcRoot, pkgDirs[layout][k], fmt.Sprintf("f%d.go", fi))
			alias := "gotext"
			if (p.P["alias"]>>uint(fi))&1 != 0 {
				alias = "gt"
			}
			t.file(p, name, k, fi, layout, alias, kids, tasks[k], nfile, def)
		}
	}
	return t
}

func (t *xtree) file(p *Plan, name string, k, fi, layout int, alias string, kids []int, ops []Op, nfile int, def string) {
	var b strings.Builder
	pn := pkgName(layout, k)
	ref := func(j int) string { // what package j is called in this file
		n := pkgName(layout, j)
		same := 0
		for _, x := range kids {
			if pkgName(layout, x) == n {
				same++
			}
		}
		if same > 1 || (p.P["alias"]>>uint(j+2))&1 != 0 {
			return fmt.Sprintf("p%d", j)
		}
		return n
	}
	fmt.Fprintf(&b, "// Package %s is generated. gotext.Get(\"in a comment\")\npackage %s\n\nimport (\n\t\"fmt\"\n", pn, pn)
	if alias == "gotext" {
		fmt.Fprintf(&b, "\t%q\n", gtPath)
	} else {
		fmt.Fprintf(&b, "\t%s %q\n", alias, gtPath)
	}
	if fi == 0 {
		for _, j := range kids {
			if ref(j) == fmt.Sprintf("p%d", j) {
				fmt.Fprintf(&b, "\tp%d %q\n", j, pkgPath(layout, j))
			} else {
				fmt.Fprintf(&b, "\t%q\n", pkgPath(layout, j))
			}
		}
	}
	b.WriteString(")\n\nvar _ = fmt.Sprint\n")
	fmt.Fprintf(&b, "var _ = %s.NewPo\n", alias)
	if fi == 0 {
		for _, j := range kids {
			fmt.Fprintf(&b, "var _ = %s.Loc\n", ref(j))
		}
		fmt.Fprintf(&b, `
type Sub struct{ T %[1]s.Translator }
type Box struct {
	L *%[1]s.Locale
	P %[1]s.Po
	S Sub
}
type MyPo = *%[1]s.Po
type Other struct{}

func (Other) Get(s string, v ...any) string                    { return s }
func (Other) GetN(s, p string, n int, v ...any) string          { return s }
func (Other) GetD(d, s string, v ...any) string                 { return s }
func (Other) GetC(s, c string, v ...any) string                 { return s }
func Tr() %[1]s.Translator                                      { return nil }
func NewLoc() *%[1]s.Locale                                     { return nil }

var Loc = %[1]s.NewLocale("p", "en")
var Mp MyPo
var Fn = func() *%[1]s.Locale { return Loc }

type Store struct{}

func (Store) Get(k string) *%[1]s.Locale                  { return Loc }
func (Store) GetC(k, c string) []*%[1]s.Locale            { return nil }
func (Store) GetD(k, v string) func(int) %[1]s.Translator { return nil }

var St Store
`, alias)
	}
	line := func() int { return strings.Count(b.String(), "\n") + 1 }
	full := []string{alias, alias, "l", "bx.L", alias + `.NewLocale("p", "en")`, "NewLoc()", "Loc", "Fn()", "(l)", `ms["x"]`, "ls[0]",
		`St.Get("key of a store")`, `St.GetC("key", "of a store")[n]`}
	some := append(full[:len(full):len(full)], "bx.P", "bx.S.T", alias+".NewPo()", "Tr()", "Mp", "dom", "mo", "(*Box)(nil).S.T", "bx.S.T.GetDomain()", "tr", `St.GetD("key of", "a store")(n)`)
	if fi == 0 {
		for _, j := range kids {
			full = append(full, ref(j)+".Loc", ref(j)+".NewLoc()")
			some = append(some, ref(j)+".Mp", ref(j)+".Tr()", ref(j)+".Loc")
		}
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(name, srcRoot), "/")
	for i, op := range ops {
		if op.J%nfile != fi || len(op.A) < 4 {
			continue
		}
		id, pl, ctx, domain := op.A[0], op.A[1], op.A[2], op.A[3]
		raw := op.N / 100 % 3
		if id == "" || ctx == "" {
			continue
		}
		L := func(s string) string { return lit(s, raw) }
		var args []string
		recv := some
		plural := ""
		hasCtx, hasDom := false, false
		switch op.K {
		case "Get":
			args = []string{L(id)}
		case "GetN":
			args = []string{L(id), L(pl), "n"}
			plural = pl
		case "GetC":
			args = []string{L(id), L(ctx)}
			hasCtx = true
		case "GetNC":
			args = []string{L(id), L(pl), "n", L(ctx)}
			plural, hasCtx = pl, true
		case "GetD":
			args, recv = []string{L(domain), L(id)}, full
			hasDom = true
		case "GetND":
			args, recv = []string{L(domain), L(id), L(pl), "n"}, full
			plural, hasDom = pl, true
		case "GetDC":
			args, recv = []string{L(domain), L(id), L(ctx)}, full
			hasCtx, hasDom = true, true
		case "GetNDC":
			args, recv = []string{L(domain), L(id), L(pl), "n", L(ctx)}, full
			plural, hasCtx, hasDom = pl, true, true
		case "noise":
			fmt.Fprintf(&b, "\nfunc fn%d_%d(n int) {\n\tv := %s\n\t", fi, i, L(id))
			switch op.N % 7 {
			case 0:
				fmt.Fprintf(&b, "_ = %s.Get(v)", alias)
			case 1:
				fmt.Fprintf(&b, "_ = v\n\tvar o Other\n\t_ = o.Get(%s)", L(id))
			case 2:
				fmt.Fprintf(&b, "_ = %s.GetD(v, %s)", alias, L(id))
			case 3:
				fmt.Fprintf(&b, "_ = %s.GetN(%s, v, n)", alias, L(id))
			case 4:
				fmt.Fprintf(&b, "_ = v\n\t// %s.Get(%q)\n\t%s.SetDomain(%s)", alias, id, alias, L(id))
			case 5:
				fmt.Fprintf(&b, "_ = %s.GetC(%s, v)\n\t_ = %q", alias, L(id), `gotext.Get("in a string")`)
			case 6:
				fmt.Fprintf(&b, "_ = v\n\t%s := Other{}\n\t_ = %s.Get(%s)", alias, alias, L(id))
			}
			b.WriteString("\n}\n")
			continue
		default:
			continue
		}
		r := recv[op.N/7%100%len(recv)]
		if op.V {
			args = append(args, "n", `"vararg"`)
		}
		sep, open := ", ", "("
		if op.D {
			sep, open = ",\n\t\t", "(\n\t\t"
		}
		cl := ")"
		if op.D {
			cl = ",\n\t)"
		}
		head, dot := "", "."
		if op.N/1000%4 == 1 {
			dot = ".\n\t\t"
		}
		shape := op.N / 10000 % 9
		if shape == 8 { // not in a function
			r = []string{alias, alias + `.NewLocale("p", "en")`, "NewLoc()", "Loc", `St.Get("key of a store")`}[op.N%5]
			for j, a := range args {
				if a == "n" {
					args[j] = "3"
				}
			}
			b.WriteString("\nvar (\n\t_ = 1\n")
		} else {
			fmt.Fprintf(&b, "\nfunc f%d_%d(l *%s.Locale, bx *Box, dom *%s.Domain, mo %s.Mo, tr %s.Translator, n int) string {\n\tms, ls := map[string]*%s.Locale{}, []%s.Locale{{}}\n\t_, _ = ms, ls\n", fi, i, alias, alias, alias, alias, alias, alias)
		}
		switch shape {
		case 0:
			head, cl = "\t_ = ", cl
		case 1:
			head, cl = "\tfmt.Println(1, ", cl+")"
		case 2:
			head, cl = "\tdefer func() { _ = ", cl+" }()"
		case 3:
			head, cl = "\tgo fmt.Println(", cl+")"
		case 4:
			head, cl = "\tif n > 0 {\n\t\treturn \"<\" + ", cl+" + \">\"\n\t}"
		case 5:
			head, cl = "\t_ = map[string]string{\"k\": ", cl+"}"
		case 6: // within the arguments of another
			head, cl = "\t_ = "+alias+".Get(fmt.Sprint(n), ", cl+")"
		case 7:
			head, cl = "\tfor _, f := range []func(int, any) string{func(n int, v any) string {\n\t\treturn ", cl+"\n\t}} {\n\t\t_ = f(n, 1)\n\t}"
		case 8:
			head = "\t_ = "
		}
		b.WriteString(head + r + dot + op.K)
		at := line()
		b.WriteString(open + strings.Join(args, sep) + cl)
		if shape == 8 {
			b.WriteString("\n)\n")
		} else {
			b.WriteString("\n\treturn \"\"\n}\n")
		}
		d := def
		if hasDom && domain != "" {
			d = domain
		}
		key := mkey{"", id}
		if hasCtx {
			key.ctx = ctx
		}
		if t.want[d] == nil {
			t.want[d] = map[mkey]*xmsg{}
		}
		x := t.want[d][key]
		if x == nil {
			x = &xmsg{plural: map[string]bool{}, refs: map[string]bool{}}
			t.want[d][key] = x
		}
		if plural != "" {
			x.plural[plural] = true
		}
		x.refs[fmt.Sprintf("%s:%d", rel, at)] = true
		t.calls++
	}
	t.files[name] = []byte(b.String())
}

func (t *xtree) install() {
	for _, n := range sortedKeys(t.files) {
		rt.TheDisk.Install(n, t.files[n])
	}
}

func (t *xtree) uninstall() {
	for n := range t.files {
		rt.TheDisk.Remove(n)
	}
}

func (g *Rng) xops(p *Plan, n, nfile int, doms []string, ids []string) []Op {
	var ops []Op
	for i := 0; i < n; i++ {
		o := Op{K: g.weighted("Get:5 GetN:4 GetC:3 GetNC:3 GetD:3 GetND:3 GetDC:2 GetNDC:3 noise:2"), J: g.n(nfile), N: g.n(900000), D: g.p(20), V: g.p(20)}
		id := ids[g.n(len(ids))]
		pl := ids[g.n(len(ids))]
		if g.p(60) {
			pl = id + "s" // the usual case: one plural per text
		} else if g.p(15) {
			pl = ""
		}
		o.A = []string{id, pl, ids[g.n(len(ids))], doms[g.n(len(doms))]}
		ops = append(ops, o)
	}
	return ops
}

func (g *Rng) xids() []string {
	var ids []string
	for i := g.rng(2, 9); i > 0; i-- {
		s := strings.ToValidUTF8(g.str(), "?")
		if s != "" && strings.TrimSpace(s) != "" {
			ids = append(ids, s)
		}
	}
	var out []string
	for _, s := range g.twins(append(ids, "plain")) {
		if s = strings.ToValidUTF8(s, "?"); strings.TrimSpace(s) != "" {
			out = append(out, s)
		}
	}
	return out
}

func genXTree(g *Rng, p *Plan) {
	p.P["nfile"] = g.rng(1, 3)
	p.P["layout"] = g.n(len(pkgDirs))
	p.P["layout2"] = g.n(len(pkgDirs))
	p.P["shape"] = g.n(1000)
	p.P["diamond"] = g.n(5)
	p.P["alias"] = g.n(256)
	p.P["default"] = g.n(len(xdomains))
	doms := []string{xdomains[g.n(len(xdomains))], xdomains[g.n(len(xdomains))], xdomains[g.n(len(xdomains))]}
	if d := doms[0]; d != "" && g.p(40) { // names that a careless program takes for the same
		doms = append(doms, []string{d + ".pot", d + ".po", d + " ", " " + d, d + "_", d + "s", d + ".", d + "-en", strings.ToUpper(d),
			strings.ReplaceAll(d, " ", "_"), strings.TrimRight(d, "s"), "x" + d, strings.ReplaceAll(d, ".", "_")}[g.n(13)])
	}
	ids := g.xids()
	max := g.s1("3", "8", "20")
	m := 0
	fmt.Sscan(max, &m)
	for k := g.rng(1, 5); k > 0; k-- {
		p.Tasks = append(p.Tasks, g.xops(p, g.rng(0, m), p.P["nfile"], doms, ids))
	}
	for g.p(35) { // messages whose parts give the same when they are joined
		sep := g.s1("", "", " ", "|", ":", "/", "\n", "\x04", "\"", "\u00a0", ".")
		a, b, c, dom := g.s1("menu", "x", "file"), g.s1("u", "1", "open"), g.s1("item", "y", "s"), doms[g.n(len(doms))]
		for _, q := range [][]string{{a, b + sep + c}, {a + sep + b, c}, {a + sep + b + sep + c, ""}} {
			if g.p(85) {
				o := Op{K: g.s1("GetDC", "GetNDC"), J: g.n(p.P["nfile"]), N: g.n(900000)}
				o.A = []string{q[1], q[1] + "s", q[0], dom}
				if q[1] == "" {
					o.K, o.A = "GetD", []string{q[0], "", "", dom}
				}
				k := g.n(len(p.Tasks))
				p.Tasks[k] = append(p.Tasks[k], o)
			}
		}
	}
}

func genXDet(g *Rng, p *Plan) {
	genXTree(g, p)
	p.P["order"] = g.n(1 << 20)
	p.P["tool"] = g.n(4)
	p.P["excl"] = g.n(3)
	if g.p(50) { // another tree in between, in the same process
		ids := g.xids()
		if g.p(50) {
			ids = append(ids, p.firstIDs()...)
		}
		p.Post = g.xops(p, g.rng(1, 8), p.P["nfile"], []string{"", "default", xdomains[g.n(len(xdomains))]}, ids)
	}
}

func (p *Plan) firstIDs() []string {
	var out []string
	for _, t := range p.Tasks {
		for _, o := range t {
			out = append(out, o.A[0])
		}
	}
	return out
}

// childExit: a goroutine has ended the process with status childExit-1.
var childExit int

// tool runs the whole program in a fresh process. When main returns or the
// program exits, the process is gone with all its goroutines.
func xtool(args ...string) (code int) {
	rt.ResetPackages()
	vos.Args = append([]string{"xgotext"}, args...)
	var h *rt.Halted
	rt.OnExit = func(c int) {
		if rt.InChild() {
			childExit = c + 1
		} else if h == nil {
			h, code = rt.Halt(), c
		}
		panic(rt.ExitT{Code: c})
	}
	defer func() {
		rt.OnExit = nil
		x := recover()
		if h != nil {
			h.Resume()
		} else if x != nil {
			panic(x)
		}
	}()
	vsimmain.Main()
	h = rt.Halt()
	return 0
}

// extract runs one extraction with the library calls.
func xextract(tree bool, def, out string, exclude []string) error {
	data := &xparser.DomainMap{Default: def}
	var err error
	if tree {
		err = pkgtree.ParsePkgTree(srcRoot, data, false)
	} else {
		err = dir.ParseDirRec(srcRoot, exclude, data, false)
	}
	if err != nil {
		return err
	}
	return data.Save(out)
}

// outFiles returns the files below d.
func outFiles(d string) map[string]string {
	out := map[string]string{}
	for _, n := range rt.TheDisk.Names() {
		if strings.HasPrefix(n, d+"/") {
			if ino := rt.TheDisk.Lookup(n); !ino.Dir {
				out[strings.TrimPrefix(n, d+"/")] = string(ino.Data)
			}
		}
	}
	return out
}

// checkTemplates compares template files with what the tree contains.
func checkTemplates(files map[string]string, want map[string]map[mkey]*xmsg) string {
	for _, d := range sortedKeys(want) {
		name := d + ".pot"
		text, ok := files[name]
		if !ok {
			return fmt.Sprintf("domain %q has no file (%q)", d, sortedKeys(files))
		}
		got, _, err := readPO(text)
		if err != nil {
			return fmt.Sprintf("%s is not well-formed PO: %v\n%s", name, err, text)
		}
		delete(got, mkey{"", ""})
		po := gotext.NewPo()
		po.Parse([]byte(text))
		read := map[mkey]*gotext.Translation{}
		for id, tr := range po.GetDomain().GetTranslations() {
			read[mkey{"", id}] = tr
		}
		for ctx, l := range po.GetDomain().GetCtxTranslations() {
			for id, tr := range l {
				read[mkey{ctx, id}] = tr
			}
		}
		var keys []mkey
		for k := range want[d] {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprintf("%q", keys[i]) < fmt.Sprintf("%q", keys[j]) })
		for _, k := range keys {
			w := want[d][k]
			e := got[k]
			if e == nil {
				return fmt.Sprintf("message %q of domain %q is not in %s\n%s", k, d, name, text)
			}
			if !w.plural[e.pid] && (e.pid != "" || len(w.plural) > 0) {
				return fmt.Sprintf("message %q of domain %q has plural %q, found was %q\n%s", k, d, e.pid, sortedKeys(w.plural), text)
			}
			for i, s := range e.trs {
				if s != "" || i > 1 {
					return fmt.Sprintf("message %q has translation %d %q in a template", k, i, s)
				}
			}
			if a, b := strings.Join(uniq(e.refs), " "), strings.Join(sortedKeys(w.refs), " "); a != b {
				return fmt.Sprintf("message %q of domain %q refers to %q, found was %q\n%s", k, d, a, b, text)
			}
			r := read[k]
			if r == nil {
				return fmt.Sprintf("package gotext does not find message %q in %s\n%s", k, name, text)
			}
			if r.ID != k.id || r.PluralID != e.pid {
				return fmt.Sprintf("package gotext reads message %q of %s as %q plural %q\n%s", k, name, r.ID, r.PluralID, text)
			}
			if a, b := strings.Join(uniq(r.Refs), " "), strings.Join(sortedKeys(w.refs), " "); a != b {
				return fmt.Sprintf("package gotext reads references %q of %q, found was %q", a, k, b)
			}
		}
		for k := range got {
			if want[d][k] == nil {
				return fmt.Sprintf("%s has message %q, which is not in the sources\n%s", name, k, text)
			}
		}
		for k := range read {
			if want[d][k] == nil && k.id != "" {
				return fmt.Sprintf("package gotext reads message %q from %s, which is not in the sources\n%s", k, name, text)
			}
		}
	}
	for n := range files {
		if strings.HasSuffix(n, ".pot") && want[strings.TrimSuffix(n, ".pot")] == nil {
			return fmt.Sprintf("file %q belongs to no domain", n)
		}
	}
	return ""
}

func uniq(l []string) []string {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return sortedKeys(m)
}

func sameFiles(a, b map[string]string) string {
	for _, n := range sortedKeys(a) {
		if a[n] != b[n] {
			return fmt.Sprintf("%s differs:\n%s\n--- and ---\n%s", n, a[n], b[n])
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("different files: %q and %q", sortedKeys(a), sortedKeys(b))
	}
	return ""
}

func runXDet(e *Env) {
	p := e.P
	stubCache = map[string]*packages.Package{}
	def := xdomains[p.P["default"]]
	a := buildTree(p, p.Tasks, p.P["layout"], def)
	var other *xtree
	if len(p.Post) > 0 {
		other = buildTree(p, [][]Op{p.Post}, p.P["layout2"], def)
	}
	g := newRng(uint64(p.P["order"]))
	childExit = 0
	defer func() {
		if childExit > 1 && e.R.Viol == "" {
			e.R.fail("extract", "extraction ends with status %d", childExit-1)
		}
	}()
	e.seq("extract", func() {
		rt.Cwd = srcRoot
		a.install()
		var first map[string]string
		var excl []string
		if p.P["excl"] > 0 {
			excl = []string{".git"}
			rt.TheDisk.Install(srcRoot+"/.git/x.go", []byte("package git\n\nimport \""+gtPath+"\"\n\nvar _ = gotext.Get(\"excluded\")\n"))
		}
		if p.P["excl"] > 1 {
			excl = append(excl, "third_party")
			rt.TheDisk.Install(srcRoot+"/third_party/x/x.go", []byte("package x\n\nimport \""+gtPath+"\"\n\nvar _ = gotext.Get(\"excluded\")\n"))
		}
		for i := 0; i < 4; i++ {
			rt.SetMapSeed(g.u())
			loaderOrder = g
			tree := g.p(50)
			out := fmt.Sprintf("/vsim/out%d", i)
			how := map[bool]string{true: "package tree", false: "directories"}[tree]
			if p.P["tool"] == i && def != "" {
				how += ", whole program"
				args := []string{"-out", out, "-default", def}
				if tree {
					args = append(args, "-pkg-tree", srcRoot)
				} else {
					args = append(args, "-in", srcRoot, "-exclude", strings.Join(excl, ","))
					if len(excl) == 0 {
						args = args[:len(args)-2]
					}
				}
				if c := xtool(args...); c != 0 {
					e.R.fail("extract", "extraction %d (%s) ends with status %d", i, how, c)
					return
				}
			} else if err := xextract(tree, def, out, excl); err != nil {
				e.R.fail("extract", "extraction %d (%s) fails: %v", i, how, err)
				return
			}
			rt.Count("extraction: " + how)
			files := outFiles(out)
			e.mix(files)
			if s := checkTemplates(files, a.want); s != "" {
				e.R.fail("template", "extraction %d (%s): %s", i, how, s)
				return
			}
			if first == nil {
				first = files
			} else if s := sameFiles(first, files); s != "" {
				e.R.fail("order", "extraction %d (%s) of the same sources: %s", i, how, s)
				return
			}
			if other != nil && i < 3 {
				a.uninstall()
				other.install()
				out := fmt.Sprintf("/vsim/other%d", i)
				if err := xextract(g.p(50), def, out, excl); err != nil {
					e.R.fail("extract", "extraction of the other tree fails: %v", err)
					return
				}
				if s := checkTemplates(outFiles(out), other.want); s != "" {
					e.R.fail("template", "other tree, after extraction %d: %s", i, s)
					return
				}
				rt.Count("extraction of another tree in between")
				other.uninstall()
				a.install()
			}
		}
	})
	loaderOrder = nil
	e.dumpTree(a)
}

// mix makes what was written part of what tells runs apart: there is one client.
func (e *Env) mix(files map[string]string) {
	for _, n := range sortedKeys(files) {
		e.R.Hash = e.R.Hash*1099511628211 ^ hashStr(n) ^ hashStr(files[n])*31
	}
}

func (e *Env) dumpTree(t *xtree) {
	if e.R.Viol != "" {
		var b bytes.Buffer
		for _, n := range sortedKeys(t.files) {
			fmt.Fprintf(&b, "== %s\n%s\n", n, t.files[n])
		}
		e.R.Report += b.String()
	}
}

func genXSave(g *Rng, p *Plan) {
	genXTree(g, p)
	if len(p.Tasks) > 3 {
		p.Tasks = p.Tasks[:3]
	}
	for k := range p.Tasks {
		if len(p.Tasks[k]) > 7 {
			p.Tasks[k] = p.Tasks[k][:7]
		}
	}
	p.P["api"] = g.n(3)
	p.P["old"] = g.n(7)
	p.P["lost"] = 0
	if g.p(40) {
		p.P["lost"] = 1 + g.n(1000)
	}
	p.P["obst"] = g.n(12)
	p.P["tree"] = g.n(2)
	p.P["nested"] = g.n(3)
	one := func(v *int) {
		if g.p(40) {
			*v = g.rng(1, 60)
		}
	}
	switch g.n(10) {
	case 0: // no fault
	case 8, 9: // the sources can't be read
		p.P["rd"] = 1
		p.Faults.DirErr = g.rng(3, 50)
		p.P["loadfail"] = g.rng(0, 60)
	case 1: // the disk fills up
		p.P["full"] = g.n(1500) + 1
	case 2, 3:
		p.P["crash"] = g.rng(1, 14)
	default:
		one(&p.Faults.CreateErr)
		one(&p.Faults.WriteErr)
		one(&p.Faults.ShortWr)
		one(&p.Faults.CloseErr)
		one(&p.Faults.MkdirErr)
		one(&p.Faults.SyncErr)
		one(&p.Faults.RenameErr)
	}
	if g.p(10) && p.P["crash"] == 0 {
		p.P["full"] = g.n(3000) + 1
	}
}

// lostBlock zeroes a part of a file.
func lostBlock(s string, k int) string {
	if len(s) == 0 {
		return s
	}
	b := []byte(s)
	i := k % len(b)
	for j := i; j < len(b) && j < i+1+k%600; j++ {
		b[j] = 0
	}
	return string(b)
}

func runXSave(e *Env) {
	p := e.P
	stubCache = map[string]*packages.Package{}
	def := xdomains[p.P["default"]]
	t := buildTree(p, p.Tasks, p.P["layout"], def)
	out := []string{"/vsim/out", "/vsim/out/i18n/templates", srcRoot + "/i18n"}[p.P["nested"]]
	run := func(o string, fault func()) (string, bool) {
		data := &xparser.DomainMap{Default: def}
		if p.P["rd"] == 1 {
			fault()
		}
		if p.P["api"] > 0 || def == "" {
			var err error
			if p.P["tree"] > 0 {
				err = pkgtree.ParsePkgTree(srcRoot, data, false)
			} else {
				err = dir.ParseDirRec(srcRoot, nil, data, false)
			}
			if err != nil {
				return "extraction: " + err.Error(), false
			}
			fault()
			if err := data.Save(o); err != nil {
				return err.Error(), false
			}
			return "", true
		}
		in := "-in"
		if p.P["tree"] > 0 {
			in = "-pkg-tree"
		}
		fault()
		if c := xtool("-default", def, "-out", o, in, srcRoot); c != 0 {
			return fmt.Sprintf("exit status %d", c), false
		}
		return "", true
	}
	var want map[string]string
	ok := e.seq("reference", func() {
		rt.Cwd = srcRoot
		t.install()
		msg, ok := run("/vsim/ref", func() {})
		if !ok {
			e.R.fail("save", "saving to a working disk fails: %s", msg)
			return
		}
		want = outFiles("/vsim/ref")
		if s := checkTemplates(want, t.want); s != "" {
			e.R.fail("template", "saved to a working disk: %s", s)
		}
	})
	if !ok || e.R.Viol != "" {
		e.dumpTree(t)
		return
	}
	names := sortedKeys(want)
	// what is there already
	d := rt.TheDisk
	blocked := ""
	switch {
	case p.P["obst"] == 0:
		d.Install(out, []byte("a file where the directory should be"))
		blocked = out
	case p.P["obst"] == 1 && p.P["nested"] == 1:
		d.Install("/vsim/out/i18n", []byte("a file where a directory should be"))
		blocked = "/vsim/out/i18n"
	case p.P["obst"] == 2 && len(names) > 0:
		blocked = out + "/" + names[len(names)/2]
		d.Mkdir(blocked)
	}
	if blocked == "" && p.P["old"] > 0 {
		d.Mkdir(out)
		for i, n := range names {
			old := want[n]
			switch p.P["old"] {
			case 1:
				old += "\n\nmsgid \"old\"\nmsgstr \"\"\n" + strings.Repeat("# old\n", 40)
			case 2:
				old = old[:len(old)/2]
			case 4: // the size was on disk before a power failure, but not all the blocks
				old = lostBlock(old, p.P["lost"])
			case 5: // another text of the same length
				if k := strings.LastIndexAny(old, "abcdefghijklmnopqrstuvwxyz"); k >= 0 {
					old = old[:k] + string(rune('a'+(old[k]-'a'+1)%26)) + old[k+1:]
				}
			case 6: // as it will be, but for the last lines
				old = old[:strings.LastIndexByte(strings.TrimRight(old, "\n"), '\n')+1]
			case 3:
				if i%2 == 0 {
					continue
				}
				old = "msgid \"old\"\nmsgstr \"old\"\n"
			}
			d.Install(out+"/"+n, []byte(old))
		}
		d.Install(out+"/foreign.txt", []byte("keep me"))
	}
	if blocked != "" {
		e.R.Counts["obstacle: "+map[bool]string{true: "a directory where a file should be", false: "a file where a directory should be"}[p.P["obst"] == 2]]++
	}
	status, done := "the process was ended", false
	var got map[string]string
	childExit = 0
	e.seq("faulty", func() {
		status, done = run(out, func() {
			d.Faulted = 0
			d.F = p.Faults
			loaderFail = p.P["loadfail"]
			if p.P["full"] > 0 {
				d.Full = p.P["full"] - 1
			}
			if p.P["crash"] > 0 {
				d.CrashAt = d.Ops + p.P["crash"]
				if p.P["api"] == 0 {
					d.CrashAt += g2(p)
				}
			}
		})
		// what is there at this instant counts, not what a goroutine still writes
		got = outFiles(out)
		rt.Halt().Resume()
	})
	crashed := d.Crashed
	loaderFail = 0
	harm := d.Faulted > 0 || blocked != ""
	d.F, d.Full, d.CrashAt, d.Crashed = rt.Faults{}, -1, 0, false
	if e.R.Viol != "" {
		return
	}
	if got == nil {
		got = outFiles(out)
	}
	e.mix(got)
	complete := ""
	for _, n := range names {
		if g, ok := got[n]; !ok {
			complete = fmt.Sprintf("%s is missing", n)
		} else if g != want[n] {
			complete = fmt.Sprintf("%s is not complete:\n%s\n--- expected ---\n%s", n, g, want[n])
		}
		if complete != "" {
			break
		}
	}
	switch {
	case crashed:
		e.R.Counts["crashed save"]++
	case done && complete != "":
		e.R.fail("silent", "saving reports success but %s", complete)
	case !done && !harm:
		e.R.fail("save", "saving fails although nothing failed: %s", status)
	case done:
		e.R.Counts["save reported success"]++
	default:
		e.R.Counts["save reported an error"]++
	}
	if e.R.Viol == "" && blocked == "" && p.P["old"] > 0 {
		if ino := d.Lookup(out + "/foreign.txt"); ino == nil || string(ino.Data) != "keep me" {
			e.R.fail("foreign", "a file that is not an output file is gone")
		}
	}
	if e.R.Viol == "" && crashed && p.P["lost"] > 0 { // the machine went down
		for _, n := range names {
			if ino := d.Lookup(out + "/" + n); ino != nil && !ino.Dir && len(ino.Data) > 0 {
				ino.Data = []byte(lostBlock(string(ino.Data), p.P["lost"]))
				e.R.Counts["lost-block"]++
			}
		}
	}
	if e.R.Viol == "" {
		// a new process on a working disk
		if blocked != "" {
			d.Remove(blocked)
		}
		rt.ResetPackages()
		e.seq("rerun", func() {
			if msg, ok := run(out, func() {}); !ok {
				e.R.fail("save", "a rerun on a working disk fails: %s", msg)
				return
			}
			got := outFiles(out)
			for _, n := range names {
				if got[n] != want[n] {
					e.R.fail("rerun", "after a rerun on a working disk %s is\n%s\n--- expected ---\n%s", n, got[n], want[n])
					return
				}
			}
		})
	}
	e.dumpTree(t)
}

// g2: how many operations of the extraction to skip before a crash.
func g2(p *Plan) int { return int(hashStr(fmt.Sprint(p.Seed)) % 30) }

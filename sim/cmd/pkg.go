package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/leonelquinteros/gotext"
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// The package-level functions.

const defaultLib = "/usr/local/share/locale"

var pkgLangs = []string{"fr_FR", "de_DE", "fr", "en_US"}

// simplified strips encoding and modifier of a language code.
func simplified(l string) string {
	for _, c := range []string{":", "@", "."} {
		l, _, _ = strings.Cut(l, c)
	}
	return strings.TrimSpace(l)
}

func splitLangs(s string) []string {
	var out []string
	for _, l := range strings.Split(s, ":") {
		out = append(out, simplified(l))
	}
	return out
}

// pkgLoc is the model of one locale of the package.
type pkgLoc struct {
	lib, lang, def string
	doms           map[string]int // loaded domains: document
}

func (l pkgLoc) clone() pkgLoc {
	d := map[string]int{}
	for k, v := range l.doms {
		d[k] = v
	}
	l.doms = d
	return l
}

// load is AddDomain.
func (l *pkgLoc) load(f files, dom string) {
	if p := f.resolve(l.lib, l.lang, dom, "po", "mo"); p != "" {
		l.doms[dom] = f[p]
		if l.def == "" {
			l.def = dom
		}
	}
}

// pkgState is the model of the package's configuration.
type pkgState struct {
	lib, dom string
	langs    []string
	locs     []pkgLoc
	files    files
	pend     map[int]string
	k        string
}

func (s *pkgState) clone() *pkgState {
	n := &pkgState{lib: s.lib, dom: s.dom, langs: s.langs, files: s.files, pend: map[int]string{}}
	for _, l := range s.locs {
		n.locs = append(n.locs, l.clone())
	}
	for k, v := range s.pend {
		n.pend[k] = v
	}
	return n
}

func (s *pkgState) key() string {
	if s.k == "" {
		var b strings.Builder
		fmt.Fprintf(&b, "%s|%s|%v|", s.lib, s.dom, s.langs)
		for _, l := range s.locs {
			fmt.Fprintf(&b, "{%s %s %s", l.lib, l.lang, l.def)
			for _, d := range sortedKeys(l.doms) {
				fmt.Fprintf(&b, " %s=%d", d, l.doms[d])
			}
			b.WriteString("}")
		}
		for _, p := range sortedKeys(s.files) {
			fmt.Fprintf(&b, "%s=%d;", p, s.files[p])
		}
		var ks []int
		for i := range s.pend {
			ks = append(ks, i)
		}
		sort.Ints(ks)
		for _, i := range ks {
			fmt.Fprintf(&b, "p%d=%s;", i, s.pend[i])
		}
		s.k = b.String()
	}
	return s.k
}

func (s *pkgState) with(i int, v string) *pkgState {
	n := s.clone()
	n.pend[i] = v
	return n
}

func (s *pkgState) take(i int) (string, *pkgState) {
	n := s.clone()
	v := n.pend[i]
	delete(n.pend, i)
	return v, n
}

// build makes new locales from the configuration.
func (s *pkgState) build() *pkgState {
	n := s.clone()
	n.locs = nil
	for _, lang := range n.langs {
		l := pkgLoc{lib: n.lib, lang: simplified(lang), doms: map[string]int{}}
		l.load(n.files, n.dom)
		l.def = n.dom
		n.locs = append(n.locs, l)
	}
	return n
}

// first is what every lookup does before it looks.
func (s *pkgState) first() *pkgState {
	if len(s.locs) == 0 {
		return s.build()
	}
	n := s.clone()
	for i := range n.locs {
		if _, ok := n.locs[i].doms[n.dom]; !ok {
			n.locs[i].load(n.files, n.dom)
		}
		n.locs[i].def = n.dom
	}
	return n
}

func (s *pkgState) domain() string {
	if len(s.locs) > 0 && s.locs[0].def != "" {
		return s.locs[0].def
	}
	return s.dom
}

func (w *pkgWorld) content(l pkgLoc, dom string) *mcat {
	if j, ok := l.doms[dom]; ok {
		return w.cats[j]
	}
	return nil
}

// lookup gives the right answers in domain dom.
func (w *pkgWorld) lookup(s *pkgState, dom string, op Op) ([]string, *pkgState) {
	n := s.clone()
	q := op
	q.K = "ist" + kindOf(op.K)
	for i := range n.locs {
		l := &n.locs[i]
		if _, ok := l.doms[dom]; !ok {
			l.load(n.files, dom)
		}
		m := w.content(*l, dom)
		if !istOf(m, q) && i < len(n.locs)-1 {
			continue
		}
		return answers(m, op), n
	}
	return nil, n
}

func (w *pkgWorld) isTranslated(s *pkgState, dom string, langs []string, op Op) (bool, *pkgState) {
	n := s.clone()
	for _, lang := range langs {
		lang = simplified(lang)
		for i := range n.locs {
			l := &n.locs[i]
			if lang != l.lang && lang != n.files.actual(l.lib, l.lang, dom) {
				continue
			}
			if _, ok := l.doms[dom]; !ok {
				l.load(n.files, dom)
			}
			if istOf(w.content(*l, dom), op) {
				return true, n
			}
		}
	}
	return false, n
}

// pkgWorld is one process using the package.
type pkgWorld struct {
	p    *Plan
	ds   *docSet
	cats []*mcat
	sets map[string][]*gotext.Locale // locales for SetLocales, by call
	nest func(Op)
}

func newPkgWorld(p *Plan, ds *docSet) *pkgWorld {
	w := &pkgWorld{p: p, ds: ds, sets: map[string][]*gotext.Locale{}}
	for i := range ds.docs {
		w.cats = append(w.cats, fromDoc(&ds.docs[i]))
	}
	for _, f := range p.Files {
		rt.TheDisk.Install(f.Path, ds.raw[f.Doc])
	}
	num := -1
	for _, l := range append([][]Op{p.Init}, p.Tasks...) {
		for _, op := range l {
			num++
			if op.K == "setlocs" || op.K == "setstor" {
				for _, x := range op.A[1:] {
					lang, d, j := parseLoc(x)
					l := gotext.NewLocale(op.A[0], lang)
					if j >= 0 {
						l.AddTranslator(d, newTranslator(&ds.docs[j], ds.raw[j]))
					}
					l.SetDomain(d)
					w.sets[fmt.Sprint(num)] = append(w.sets[fmt.Sprint(num)], l)
				}
			}
		}
	}
	return w
}

// vandal is a locale that nobody configured.
func vandal() *gotext.Locale {
	l := gotext.NewLocale("/vandal", "xx")
	for _, d := range doms {
		tr := gotext.NewPo()
		for _, id := range ids {
			tr.GetDomain().SetN(id, pluralOf(id), 1, "VANDAL")
			tr.GetDomain().SetN(id, pluralOf(id), 2, "VANDALS")
		}
		l.AddTranslator(d, tr)
	}
	return l
}

// parseLoc reads "lang/domain/document".
func parseLoc(x string) (lang, dom string, j int) {
	f := strings.Split(x, "/")
	fmt.Sscan(f[2], &j)
	return f[0], f[1], j
}

func (w *pkgWorld) do(op Op, num int) string {
	vars := op.vars(nestPkg, w.nest)
	a := func(i int) string {
		if i < len(op.A) {
			return op.A[i]
		}
		return ""
	}
	id, ctx, dom := a(0), a(1), a(2)
	var langs []string
	if isIst(op.K) {
		langs = op.A[3:]
	}
	switch op.K {
	case "get":
		if op.D {
			return gotext.GetD(dom, id, vars...)
		}
		return gotext.Get(id, vars...)
	case "getn":
		if op.D {
			return gotext.GetND(dom, id, pluralOf(id), op.N, vars...)
		}
		return gotext.GetN(id, pluralOf(id), op.N, vars...)
	case "getc":
		if op.D {
			return gotext.GetDC(dom, id, ctx, vars...)
		}
		return gotext.GetC(id, ctx, vars...)
	case "getnc":
		if op.D {
			return gotext.GetNDC(dom, id, pluralOf(id), op.N, ctx, vars...)
		}
		return gotext.GetNC(id, pluralOf(id), op.N, ctx, vars...)
	case "ist":
		if op.D {
			return fmt.Sprint(gotext.IsTranslatedD(dom, id, langs...))
		}
		return fmt.Sprint(gotext.IsTranslated(id, langs...))
	case "istn":
		if op.D {
			return fmt.Sprint(gotext.IsTranslatedND(dom, id, op.N, langs...))
		}
		return fmt.Sprint(gotext.IsTranslatedN(id, op.N, langs...))
	case "istc":
		if op.D {
			return fmt.Sprint(gotext.IsTranslatedDC(dom, id, ctx, langs...))
		}
		return fmt.Sprint(gotext.IsTranslatedC(id, ctx, langs...))
	case "istnc":
		if op.D {
			return fmt.Sprint(gotext.IsTranslatedNDC(dom, id, op.N, ctx, langs...))
		}
		return fmt.Sprint(gotext.IsTranslatedNC(id, op.N, ctx, langs...))
	case "configure":
		gotext.Configure(a(0), a(1), a(2))
	case "setdom":
		gotext.SetDomain(a(0))
	case "setlang":
		gotext.SetLanguage(a(0))
	case "setlib":
		gotext.SetLibrary(a(0))
	case "setlocs":
		l, back := lend(w.ds, append([]*gotext.Locale(nil), w.sets[fmt.Sprint(num)]...))
		gotext.SetLocales(l)
		back(vandal())
	case "setstor":
		gotext.SetStorage(w.sets[fmt.Sprint(num)][0])
	case "getdom":
		return gotext.GetDomain()
	case "getlang":
		return gotext.GetLanguage()
	case "getlangs":
		l := gotext.GetLanguages()
		s := strings.Join(l, ":")
		gotBack(w.ds, op, l, "xx")
		return s
	case "getlib":
		return gotext.GetLibrary()
	case "getlocs":
		var out []string
		ls := gotext.GetLocales()
		for _, l := range ls {
			out = append(out, l.GetLanguage())
		}
		gotBack(w.ds, op, ls, vandal())
		return strings.Join(out, ":")
	case "getstor":
		if l := gotext.GetStorage(); l != nil {
			return l.GetLanguage()
		}
		return "none"
	case "uselocs":
		// lookups through the locales the package uses now
		for _, l := range gotext.GetLocales() {
			if r := l.GetD(dom, id, vars...); r == "" {
				return r
			}
			l.GetTranslations()
			l.IsTranslatedD(dom, id)
		}
		return "ok"
	case "put":
		rt.TheDisk.Install(a(0), w.ds.raw[op.J])
	case "scribble":
		b := w.ds.raw[op.J]
		rt.TheDisk.SetData(a(0), b[:len(b)/2])
		rt.Y(-1)
		rt.TheDisk.SetData(a(0), b)
	case "rm":
		rt.TheDisk.Remove(a(0))
	case "dead":
		rt.TheDisk.Kill(a(0))
	default:
		panic("unknown op " + op.K)
	}
	return ""
}

// steps translates a recorded call into atomic steps of the model.
func (w *pkgWorld) steps(r *Rec, ops []linOp) []linOp {
	op, num := r.Op, r.Num
	add := func(after int, f func(s *pkgState) (*pkgState, bool)) int {
		ops = append(ops, linOp{inv: r.Inv, ret: r.Ret, after: after, name: op.String(), apply: func(s linState) (linState, bool) {
			n, ok := f(s.(*pkgState))
			return n, ok
		}})
		return len(ops) - 1
	}
	read := func(f func(s *pkgState) string) {
		add(-1, func(s *pkgState) (*pkgState, bool) { return s, f(s) == r.Res })
	}
	reload := func(after int) {
		add(after, func(s *pkgState) (*pkgState, bool) { return s.build(), true })
	}
	switch op.K {
	case "get", "getn", "getc", "getnc", "ist", "istn", "istc", "istnc":
		after := -1
		langs := op.A[min(3, len(op.A)):]
		if !op.D {
			after = add(after, func(s *pkgState) (*pkgState, bool) { return s.with(num, s.domain()), true })
		}
		if isIst(op.K) && len(langs) == 0 {
			after = add(after, func(s *pkgState) (*pkgState, bool) { return s.with(num+1000000, strings.Join(s.langs, ":")), true })
		}
		after = add(after, func(s *pkgState) (*pkgState, bool) { return s.first(), true })
		add(after, func(s *pkgState) (*pkgState, bool) {
			dom := op.A[2]
			if !op.D {
				dom, s = s.take(num)
			}
			if isIst(op.K) {
				ls := langs
				if len(ls) == 0 {
					var x string
					x, s = s.take(num + 1000000)
					ls = strings.Split(x, ":")
				}
				ok, n := w.isTranslated(s, dom, ls, op)
				return n, fmt.Sprint(ok) == r.Res
			}
			want, n := w.lookup(s, dom, op)
			return n, matches(op, want, r.Res)
		})
	case "configure":
		reload(add(-1, func(s *pkgState) (*pkgState, bool) {
			n := s.clone()
			n.lib, n.langs, n.dom = op.A[0], splitLangs(op.A[1]), op.A[2]
			return n, true
		}))
	case "setdom":
		reload(add(-1, func(s *pkgState) (*pkgState, bool) {
			n := s.clone()
			n.dom = op.A[0]
			for i := range n.locs {
				n.locs[i].def = n.dom
			}
			return n, true
		}))
	case "setlang":
		reload(add(-1, func(s *pkgState) (*pkgState, bool) {
			n := s.clone()
			n.langs = splitLangs(op.A[0])
			return n, true
		}))
	case "setlib":
		reload(add(-1, func(s *pkgState) (*pkgState, bool) {
			n := s.clone()
			n.lib = op.A[0]
			return n, true
		}))
	case "setlocs", "setstor":
		add(-1, func(s *pkgState) (*pkgState, bool) {
			n := s.clone()
			n.locs, n.langs = nil, nil
			n.lib = op.A[0]
			for i, x := range op.A[1:] {
				if i > 0 && op.K == "setstor" {
					break
				}
				lang, d, j := parseLoc(x)
				l := pkgLoc{lib: op.A[0], lang: simplified(lang), def: d, doms: map[string]int{}}
				if j >= 0 {
					l.doms[d] = j
				}
				n.locs = append(n.locs, l)
				n.langs = append(n.langs, l.lang)
			}
			n.dom = n.locs[0].def
			return n, true
		})
	case "getdom":
		read(func(s *pkgState) string { return s.domain() })
	case "getlang":
		read(func(s *pkgState) string { return s.langs[0] })
	case "getlangs":
		read(func(s *pkgState) string { return strings.Join(s.langs, ":") })
	case "getlib":
		read(func(s *pkgState) string { return s.lib })
	case "getlocs":
		read(func(s *pkgState) string {
			var out []string
			for _, l := range s.locs {
				out = append(out, l.lang)
			}
			return strings.Join(out, ":")
		})
	case "getstor":
		read(func(s *pkgState) string {
			if len(s.locs) > 0 {
				return s.locs[0].lang
			}
			return "none"
		})
	case "put":
		add(-1, func(s *pkgState) (*pkgState, bool) {
			n := s.clone()
			n.files = files{}
			for k, v := range s.files {
				n.files[k] = v
			}
			n.files[op.A[0]] = op.J
			return n, true
		})
	case "rm":
		add(-1, func(s *pkgState) (*pkgState, bool) {
			n := s.clone()
			n.files = files{}
			for k, v := range s.files {
				if k != op.A[0] {
					n.files[k] = v
				}
			}
			return n, true
		})
	default:
		panic("no model for " + op.K)
	}
	return ops
}

const (
	mixPkgLook = "get:6 getn:6 getc:4 getnc:4 ist:2 istn:2 istc:2 istnc:2 "
	mixPkgRead = "getdom:2 getlang:1 getlangs:1 getlib:1 getlocs:1 getstor:1 "
	mixPkgConf = "configure:5 setdom:5 setlang:4 setlib:3 setlocs:3 setstor:1 "
)

var pkgMoreLangs = []string{"it_IT", "es_ES", "pt_BR", "pt_PT", "nl_NL", "sv_SE", "pl_PL", "zh_CN", "zh_TW", "cs", "ru", "ja"}

var pkgLangArgs = []string{"fr_FR", "fr", "de_DE", "fr_FR:de_DE", "de_DE:fr", "fr:de_DE:en_US", "en_US", "fr_FR.UTF-8:de_DE@euro", "fr_FR:C"}

// genPkgPlan: clients of the package. how: race, reconf, fallback.
func genPkgPlan(g *Rng, p *Plan, how string) {
	p.P["nids"] = g.rng(1, 4)
	p.P["nctx"] = g.rng(1, 2)
	p.P["fmt"] = b2i(g.p(20) || p.P["lazy"] == 1)
	r := g.n(len(rules)+1) - 1
	nd := g.rng(1, 3)
	if p.Prop != "C26" && g.p(3) {
		nd = g.rng(4, 20)
	}
	used := doms[:nd]
	p.P["ndom"] = nd
	libs := []string{"/vsim/lib"}
	if g.p(40) {
		libs = append(libs, "/vsim/lib2")
	}
	fresh := g.p(35)
	if fresh {
		libs = append(libs, defaultLib)
	}
	langArgs := pkgLangArgs
	for _, lib := range libs {
		for _, lang := range pkgLangs[:2] {
			if g.p(75) {
				genLocFiles(g, p, lib, lang, r, used)
			}
		}
		if g.p(40) {
			genLocFiles(g, p, lib, "en_US", r, used)
		}
	}
	asked := []string{"fr_FR", "fr", "de_DE", "en_US", "de", "fr_FR.UTF-8"}
	maxLocs := 2
	if p.Prop != "C26" && g.p(4) { // many languages
		most := 3
		if nd <= 3 {
			most = len(pkgMoreLangs)
		}
		more := shuffle(g, append([]string(nil), pkgMoreLangs...))[:g.rng(2, most)]
		for _, lang := range more {
			if g.p(70) {
				genLocFiles(g, p, libs[0], lang, r, used)
			}
		}
		langArgs = nil
		for i := g.rng(1, 3); i > 0; i-- {
			l := shuffle(g, append([]string{"fr_FR", "de_DE", "en_US"}, more...))
			langArgs = append(langArgs, strings.Join(l[:g.rng(3, len(l))], ":"))
		}
		asked = append(asked, more...)
		maxLocs = 6
	}
	p.Files = uniqFiles(p.Files)
	if how != "fallback" && how != "io" && g.p(30) {
		rr := g.n(len(rules)+1) - 1
		for i := range p.Docs {
			if g.p(50) {
				redo(g, p, i, rr)
			}
		}
	}
	first := len(p.Docs)
	nt := g.rng(1, 3)
	for i := 0; i < nt; i++ {
		p.Docs = append(p.Docs, genCatDoc(g, p, fmt.Sprintf("t%d", i), g.weighted("po:4 mo:2"), r, false))
	}
	lookArgs := func(op *Op) {
		op.A = []string{ids[g.n(p.P["nids"])], ctxs[g.n(p.P["nctx"])], used[g.n(nd)]}
		op.N = nvals[g.n(len(nvals))]
		op.D = g.p(50)
		op.V = isLookup(op.K) && p.P["fmt"] == 1 && g.p(50)
		if isIst(op.K) && g.p(50) {
			for i := g.rng(1, 2); i > 0; i-- {
				op.A = append(op.A, g.s1(asked...))
			}
		}
	}
	gen := func(k string) Op {
		op := Op{K: k}
		switch k {
		case "configure":
			op.A = []string{g.s1(libs...), g.s1(langArgs...), g.s1(used...)}
		case "setdom":
			op.A = []string{g.s1(used...)}
		case "setlang":
			op.A = []string{g.s1(langArgs...)}
		case "setlib":
			op.A = []string{g.s1(libs...)}
		case "setlocs", "setstor":
			op.A = []string{g.s1(libs...)}
			for i := g.rng(1, maxLocs); i > 0; i-- {
				j := first + g.n(nt)
				if g.p(30) {
					j = -1
				}
				op.A = append(op.A, fmt.Sprintf("%s/%s/%d", g.s1("fr_FR", "de_DE", "fr", "pl_PL"), g.s1(used...), j))
			}
		case "put", "scribble", "rm", "dead":
			if len(p.Files) == 0 {
				op.K = "getdom"
				break
			}
			f := p.Files[g.n(len(p.Files))]
			op.A = []string{f.Path}
			if k != "rm" && k != "dead" {
				p.Docs = append(p.Docs, genCatDoc(g, p, fmt.Sprintf("d%d", len(p.Docs)), p.Docs[f.Doc].Kind, r, false))
				op.J = len(p.Docs) - 1
			}
		default:
			lookArgs(&op)
		}
		return op
	}
	if !fresh {
		p.Init = append(p.Init, gen("configure"))
	}
	if how == "fallback" && g.p(30) {
		p.Init = append(p.Init, gen("setlocs"))
	}
	if how != "fallback" {
		for i := g.n(3); i > 0; i-- {
			p.Init = append(p.Init, gen(g.weighted(mixPkgConf+mixPkgLook)))
		}
	}
	nc := g.rng(2, 4)
	maxOps := 4
	all := mixPkgLook + mixPkgRead + mixPkgConf
	mixes := []string{all, mixPkgLook, mixPkgConf + "getn:1 "}
	switch how {
	case "race":
		maxOps = 7
		extra := "put:2 scribble:1 rm:1 uselocs:2 "
		mixes = []string{all + extra, mixPkgLook + "uselocs:2 ", mixPkgConf + extra, mixPkgLook + mixPkgRead}
		if g.p(30) {
			p.Faults = genFaults(g)
		}
	case "io":
		maxOps = 6
		mixes = []string{all + "put:2 rm:1 dead:1 ", mixPkgLook, mixPkgConf + "put:3 rm:1 dead:1 "}
		p.Faults = genFaults(g)
	case "fallback":
		nc = g.rng(1, 4)
		maxOps = 10
		mixes = []string{mixPkgLook}
	}
	for t := 0; t < nc; t++ {
		m := mixes[g.n(len(mixes))]
		var ops []Op
		for i := g.rng(1, maxOps); i > 0; i-- {
			ops = append(ops, gen(g.weighted(m)))
			if how == "reconf" && g.p(20) {
				ops = append(ops, Op{K: "|"})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if how == "reconf" {
		for i := g.n(4); i > 0; i-- {
			op := gen(g.weighted("put:4 rm:1 new:3"))
			if op.K == "new" {
				// a file that was not there
				cs := candidates(g.s1(libs...), pkgLangs[g.n(2)], used[g.n(nd)], "po")
				op = Op{K: "put", A: []string{g.s1(cs...)}}
				p.Docs = append(p.Docs, genCatDoc(g, p, fmt.Sprintf("d%d", len(p.Docs)), "po", r, false))
				op.J = len(p.Docs) - 1
			}
			if op.K == "put" || op.K == "rm" {
				p.Post = append(p.Post, op)
			}
		}
	}
}

func uniqFiles(l []FileSpec) []FileSpec {
	seen := map[string]bool{}
	var out []FileSpec
	for _, f := range l {
		if !seen[f.Path] {
			seen[f.Path] = true
			out = append(out, f)
		}
	}
	return out
}

// redo gives document i another plural rule.
func redo(g *Rng, p *Plan, i, r int) {
	p.Docs[i] = genCatDoc(g, p, fmt.Sprintf("d%d", i), p.Docs[i].Kind, r, false)
}

// stages splits the tasks at their barriers.
func stages(tasks [][]Op) [][][]Op {
	n := 1
	for _, t := range tasks {
		k := 1
		for _, op := range t {
			if op.K == "|" {
				k++
			}
		}
		n = max(n, k)
	}
	out := make([][][]Op, n)
	for _, t := range tasks {
		at := 0
		cur := make([][]Op, n)
		for _, op := range t {
			if op.K == "|" {
				at++
			} else {
				cur[at] = append(cur[at], op)
			}
		}
		for i := range out {
			out[i] = append(out[i], cur[i])
		}
	}
	return out
}

func runPkg(e *Env, how string) {
	p := e.P
	ds := prepDocs(p)
	// the barriers are not calls: take them out of the numbering
	sts := stages(p.Tasks)
	flat := &Plan{P: p.P, Files: p.Files, Init: p.Init}
	for _, s := range sts {
		flat.Tasks = append(flat.Tasks, s...)
	}
	var w *pkgWorld
	if !e.seq("prepare", func() { w = newPkgWorld(flat, ds) }) {
		return
	}
	st := &pkgState{lib: defaultLib, dom: "default", langs: []string{"en_US"}, files: files{}, pend: map[int]string{}}
	for _, f := range p.Files {
		st.files[f.Path] = f.Doc
	}
	off := int64(0)
	num := 0
	exec := func(task, idx, num int, op Op) *Rec {
		r := &Rec{Task: task, Idx: idx, Op: op, Num: num}
		r.Inv = off + rt.Seq()
		r.Panic, _ = guard(func() { r.Res = w.do(op, num) })
		r.Ret = off + rt.Seq()
		return r
	}
	w.nest = e.nested(func(op Op, num int) *Rec { return exec(100, 0, num, op) })
	var hist []*Rec
	note := func(rs []*Rec) bool {
		for _, r := range rs {
			e.log = append(e.log, r.String())
			if r.Panic != "" {
				e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
			}
		}
		return e.R.Viol == ""
	}
	ok := e.seq("init", func() {
		for i, op := range p.Init {
			r := exec(-1, i, i, op)
			hist = append(hist, r)
			if r.Panic != "" {
				break
			}
		}
	})
	if !note(hist) || !ok {
		return
	}
	num = len(p.Init)
	for si, s := range sts {
		off += 1 << 20
		if si > 0 {
			// between two stages the files change
			for i, op := range p.Post {
				if i%(len(sts)-1) == si-1 {
					r := &Rec{Task: -2, Op: op, Num: 2000000 + si*1000 + i, Inv: off, Ret: off}
					w.do(op, r.Num)
					off++
					hist = append(hist, r)
					e.log = append(e.log, r.String())
				}
			}
		}
		rt.TheDisk.F = p.Faults
		h, ok := runClients(e, s, num, exec)
		rt.TheDisk.F = rt.Faults{}
		for _, t := range s {
			num += len(t)
		}
		hist = append(hist, h...)
		if !ok {
			return
		}
	}
	if e.checkKept(ds); e.R.Viol != "" {
		return
	}
	sub, ok := e.takeNested()
	if !ok {
		return
	}
	hist = append(hist, sub...)
	switch how {
	case "race", "io":
		for _, r := range hist {
			if r.Op.K == "scribble" { // a reader may see half a file: C13
				return
			}
		}
		for _, r := range hist {
			if isLookup(r.Op.K) && !plausible(w.cats, r.Op, r.Res) {
				e.R.fail("answer", "%s answered %q, which is neither a translation in any of the files nor the source text", r.Op, r.Res)
				return
			}
		}
		return
	case "fallback":
		s := st
		var conf []linOp
		for _, r := range hist[:len(p.Init)] {
			conf = w.steps(r, conf)
		}
		for _, o := range conf {
			n, _ := o.apply(s)
			s = n.(*pkgState)
		}
		s = s.first()
		for _, r := range hist[len(p.Init):] {
			if !isLookup(r.Op.K) && !isIst(r.Op.K) {
				continue
			}
			dom := s.domain()
			if r.Op.D {
				dom = r.Op.A[2]
			}
			if isIst(r.Op.K) {
				langs := r.Op.A[3:]
				if len(langs) == 0 {
					langs = s.langs
				}
				if want, _ := w.isTranslated(s, dom, langs, r.Op); fmt.Sprint(want) != r.Res {
					e.R.fail("fallback", "%s answered %s", r.Op, r.Res)
					return
				}
				continue
			}
			if want, _ := w.lookup(s, dom, r.Op); !matches(r.Op, want, r.Res) {
				e.R.fail("fallback", "%s answered %q, expected one of %q", r.Op, r.Res, want)
				return
			}
		}
		return
	}
	// final reads
	off += 1 << 20
	var fin []*Rec
	e.seq("final", func() {
		do := func(op Op) {
			fin = append(fin, exec(-3, 0, num, op))
			num++
		}
		for _, k := range []string{"getdom", "getlangs", "getlib", "getlocs", "getlang", "getstor"} {
			do(Op{K: k})
		}
		for _, d := range doms[:p.P["ndom"]] {
			for _, id := range ids[:p.P["nids"]] {
				for _, c := range []int{1, 5} {
					do(Op{K: "getn", A: []string{id, "", d}, N: c, D: true})
					do(Op{K: "getnc", A: []string{id, ctxs[0], d}, N: c, D: true})
				}
			}
		}
		do(Op{K: "getn", A: []string{ids[0], "", ""}, N: 1})
	})
	if !note(fin) {
		return
	}
	var ops, last []linOp
	for _, r := range hist {
		ops = w.steps(r, ops)
	}
	for _, r := range fin {
		last = w.steps(r, last)
	}
	ops = append(ops, linOp{inv: off, ret: off + 1, after: -1, name: "final", apply: func(s linState) (linState, bool) {
		for _, o := range last {
			var ok bool
			if s, ok = o.apply(s); !ok {
				return s, false
			}
		}
		return s, true
	}})
	good, decided := linearizable(st, ops, 60000)
	if !decided {
		e.R.Counts["undecided-history"]++
	}
	if !good {
		e.R.fail("lin", "no order of the calls on the package explains the answers they gave (initial state: %s)", st.key())
	}
}

func init() {
	for name, how := range map[string]string{"pkg-race": "race", "pkg-lin": "reconf", "pkg-fallback": "fallback", "pkg-io": "io"} {
		how := how
		register(&Scenario{Name: name, Gen: func(g *Rng, p *Plan) { genPkgPlan(g, p, how) }, Run: func(e *Env) { runPkg(e, how) }})
	}
	register(&Scenario{Name: "own-pkg", Gen: func(g *Rng, p *Plan) { genPkgPlan(g, p, "reconf"); p.P["own"] = 1 }, Run: func(e *Env) { runPkg(e, "reconf") }})
}

package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/leonelquinteros/gotext"
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// Locales.

// Names of domains; the first one is what the package starts with.
var domNames = [][]string{
	{"default", "extra", "third"},
	{"default", "Default", "default "},
	{"default", "default.po", "default.mo"},
	{"default", "fr", "fr_FR"},
	{"default", "de", "default.default"},
	{"default", "d\u00e9faut", "a b"},
	{"default", "def", "LC_MESSAGES"},
}

var doms = domNames[0]

// moreDoms are for locales with many domains.
var moreDoms = func() (l []string) {
	for i := 0; i < 60; i++ {
		l = append(l, fmt.Sprintf("dom%d", i))
	}
	return
}()

// exists says which files there are; the value is the document.
type files map[string]int

// candidates lists where a domain's file may be, in order of preference.
func candidates(base, lang, dom, ext string) []string {
	var out []string
	for _, sub := range []string{"LC_MESSAGES", ""} {
		out = append(out, path.Join(base, lang, sub, dom+"."+ext))
		if len(lang) > 2 {
			out = append(out, path.Join(base, lang[:2], sub, dom+"."+ext))
		}
	}
	return out
}

// resolve finds the file of a domain with one of the extensions, in order.
func (f files) resolve(base, lang, dom string, exts ...string) string {
	for _, ext := range exts {
		for _, p := range candidates(base, lang, dom, ext) {
			if _, ok := f[p]; ok {
				return p
			}
		}
	}
	return ""
}

// actual is the language of the file that is there for the domain.
func (f files) actual(base, lang, dom string) string {
	p := f.resolve(base, lang, dom, "mo", "po")
	if p == "" {
		return ""
	}
	rest := strings.TrimPrefix(strings.TrimPrefix(p, base), "/")
	l, _, _ := strings.Cut(rest, "/")
	return l
}

// locState is the model of one Locale and of the files below it. Immutable.
type locState struct {
	base, lang, def string
	doms            map[string]int // name -> object
	objs            map[int]*mcat
	files           files
	pend            map[int]string
	k               string
}

func (s *locState) clone() *locState {
	n := &locState{base: s.base, lang: s.lang, def: s.def, doms: map[string]int{}, objs: map[int]*mcat{}, files: s.files, pend: map[int]string{}}
	for k, v := range s.doms {
		n.doms[k] = v
	}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	for k, v := range s.pend {
		n.pend[k] = v
	}
	return n
}

func (s *locState) key() string {
	if s.k == "" {
		var b strings.Builder
		fmt.Fprintf(&b, "%s|%s|%s|", s.base, s.lang, s.def)
		for _, d := range sortedKeys(s.doms) {
			fmt.Fprintf(&b, "%s=%d;", d, s.doms[d])
		}
		for _, p := range sortedKeys(s.files) {
			fmt.Fprintf(&b, "%s=%d;", p, s.files[p])
		}
		var ks []int
		for i := range s.pend {
			ks = append(ks, i)
		}
		sort.Ints(ks)
		for _, i := range ks {
			fmt.Fprintf(&b, "p%d=%s;", i, s.pend[i])
		}
		ks = ks[:0]
		for i := range s.objs {
			ks = append(ks, i)
		}
		sort.Ints(ks)
		for _, i := range ks {
			fmt.Fprintf(&b, "o%d=%s;", i, s.objs[i].key())
		}
		s.k = b.String()
	}
	return s.k
}

func (s *locState) with(i int, v string) *locState {
	n := s.clone()
	n.pend[i] = v
	return n
}

func (s *locState) take(i int) (string, *locState) {
	n := s.clone()
	v := n.pend[i]
	delete(n.pend, i)
	return v, n
}

func (s *locState) install(dom string, obj int, m *mcat) *locState {
	n := s.clone()
	if n.def == "" {
		n.def = dom
	}
	n.doms[dom] = obj
	n.objs[obj] = m
	return n
}

func (s *locState) dom(name string) *mcat {
	if o, ok := s.doms[name]; ok {
		return s.objs[o]
	}
	return nil
}

// answers lists the right answers of a lookup in a domain that may be missing.
func answers(m *mcat, op Op) []string {
	id, ctx := op.A[0], ""
	plural := strings.Contains(kindOf(op.K), "n")
	if strings.HasSuffix(op.K, "c") {
		ctx = op.A[1]
	}
	if m != nil {
		return m.lookup(ctx, id, pluralOf(id), op.N, plural)
	}
	if plural && op.N != 1 {
		return []string{pluralOf(id)}
	}
	return []string{id}
}

func kindOf(k string) string { return strings.TrimPrefix(strings.TrimPrefix(k, "get"), "ist") }

func isLookup(k string) bool {
	switch k {
	case "get", "getn", "getc", "getnc":
		return true
	}
	return false
}

func isIst(k string) bool {
	switch k {
	case "ist", "istn", "istc", "istnc":
		return true
	}
	return false
}

// istOf is the right answer of an is-translated call.
func istOf(m *mcat, op Op) bool {
	if m == nil {
		return false
	}
	ctx, n := "", op.N
	if strings.HasSuffix(op.K, "c") {
		ctx = op.A[1]
	}
	if !strings.Contains(kindOf(op.K), "n") {
		n = 1
	}
	return m.translated(ctx, op.A[0], n, true)
}

func matches(op Op, want []string, got string) bool {
	for _, w := range want {
		if op.V {
			w = fmt.Sprintf(w, op.vars(nil, nil)...)
		}
		if w == got {
			return true
		}
	}
	return false
}

func (m *mcat) canonBin() string {
	pf := ""
	if m.rule >= 0 {
		pf = pluralHeader(m.rule)
	}
	return m.canon("all", false) + "lang=" + m.lang + " pf=" + pf
}

func (s *locState) export() string {
	var b strings.Builder
	fmt.Fprintf(&b, "path=%s lang=%s default=%s\n", s.base, s.lang, s.def)
	for _, d := range sortedKeys(s.doms) {
		fmt.Fprintf(&b, "domain %s\n%s\n", d, s.objs[s.doms[d]].canonBin())
	}
	return b.String()
}

func canonLocale(b []byte) string {
	var le gotext.LocaleEncoding
	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&le); err != nil {
		return "undecodable locale export: " + err.Error()
	}
	var out strings.Builder
	fmt.Fprintf(&out, "path=%s lang=%s default=%s\n", le.Path, le.Lang, le.DefaultDomain)
	for _, d := range sortedKeys(le.Domains) {
		fmt.Fprintf(&out, "domain %s\n%s\n", d, canonGob(le.Domains[d]))
	}
	return out.String()
}

// union checks GetTranslations: every message of some domain, from one of them.
func (s *locState) union(got string) bool {
	want := map[string]map[string]bool{}
	for _, o := range s.doms {
		for _, l := range strings.Split(s.objs[o].canon("plain", false), "\n") {
			if l == "" {
				continue
			}
			id, _, _ := strings.Cut(strings.TrimPrefix(l, `"" `), "/")
			if want[id] == nil {
				want[id] = map[string]bool{}
			}
			want[id][l] = true
		}
	}
	n := 0
	for _, l := range strings.Split(got, "\n") {
		if l == "" {
			continue
		}
		id, _, _ := strings.Cut(strings.TrimPrefix(l, `"" `), "/")
		if !want[id][l] {
			return false
		}
		n++
	}
	return n == len(want)
}

// locWorld is one locale under test.
type locWorld struct {
	p    *Plan
	ds   *docSet
	l    *gotext.Locale
	base string
	trs  map[int]gotext.Translator // translators added by clients, by their op number
	bins map[string][]byte
	kept []*snapshot
	nest func(Op)
}

func locBase(mode int) (base, prefix string) {
	switch mode {
	case 0:
		return "/vsim/lib", ""
	case 1:
		return "", ""
	default:
		return "lib", ""
	}
}

func newLocWorld(p *Plan, ds *docSet) *locWorld {
	w := &locWorld{p: p, ds: ds, trs: map[int]gotext.Translator{}, bins: map[string][]byte{}}
	w.base, _ = locBase(p.P["mode"])
	for _, f := range p.Files {
		rt.TheDisk.Install(f.Path, ds.raw[f.Doc])
	}
	lang := locLangs[p.P["lang"]]
	fsys := rt.NewFS(rt.TheDisk, p.P["fsmode"])
	switch p.P["mode"] {
	case 0:
		w.l = gotext.NewLocale("/vsim/lib", lang)
	case 1:
		w.l = gotext.NewLocaleFS(lang, fsys)
	default:
		w.l = gotext.NewLocaleFSWithPath(lang, fsys, "lib")
	}
	// every locale image that the plan imports, every translator that it adds
	num := -1
	for _, l := range append([][]Op{p.Init}, p.Tasks...) {
		for _, op := range l {
			num++
			if op.K == "addtr" {
				w.trs[num] = newTranslator(&ds.docs[op.J], ds.raw[op.J])
				if p.P["lazy"] == 1 && num%3 > 0 {
					w.trs[num] = asker{w.trs[num], w.l}
				}
			}
			if op.K == "ubin" {
				w.bins[op.String()] = localeImage(w.base, op, ds)
			}
		}
	}
	return w
}

var locLangs = []string{"fr_FR", "fr", "de_DE"}

// localeImage builds the binary form of a locale: A = lang, default, dom=doc...
func localeImage(base string, op Op, ds *docSet) []byte {
	le := gotext.LocaleEncoding{Path: base, Lang: op.A[0], DefaultDomain: op.A[1], Domains: map[string][]byte{}}
	for _, x := range op.A[2:] {
		d, js, _ := strings.Cut(x, "=")
		var j int
		fmt.Sscan(js, &j)
		le.Domains[d] = ds.docs[j].gob()
	}
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(le); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func newTranslator(d *Doc, raw []byte) gotext.Translator {
	var tr gotext.Translator
	if d.Kind == "mo" || d.Kind == "mobe" {
		tr = gotext.NewMo()
	} else {
		tr = gotext.NewPo()
	}
	tr.Parse(raw)
	return tr
}

// asker is a Translator of the caller's own, which asks the locale that it belongs to.
type asker struct {
	gotext.Translator
	l *gotext.Locale
}

func (a asker) ask(str string) {
	if str == asked {
		return // its own question
	}
	rt.Count("nested-call")
	rt.Y(-1)
	a.l.Get(asked)
	a.l.GetND("other", asked, "nested plural", 2)
	a.l.IsTranslatedNC(asked, 2, "menu")
	a.l.GetDomain()
}

const asked = "asked by a translator"

func (a asker) Get(str string, vars ...interface{}) string {
	a.ask(str)
	return a.Translator.Get(str, vars...)
}

func (a asker) GetN(str, plural string, n int, vars ...interface{}) string {
	a.ask(str)
	return a.Translator.GetN(str, plural, n, vars...)
}

func (a asker) GetC(str, ctx string, vars ...interface{}) string {
	a.ask(str)
	return a.Translator.GetC(str, ctx, vars...)
}

func (a asker) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
	a.ask(str)
	return a.Translator.GetNC(str, plural, n, ctx, vars...)
}

// do executes op. J of addtr is the document; N of trset is the number of the
// addtr call that made the translator.
func (w *locWorld) do(op Op, num int) (string, *snapshot) {
	l := w.l
	vars := op.vars(nestLoc, w.nest)
	a := func(i int) string {
		if i < len(op.A) {
			return op.A[i]
		}
		return ""
	}
	id, ctx, dom := a(0), a(1), a(2)
	switch op.K {
	case "get":
		if op.D {
			return l.GetD(dom, id, vars...), nil
		}
		return l.Get(id, vars...), nil
	case "getn":
		if op.D {
			return l.GetND(dom, id, pluralOf(id), op.N, vars...), nil
		}
		return l.GetN(id, pluralOf(id), op.N, vars...), nil
	case "getc":
		if op.D {
			return l.GetDC(dom, id, ctx, vars...), nil
		}
		return l.GetC(id, ctx, vars...), nil
	case "getnc":
		if op.D {
			return l.GetNDC(dom, id, pluralOf(id), op.N, ctx, vars...), nil
		}
		return l.GetNC(id, pluralOf(id), op.N, ctx, vars...), nil
	case "ist":
		if op.D {
			return fmt.Sprint(l.IsTranslatedD(dom, id)), nil
		}
		return fmt.Sprint(l.IsTranslated(id)), nil
	case "istn":
		if op.D {
			return fmt.Sprint(l.IsTranslatedND(dom, id, op.N)), nil
		}
		return fmt.Sprint(l.IsTranslatedN(id, op.N)), nil
	case "istc":
		if op.D {
			return fmt.Sprint(l.IsTranslatedDC(dom, id, ctx)), nil
		}
		return fmt.Sprint(l.IsTranslatedC(id, ctx)), nil
	case "istnc":
		if op.D {
			return fmt.Sprint(l.IsTranslatedNDC(dom, id, op.N, ctx)), nil
		}
		return fmt.Sprint(l.IsTranslatedNC(id, op.N, ctx)), nil
	case "adddom":
		l.AddDomain(a(0))
	case "addtr":
		l.AddTranslator(a(0), w.trs[num])
	case "trset":
		// a change made directly to a translator
		if tr := w.trs[op.J]; tr != nil {
			tr.GetDomain().SetN(a(0), pluralOf(a(0)), op.N, a(2))
		}
	case "setdom":
		l.SetDomain(a(0))
	case "getdom":
		return l.GetDomain(), nil
	case "getlang":
		return l.GetLanguage(), nil
	case "actual":
		return l.GetActualLanguage(a(0)), nil
	case "gettrans":
		s := &snapshot{plain: l.GetTranslations()}
		return s.canon(), s
	case "mbin":
		b, err := l.MarshalBinary()
		if err != nil {
			return "error: " + err.Error(), nil
		}
		s := canonLocale(b)
		gotBack(w.ds, op, b, 'Z')
		return s, nil
	case "ubin":
		b, back := lend(w.ds, w.bins[op.String()])
		if err := l.UnmarshalBinary(b); err != nil {
			return "error: " + err.Error(), nil
		}
		back('Z')
	case "put": // a new version of a file, moved into place
		rt.TheDisk.Install(a(0), w.ds.raw[op.J])
	case "scribble": // a new version of a file, written over the old one in pieces
		b := w.ds.raw[op.J]
		rt.TheDisk.SetData(a(0), b[:len(b)/2])
		rt.Y(-1)
		rt.TheDisk.SetData(a(0), b)
	case "rm":
		rt.TheDisk.Remove(a(0))
	case "dead":
		rt.TheDisk.Kill(a(0))
	default:
		panic("unknown op " + op.K)
	}
	return "", nil
}

// changing tells whether clients change translators directly.
func (w *locWorld) changing() bool {
	for _, t := range w.p.Tasks {
		for _, op := range t {
			if op.K == "trset" {
				return true
			}
		}
	}
	return false
}

func fromDoc(d *Doc) *mcat { return newMcat().parse(d, d.Kind == "gob") }

// steps translates a recorded call into atomic steps of the model.
func (w *locWorld) steps(num int, r *Rec, ops []linOp) []linOp {
	op := r.Op
	ds := w.ds
	add := func(after int, f func(s *locState) (*locState, bool)) int {
		ops = append(ops, linOp{inv: r.Inv, ret: r.Ret, after: after, name: op.String(), apply: func(s linState) (linState, bool) {
			n, ok := f(s.(*locState))
			return n, ok
		}})
		return len(ops) - 1
	}
	def := func() int {
		return add(-1, func(s *locState) (*locState, bool) { return s.with(num, s.def), true })
	}
	switch op.K {
	case "get", "getn", "getc", "getnc", "ist", "istn", "istc", "istnc":
		right := func(m *mcat) bool {
			if isIst(op.K) {
				return r.Res == fmt.Sprint(istOf(m, op))
			}
			return matches(op, answers(m, op), r.Res)
		}
		if w.changing() {
			// the catalogue that is found may be changed, also after another has taken its
			// place, before the lookup reads it
			d := -1
			if !op.D {
				d = def()
			}
			d = add(d, func(s *locState) (*locState, bool) {
				dom := op.A[2]
				if !op.D {
					dom, s = s.take(num)
				}
				if o, ok := s.doms[dom]; ok {
					return s.with(num, fmt.Sprint(o)), true
				}
				return s.with(num, ""), true
			})
			add(d, func(s *locState) (*locState, bool) {
				v, n := s.take(num)
				var m *mcat
				if v != "" {
					var o int
					fmt.Sscan(v, &o)
					m = n.objs[o]
				}
				return n, right(m)
			})
			break
		}
		if op.D {
			add(-1, func(s *locState) (*locState, bool) { return s, right(s.dom(op.A[2])) })
			break
		}
		add(def(), func(s *locState) (*locState, bool) {
			d, n := s.take(num)
			return n, right(n.dom(d))
		})
	case "adddom":
		dom := op.A[0]
		r1 := add(-1, func(s *locState) (*locState, bool) {
			return s.with(num, s.files.resolve(s.base, s.lang, dom, "po")), true
		})
		if w.p.P["relocate"] == 1 || w.p.P["puts"] == 1 {
			r1 = add(r1, func(s *locState) (*locState, bool) {
				v, n := s.take(num)
				if v == "" {
					v = s.files.resolve(s.base, s.lang, dom, "mo")
				}
				return n.with(num, v), true
			})
			r1 = add(r1, func(s *locState) (*locState, bool) {
				v, n := s.take(num)
				j, ok := s.files[v]
				if !ok {
					j = -1
				}
				return n.with(num, fmt.Sprint(j)), true
			})
		} else {
			ops = ops[:len(ops)-1]
			r1 = add(-1, func(s *locState) (*locState, bool) {
				j := -1
				if p := s.files.resolve(s.base, s.lang, dom, "po", "mo"); p != "" {
					j = s.files[p]
				}
				return s.with(num, fmt.Sprint(j)), true
			})
		}
		add(r1, func(s *locState) (*locState, bool) {
			v, n := s.take(num)
			var j int
			fmt.Sscan(v, &j)
			if j < 0 {
				return n, true
			}
			return n.install(dom, num, fromDoc(&ds.docs[j])), true
		})
	case "addtr":
		add(-1, func(s *locState) (*locState, bool) { return s.install(op.A[0], num, s.objs[num]), true })
	case "trset":
		add(-1, func(s *locState) (*locState, bool) {
			m := s.objs[op.J]
			if m == nil {
				return s, true
			}
			n := s.clone()
			n.objs[op.J] = m.set("", op.A[0], pluralOf(op.A[0]), m.form(op.N), op.A[2], nil)
			return n, true
		})
	case "setdom":
		add(-1, func(s *locState) (*locState, bool) {
			n := s.clone()
			n.def = op.A[0]
			return n, true
		})
	case "getdom":
		add(-1, func(s *locState) (*locState, bool) { return s, s.def == r.Res })
	case "getlang":
		add(-1, func(s *locState) (*locState, bool) { return s, s.lang == r.Res })
	case "actual":
		add(-1, func(s *locState) (*locState, bool) { return s, s.files.actual(s.base, s.lang, op.A[0]) == r.Res })
	case "gettrans":
		add(-1, func(s *locState) (*locState, bool) { return s, s.union(r.Res) })
	case "mbin":
		add(-1, func(s *locState) (*locState, bool) { return s, s.export() == r.Res })
	case "ubin":
		add(-1, func(s *locState) (*locState, bool) {
			n := s.clone()
			n.doms = map[string]int{}
			n.lang, n.def = op.A[0], op.A[1]
			for i, x := range op.A[2:] {
				d, js, _ := strings.Cut(x, "=")
				var j int
				fmt.Sscan(js, &j)
				n.doms[d] = num + 100000*(i+1)
				n.objs[n.doms[d]] = fromDoc(&Doc{Kind: "gob", Rule: ds.docs[j].Rule, Lang: ds.docs[j].Lang, Ents: ds.docs[j].Ents})
			}
			return n, r.Res == ""
		})
	case "put":
		add(-1, func(s *locState) (*locState, bool) {
			n := s.clone()
			n.files = files{}
			for k, v := range s.files {
				n.files[k] = v
			}
			n.files[op.A[0]] = op.J
			return n, true
		})
	default:
		panic("no model for " + op.K)
	}
	return ops
}

// genLocFiles lays out the files of the library.
func genLocFiles(g *Rng, p *Plan, base, lang string, r int, used []string) {
	langs := []string{lang}
	if len(lang) > 2 {
		langs = append(langs, lang[:2])
	}
	for _, dom := range used {
		n := g.weightedInt("0:1 1:6 2:3 3:2")
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			kind := g.weighted("po:5 mo:2 mobe:1")
			ext := kind
			if kind == "mobe" {
				ext = "mo"
			}
			f := path.Join(base, langs[g.n(len(langs))], g.s1("LC_MESSAGES", ""), dom+"."+ext)
			if seen[f] {
				continue
			}
			seen[f] = true
			p.Docs = append(p.Docs, genCatDoc(g, p, fmt.Sprintf("d%d", len(p.Docs)), kind, r, false))
			p.Files = append(p.Files, FileSpec{f, len(p.Docs) - 1})
		}
	}
}

func seqTo(n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return
}

func (g *Rng) weightedInt(spec string) int {
	var n int
	fmt.Sscan(g.weighted(spec), &n)
	return n
}

const (
	mixLocLook  = "get:6 getn:6 getc:4 getnc:4 ist:2 istn:2 istc:1 istnc:2 getdom:2 getlang:1 actual:1 "
	mixLocWrite = "adddom:6 addtr:4 setdom:3 "
)

// genLocPlan: clients of one Locale. opt: "race" adds everything.
func genLocPlan(g *Rng, p *Plan, how string) {
	race := how != "lin"
	p.P["nids"] = g.rng(1, 4)
	p.P["nctx"] = g.rng(1, 2)
	p.P["mode"] = g.n(3)
	p.P["fsmode"] = g.n(4)
	p.P["lang"] = g.n(len(locLangs))
	p.P["fmt"] = b2i(g.p(20) || p.P["lazy"] == 1)
	lang := locLangs[p.P["lang"]]
	base, _ := locBase(p.P["mode"])
	r := g.n(len(rules)+1) - 1
	nd := g.rng(1, 3)
	wide := p.Prop != "C26" && g.p(3)
	if wide {
		nd = g.s2(g.rng(4, 12), g.rng(10, 40))
	}
	used := doms[:nd]
	p.P["ndom"] = nd
	genLocFiles(g, p, base, lang, r, used)
	p.P["puts"] = b2i(g.p(40) && len(p.Files) > 0)
	p.P["relocate"] = b2i(g.p(25))
	// documents for addtr and ubin
	first := len(p.Docs)
	for i := 0; i < g.rng(1, 3); i++ {
		p.Docs = append(p.Docs, genCatDoc(g, p, fmt.Sprintf("t%d", i), g.weighted("po:4 mo:2"), r, false))
	}
	nt := len(p.Docs) - first
	bfirst := len(p.Docs)
	for i := 0; i < g.rng(1, 3); i++ {
		p.Docs = append(p.Docs, genCatDoc(g, p, fmt.Sprintf("b%d", i), "gob", r, false))
	}
	nb := len(p.Docs) - bfirst
	if how != "io" && g.p(30) { // different languages
		rr := g.n(len(rules)+1) - 1
		for i := range p.Docs {
			if g.p(50) {
				redo(g, p, i, rr)
			}
		}
	}
	whole := g.p(50) // whole-locale exports and imports, else direct changes of translators
	mix := mixLocLook + mixLocWrite
	writes := mixLocWrite + "getn:1 "
	if p.P["puts"] == 1 {
		mix += "put:4 "
		writes += "put:6 "
	}
	if whole {
		mix += "gettrans:3 mbin:3 ubin:2 "
		writes += "mbin:2 ubin:3 "
	} else {
		mix += "trset:5 "
		writes += "trset:5 "
	}
	if race {
		mix = mixLocLook + mixLocWrite + "put:2 scribble:2 rm:1 gettrans:2 mbin:2 ubin:2 trset:4 "
		writes = mixLocWrite + "put:2 trset:3 ubin:2 gettrans:1 "
		if how == "io" {
			p.P["fmt"] = 0
			mix = mixLocLook + mixLocWrite + "adddom:6 put:3 dead:1 rm:1 gettrans:1 "
			writes = "adddom:6 put:2 dead:1 rm:1 "
		}
		if how == "io" || g.p(40) {
			p.Faults = genFaults(g)
		}
	}
	num := 0
	var trs []int
	gen := func(k, tag string) Op {
		op := Op{K: k, D: g.p(50), N: nvals[g.n(len(nvals))]}
		op.A = []string{ids[g.n(p.P["nids"])], ctxs[g.n(p.P["nctx"])], used[g.n(nd)]}
		switch k {
		case "adddom", "setdom", "actual":
			op.A = []string{used[g.n(nd)]}
			op.D = false
		case "addtr":
			op.A = []string{used[g.n(nd)]}
			op.D = false
			op.J = first + g.n(nt)
			trs = append(trs, num)
		case "trset":
			op.A[2] = tag
			if p.P["fmt"] == 1 {
				op.A[2] += " %d"
			}
			if len(trs) == 0 {
				op.K = "getdom"
			} else {
				op.J = trs[g.n(len(trs))]
			}
		case "ubin":
			l := lang
			if p.P["relocate"] == 1 {
				l = locLangs[g.n(len(locLangs))]
			}
			op.A = []string{l, g.s1(used...)}
			for _, d := range used {
				if g.p(60) {
					op.A = append(op.A, fmt.Sprintf("%s=%d", d, bfirst+g.n(nb)))
				}
			}
		case "put", "scribble", "rm", "dead":
			if len(p.Files) == 0 {
				op.K = "getdom"
				break
			}
			f := p.Files[g.n(len(p.Files))]
			op.A = []string{f.Path}
			if k != "rm" && k != "dead" {
				kind := p.Docs[f.Doc].Kind
				p.Docs = append(p.Docs, genCatDoc(g, p, fmt.Sprintf("d%d", len(p.Docs)), kind, r, false))
				op.J = len(p.Docs) - 1
			}
		default:
			op.V = isLookup(k) && p.P["fmt"] == 1 && g.p(50)
		}
		num++
		return op
	}
	if wide {
		for _, i := range shuffle(g, seqTo(nd)) {
			op := gen(g.weighted("adddom:4 addtr:1"), "")
			op.A[0] = used[i]
			p.Init = append(p.Init, op)
		}
	}
	for i := g.n(4); i > 0; i-- {
		p.Init = append(p.Init, gen(g.weighted(mixLocWrite), fmt.Sprintf("i%d", i)))
	}
	nc := g.rng(2, 4)
	maxOps := 5
	if race {
		maxOps = 8
	}
	for t := 0; t < nc; t++ {
		m := []string{mix, mixLocLook, writes}[g.n(3)]
		var ops []Op
		for i := g.rng(1, maxOps); i > 0; i-- {
			ops = append(ops, gen(g.weighted(m), fmt.Sprintf("w%d.%d", t, i)))
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// genFaults draws a rate for some kinds of read faults.
func genFaults(g *Rng) rt.Faults {
	var f rt.Faults
	for i := g.rng(1, 3); i > 0; i-- {
		rate := []int{5, 20, 50}[g.n(3)]
		switch g.n(6) {
		case 0:
			f.StatErr = rate
		case 1:
			f.OpenErr = rate
		case 2:
			f.ReadErr = rate
		case 3:
			f.ShortRead = rate
		case 4:
			f.Vanish = rate
		case 5:
			f.Stall = rate
		}
	}
	return f
}

// phases of a run

// runClients executes the plan's tasks; it numbers the calls in plan order.
func runClients(e *Env, tasks [][]Op, first int, exec func(task, idx, num int, op Op) *Rec) ([]*Rec, bool) {
	all := make([][]*Rec, len(tasks))
	names := make([]string, len(tasks))
	fns := make([]func(), len(tasks))
	num := first
	for t := range tasks {
		t, base := t, num
		num += len(tasks[t])
		all[t] = make([]*Rec, len(tasks[t]))
		names[t] = fmt.Sprintf("client%d", t)
		fns[t] = func() {
			for i, op := range tasks[t] {
				r := exec(t, i, base+i, op)
				all[t][i] = r
				if r.Panic != "" {
					return
				}
				if r.Snap != nil {
					r.Snap.was = r.Res
					if op.D {
						r.Snap.vandalise()
						r.Snap = nil
					}
				}
			}
		}
	}
	if e.waits != nil {
		names, fns = e.withHang(tasks, names, fns, e.waits)
	}
	ok := e.stageRun(names, fns)
	var hist []*Rec
	for _, l := range all {
		for _, r := range l {
			if r == nil {
				break
			}
			hist = append(hist, r)
		}
	}
	sort.SliceStable(hist, func(i, j int) bool { return hist[i].Inv < hist[j].Inv })
	for _, r := range hist {
		e.log = append(e.log, r.String())
		if r.Panic != "" {
			e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
		}
	}
	for _, r := range hist {
		if r.Snap != nil && e.R.Viol == "" {
			if now := r.Snap.canon(); now != r.Snap.was {
				e.R.fail("isolation", "the copy returned by %s changed after it was returned\nwas: %s\nnow: %s", r.Op, r.Snap.was, now)
			}
		}
	}
	return hist, ok && e.R.Viol == ""
}

func runLocale(e *Env, how string) {
	check := how == "lin"
	p := e.P
	ds := prepDocs(p)
	var w *locWorld
	if !e.seq("prepare", func() { w = newLocWorld(p, ds) }) {
		return
	}
	st := &locState{base: w.base, lang: locLangs[p.P["lang"]], doms: map[string]int{}, objs: map[int]*mcat{}, files: files{}, pend: map[int]string{}}
	for _, f := range p.Files {
		st.files[f.Path] = f.Doc
	}
	num := -1
	for _, l := range append([][]Op{p.Init}, p.Tasks...) {
		for _, op := range l {
			num++
			if op.K == "addtr" {
				st.objs[num] = fromDoc(&ds.docs[op.J])
			}
		}
	}
	off := int64(0)
	exec := func(task, idx, num int, op Op) *Rec {
		r := &Rec{Task: task, Idx: idx, Op: op, Num: num}
		r.Inv = off + rt.Seq()
		r.Panic, _ = guard(func() { r.Res, r.Snap = w.do(op, num) })
		r.Ret = off + rt.Seq()
		return r
	}
	w.nest = e.nested(func(op Op, num int) *Rec { return exec(100, 0, num, op) })
	var hist []*Rec
	ok := e.seq("init", func() {
		for i, op := range p.Init {
			r := exec(-1, i, i, op)
			r.Snap = nil
			hist = append(hist, r)
			if r.Panic != "" {
				break
			}
		}
	})
	for _, r := range hist {
		e.log = append(e.log, r.String())
		if r.Panic != "" {
			e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
		}
	}
	if !ok || e.R.Viol != "" {
		return
	}
	off = 1 << 20
	rt.TheDisk.F = p.Faults
	if p.P["hang"] > 0 {
		e.waits = hangLocale(p)
	}
	h, ok := runClients(e, p.Tasks, len(p.Init), exec)
	rt.TheDisk.F = rt.Faults{}
	rt.TheDisk.Heal()
	if ok {
		e.checkKept(ds)
	}
	if ok && how == "io" {
		w.plausible(e, h)
	}
	sub1, good1 := e.takeNested()
	if !ok || !check || !good1 {
		return
	}
	hist = append(append(hist, h...), sub1...)
	off = 2 << 20
	n := len(p.Init)
	for _, t := range p.Tasks {
		n += len(t)
	}
	var fin []*Rec
	e.seq("final", func() {
		do := func(op Op) {
			fin = append(fin, exec(len(p.Tasks), 0, n, op))
			n++
		}
		do(Op{K: "getdom"})
		do(Op{K: "getlang"})
		do(Op{K: "mbin"})
		do(Op{K: "gettrans"})
		for _, d := range doms[:p.P["ndom"]] {
			do(Op{K: "actual", A: []string{d}})
			for _, id := range ids[:p.P["nids"]] {
				for _, c := range []int{1, 2, 5} {
					do(Op{K: "getn", A: []string{id, "", d}, N: c, D: true})
					do(Op{K: "getnc", A: []string{id, ctxs[0], d}, N: c, D: true})
				}
			}
		}
	})
	if e.R.Viol != "" {
		return
	}
	var ops []linOp
	for _, r := range hist {
		ops = w.steps(r.Num, r, ops)
	}
	// the final reads see one state: check them as one step
	var sub []linOp
	for _, r := range fin {
		e.log = append(e.log, "final: "+r.String())
		if r.Panic != "" {
			e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
			return
		}
		sub = w.steps(r.Num, r, sub)
	}
	ops = append(ops, linOp{inv: 3 << 20, ret: 3<<20 + 1, after: -1, name: "final", apply: func(s linState) (linState, bool) {
		for _, o := range sub {
			var ok bool
			if s, ok = o.apply(s); !ok {
				return s, false
			}
		}
		return s, true
	}})
	good, decided := linearizable(st, ops, 60000)
	if !decided {
		e.R.Counts["undecided-history"]++
	}
	if !good {
		e.R.fail("lin", "no order of the calls on the locale explains the answers they gave (initial state: %s)", st.key())
	}
}

// plausible checks that every lookup answered from one version of a message, or
// with the source text.
func (w *locWorld) plausible(e *Env, h []*Rec) {
	var cats []*mcat
	for i := range w.ds.docs {
		cats = append(cats, fromDoc(&w.ds.docs[i]))
	}
	for _, r := range h {
		if isLookup(r.Op.K) && !plausible(cats, r.Op, r.Res) {
			e.R.fail("answer", "%s answered %q, which is neither a translation in any version of the files nor the source text", r.Op, r.Res)
		}
	}
}

// plausible: a complete translation from some catalogue, or the source text.
func plausible(cats []*mcat, op Op, res string) bool {
	src := []string{op.A[0]}
	if strings.Contains(kindOf(op.K), "n") {
		src = append(src, pluralOf(op.A[0]))
	}
	if matches(op, src, res) {
		return true
	}
	for _, m := range cats {
		if matches(op, answers(m, op), res) {
			return true
		}
	}
	return false
}

func init() {
	register(&Scenario{Name: "loc-race", Gen: func(g *Rng, p *Plan) { genLocPlan(g, p, "race") }, Run: func(e *Env) { runLocale(e, "race") }})
	register(&Scenario{Name: "loc-lin", Gen: func(g *Rng, p *Plan) { genLocPlan(g, p, "lin") }, Run: func(e *Env) { runLocale(e, "lin") }})
	register(&Scenario{Name: "own-loc", Gen: func(g *Rng, p *Plan) { genLocPlan(g, p, "lin"); p.P["own"] = 1 }, Run: func(e *Env) { runLocale(e, "lin") }})
	register(&Scenario{Name: "loc-io", Gen: func(g *Rng, p *Plan) { genLocPlan(g, p, "io") }, Run: func(e *Env) { runLocale(e, "io") }})
}

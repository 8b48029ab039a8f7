package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"path"
	"strings"

	"github.com/leonelquinteros/gotext"
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// Binary caches of catalogues and locales: restart cycles and damage.

// hdrs is the model of the headers of a catalogue: every value in order.
type hdrs map[string][]string

func (h hdrs) add(d *Doc) hdrs {
	n := hdrs{}
	for k, v := range h {
		n[k] = v
	}
	for _, kv := range d.headers() {
		delete(n, kv[0])
	}
	for _, kv := range d.headers() {
		n[kv[0]] = append(append([]string(nil), n[kv[0]]...), kv[1])
	}
	return n
}

func (h hdrs) String() string {
	var b strings.Builder
	for _, k := range sortedKeys(h) {
		fmt.Fprintf(&b, "%s=%q;", k, h[k])
	}
	return b.String()
}

// cobj is an object with its model.
type cobj struct {
	o *object
	m *mcat
	h hdrs
	// comments above the first entry
	cm []string
	// what comes out of a Locale does not know its file system
	nofs bool
}

var objKinds = []string{"po", "mo", "dom"}

func newCobj(kind string, mode int) *cobj {
	return &cobj{o: newObjectFS(kind, mode), m: newMcat(), h: hdrs{}}
}

// fields compares the public header fields with the model.
func (c *cobj) fields() string {
	pf := ""
	if v := c.h["Plural-Forms"]; len(v) > 0 {
		pf = v[0]
	}
	lang := ""
	if v := c.h["Language"]; len(v) > 0 {
		lang = v[0]
	}
	chk := func(where, l, p string, h gotext.HeaderMap) string {
		if l != lang || p != pf || hdrs(h).String() != c.h.String() {
			return fmt.Sprintf("%s: language %q plural forms %q headers %s; expected %q %q %s", where, l, p, hdrs(h), lang, pf, c.h)
		}
		return ""
	}
	if s := chk("Domain", c.o.dom.Language, c.o.dom.PluralForms, c.o.dom.Headers); s != "" {
		return s
	}
	if c.o.po != nil {
		return chk("Po", c.o.po.Language, c.o.po.PluralForms, c.o.po.Headers)
	}
	if c.o.mo != nil {
		return chk("Mo", c.o.mo.Language, c.o.mo.PluralForms, c.o.mo.Headers)
	}
	return ""
}

// check compares everything observable with the model.
func (c *cobj) check(ds *docSet, thorough bool) string {
	if s := c.fields(); s != "" {
		return s
	}
	if b, err := c.o.set(thorough).MarshalText(); err != nil || fmt.Sprint(headOf(b)) != fmt.Sprint(c.cm) {
		return fmt.Sprintf("the exported text starts with comments %q instead of %q (error %v)", headOf(b), c.cm, err)
	}
	for _, k := range []string{"trs", "ctrs", "mbin", "mtext"} {
		op := Op{K: k}
		res, _ := c.o.do(op, ds)
		if _, good := c.m.apply(op, res, ds, nil); !good {
			return fmt.Sprintf("%s gave %s, expected contents %s", k, res, c.m.key())
		}
	}
	keys := c.m.sorted()
	keys = append(keys, mkey{"", "never"}, mkey{"menu", "never"})
	for i, k := range keys {
		for _, kind := range []string{"get", "getn", "istn", "ist", "appn"} {
			if k.ctx != "" {
				kind += "c"
			}
			ns := []int{nvals[i%len(nvals)]}
			if strings.Contains(kind, "n") && thorough {
				ns = nvals
			}
			for _, n := range ns {
				op := Op{K: kind, A: []string{k.id, k.ctx}, N: n}
				res, _ := c.o.do(op, ds)
				if _, good := c.m.apply(op, res, ds, nil); !good {
					return fmt.Sprintf("%s answered %q, expected contents %s", op, res, c.m.key())
				}
			}
		}
		if k.ctx == "" {
			op := Op{K: "getrefs", A: []string{k.id}}
			res, _ := c.o.do(op, ds)
			if _, good := c.m.apply(op, res, ds, nil); !good {
				return fmt.Sprintf("%s answered %q, expected contents %s", op, res, c.m.key())
			}
		}
	}
	return ""
}

// step executes op on c and its model.
func (c *cobj) step(op Op, ds *docSet, files map[string]int) string {
	res, _ := c.o.do(op, ds)
	n, good := c.m.apply(op, res, ds, files)
	if !good {
		return fmt.Sprintf("%s answered %q, expected contents %s", op, res, c.m.key())
	}
	c.m = n
	switch op.K {
	case "parse":
		c.h = c.h.add(&ds.docs[op.J])
		c.cm = ds.docs[op.J].loaded(c.cm)
	case "pfile":
		if j, ok := files[op.A[0]]; ok {
			c.h = c.h.add(&ds.docs[j])
			c.cm = ds.docs[j].loaded(c.cm)
		}
	case "ubin":
		c.h = hdrs{}.add(&ds.docs[op.J])
		c.cm = nil
	}
	return ""
}

// restored is the model of a catalogue after an import of m's binary form.
func (m *mcat) restored(res int) *mcat {
	n := m.clone()
	n.res = res
	n.k = ""
	for k, e := range n.ents {
		e = e.clone()
		e.dirty = false
		n.ents[k] = e
	}
	return n
}

// copyTo exports c and imports it: into a new object, or into old.
func (c *cobj) copyTo(old *cobj, how string, op Op, ds *docSet) (*cobj, string) {
	kind := objKinds[op.N%3]
	if how == "locale" && (c.o.po != nil || c.o.mo != nil) {
		// where it reads its files from
		base := []string{"/vsim/lib", "", "/vsim/other/", "/vsim"}[(op.N+op.J)%4]
		l := gotext.NewLocale(base, op.A[2])
		if base == "" {
			l = gotext.NewLocaleFS(op.A[2], rt.NewFS(rt.TheDisk, 0))
		}
		var tr gotext.Translator = c.o.po
		if c.o.po == nil {
			tr = c.o.mo
		}
		other := newObjectFS("po", 3)
		other.po.Set("other", "other translation")
		first, second := "one", "two"
		if op.V {
			first, second = "two", "one"
		}
		l.AddTranslator(first, tr)
		l.AddTranslator(second, other.po)
		if op.D {
			l.SetDomain(second)
		}
		if op.N%5 == 4 {
			l.SetDomain("")
		}
		b, err := l.MarshalBinary()
		if err != nil {
			return nil, "exporting a locale: " + err.Error()
		}
		l2 := gotext.NewLocale("/elsewhere", "xx")
		if op.V {
			l2.AddTranslator("gone", newObjectFS("mo", 3).mo)
		}
		// nothing keeps the caller from reusing the buffer
		mine := append([]byte(nil), b...)
		if err := l2.UnmarshalBinary(mine); err != nil {
			return nil, "importing a locale: " + err.Error()
		}
		for i := range mine {
			mine[i] = 0xff
		}
		if l2.GetDomain() != l.GetDomain() || l2.GetLanguage() != l.GetLanguage() {
			return nil, fmt.Sprintf("the imported locale has domain %q and language %q instead of %q and %q", l2.GetDomain(), l2.GetLanguage(), l.GetDomain(), l.GetLanguage())
		}
		if got := l2.GetD(second, "other"); got != "other translation" {
			return nil, fmt.Sprintf("the imported locale answers %q in domain %s", got, second)
		}
		if got := l2.GetD("gone", "other"); got != "other" {
			return nil, fmt.Sprintf("the imported locale answers %q in a domain it should not have", got)
		}
		if len(l2.Domains) != 2 {
			return nil, fmt.Sprintf("the imported locale has %d domains instead of 2", len(l2.Domains))
		}
		var e1, e2 gotext.LocaleEncoding
		b2, err := l2.MarshalBinary()
		if err == nil {
			if err = gob.NewDecoder(bytes.NewReader(b)).Decode(&e1); err == nil {
				err = gob.NewDecoder(bytes.NewReader(b2)).Decode(&e2)
			}
		}
		if err != nil {
			return nil, "exporting a locale again: " + err.Error()
		}
		if e1.Path != base || e2.Path != base || e1.Lang != e2.Lang || e1.DefaultDomain != e2.DefaultDomain || len(e2.Domains) != 2 {
			return nil, fmt.Sprintf("the imported locale exports path %q language %q default domain %q and %d domains, the original %q %q %q and %d", e2.Path, e2.Lang, e2.DefaultDomain, len(e2.Domains), e1.Path, e1.Lang, e1.DefaultDomain, len(e1.Domains))
		}
		if base != "" {
			where := path.Join(base, op.A[2], "third.po")
			rt.TheDisk.Install(where, []byte("msgid \"third\"\nmsgstr \"read\"\n"))
			l2.AddDomain("third")
			if got := l2.GetD("third", "third"); got != "read" {
				return nil, fmt.Sprintf("the imported locale answers %q for a message of %s", got, where)
			}
		}
		// the same lookups through both locales
		for _, k := range c.m.sorted() {
			for _, n := range nvals {
				a, b := l.GetND(first, k.id, pluralOf(k.id), n), l2.GetND(first, k.id, pluralOf(k.id), n)
				if k.ctx != "" {
					a, b = l.GetNDC(first, k.id, pluralOf(k.id), n, k.ctx), l2.GetNDC(first, k.id, pluralOf(k.id), n, k.ctx)
				}
				if a != b && c.m.res < 0 {
					return nil, fmt.Sprintf("the imported locale answers %q for %q n=%d, the original %q", b, k, n, a)
				}
			}
		}
		po, ok := l2.Domains[first].(*gotext.Po)
		if !ok {
			mo, ok := l2.Domains[first].(*gotext.Mo)
			if !ok {
				return nil, "the imported locale has no usable domain"
			}
			n := &cobj{o: &object{kind: "mo", mo: mo, c: mo, dom: mo.GetDomain()}, m: c.m.restored(-1), h: c.h, cm: c.cm, nofs: true}
			return n, ""
		}
		n := &cobj{o: &object{kind: "po", po: po, c: po, dom: po.GetDomain()}, m: c.m.restored(-1), h: c.h, cm: c.cm, nofs: true}
		return n, ""
	}
	b, err := c.o.via(op.D).MarshalBinary()
	if err != nil {
		return nil, "export: " + err.Error()
	}
	mine := append([]byte(nil), b...)
	n := &cobj{h: c.h, cm: c.cm}
	res := -1
	if old != nil && op.V {
		n.o = old.o
		res = old.m.res
		n.nofs = old.nofs
	} else {
		n.o = newObjectFS(kind, op.N&3)
	}
	n.m = c.m.restored(res)
	// the public fields of Po and Mo follow only an import through them
	var err2 error
	err2 = n.o.c.UnmarshalBinary(mine)
	if err2 != nil {
		return nil, "import: " + err2.Error()
	}
	for i := range mine {
		mine[i] = 0xff
	}
	return n, ""
}

const restartSlots = 3

func genRestart(g *Rng, p *Plan) {
	p.P["nids"] = g.rng(2, 6)
	p.P["nctx"] = g.rng(1, 3)
	p.P["fmt"] = 0
	kind := g.n(3)
	refs := g.p(50)
	dk := []string{"po", "mo", "po"}[kind]
	nd := g.rng(1, 3)
	for i := 0; i < nd; i++ {
		p.Docs = append(p.Docs, genDoc(g, fmt.Sprintf("v%d", i), dk, g.n(len(rules)+1)-1, 6, refs))
	}
	p.P["gob0"] = nd
	p.P["ngob"] = 1
	p.Docs = append(p.Docs, genDoc(g, "b0", "gob", g.n(len(rules)+1)-1, 6, refs))
	for i := range p.Docs {
		if g.p(30) {
			for j := g.rng(1, 4); j > 0; j-- {
				if g.p(60) && p.Docs[i].Kind == "po" {
					p.Docs[i].Head = g.head()
				}
				p.Docs[i].Hdr = append(p.Docs[i].Hdr, [2]string{g.s1("X-Note", "X-Other", "Report-Msgid-Bugs-To"), g.s1("", "one", "two: 2", "three")})
			}
		}
	}
	p.P["kind"] = kind
	p.P["crash"] = 0
	nt := g.weightedInt("1:5 2:3 3:2")
	for t := 0; t < nt; t++ {
		var ops []Op
		n := g.rng(3, 14)
		for i := 0; i < n; i++ {
			if i > 0 && g.p(30) {
				op := Op{K: g.weighted("copy:6 restart:2"), O: g.n(restartSlots), J: g.n(restartSlots), N: g.n(12), D: g.p(30), V: g.p(40)}
				op.A = []string{g.weighted("direct:3 locale:2"), "", g.s1("fr", "de_DE", "pt_BR")}
				ops = append(ops, op)
				continue
			}
			op := genCatOp(g, p, "po", "set:4 setn:6 setc:3 setnc:5 setrefs:3 drop:2 parse:7 pfile:2 ubin:1 resolver:1 getn:1 getnc:1", fmt.Sprintf("w%d.%d", t, i))
			if op.K == "ubin" {
				op.D = false // the public fields of Po and Mo follow only an import through them
			}
			op.O = g.n(restartSlots)
			if g.p(50) {
				op.O = 0
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

func runRestart(e *Env) {
	p := e.P
	ds := prepDocs(p)
	fl := map[string]int{}
	for i := 0; i < p.P["gob0"]; i++ {
		name := fmt.Sprintf("f%d", i)
		rt.TheDisk.Install(name, ds.raw[i])
		fl[name] = i
	}
	slots := make([][restartSlots]*cobj, len(p.Tasks))
	if !e.seq("prepare", func() {
		for t := range slots {
			for i := range slots[t] {
				slots[t][i] = newCobj(objKinds[p.P["kind"]], i)
			}
		}
	}) {
		return
	}
	bad := make([]string, len(p.Tasks))
	var names []string
	var fns []func()
	seeds := uint64(0)
	for t := range p.Tasks {
		t := t
		names = append(names, fmt.Sprintf("process%d", t))
		fns = append(fns, func() {
			sl := &slots[t]
			say := func(op Op, s string) bool {
				if s != "" && bad[t] == "" {
					bad[t] = fmt.Sprintf("after %s: %s", op, s)
				}
				return s != ""
			}
			for _, op := range p.Tasks[t] {
				op := op
				stop := false
				pan, _ := guard(func() {
					c := sl[op.O]
					switch op.K {
					case "restart":
						// a new process: everything comes back from its binary form
						rt.SetMapSeed(p.MapSeed + seeds)
						seeds++
						rt.Count("restart")
						for i := range sl {
							n, s := sl[i].copyTo(nil, "direct", Op{N: b2i(sl[i].o.mo != nil) + 2*b2i(sl[i].o.po == nil && sl[i].o.mo == nil)}, ds)
							if say(op, s) {
								stop = true
								return
							}
							sl[i] = n
							if say(op, n.check(ds, true)) {
								stop = true
								return
							}
						}
					case "copy":
						var old *cobj
						if op.J != op.O {
							old = sl[op.J]
						}
						n, s := c.copyTo(old, op.A[0], op, ds)
						if say(op, s) {
							stop = true
							return
						}
						if say(op, c.check(ds, false)) || say(op, n.check(ds, true)) {
							stop = true
							return
						}
						sl[op.J] = n
					default:
						k := op
						if k.K == "parse" || k.K == "pfile" {
							if c.o.po == nil && c.o.mo == nil {
								return
							}
							// a Po reads PO files and a Mo reads MO files
							mo := strings.HasPrefix(ds.docs[k.J].Kind, "mo")
							if k.K == "pfile" {
								j, ok := fl[k.A[0]]
								if !ok {
									return
								}
								mo = strings.HasPrefix(ds.docs[j].Kind, "mo")
								if c.nofs {
									k.K, k.J = "parse", j
								}
							}
							if mo != (c.o.mo != nil) {
								return
							}
						}
						if say(op, c.step(k, ds, fl)) {
							stop = true
						}
					}
				})
				if pan != "" {
					bad[t] = fmt.Sprintf("%s panicked: %s", op, pan)
				}
				if pan != "" || stop {
					return
				}
			}
			pan, _ := guard(func() {
				for i := range sl {
					say(Op{K: "end"}, sl[i].check(ds, true))
				}
			})
			if pan != "" {
				bad[t] = "final comparison panicked: " + pan
			}
		})
	}
	if !e.stageRun(names, fns) {
		return
	}
	for t, s := range bad {
		if s != "" {
			class := "restore"
			if strings.Contains(s, "panicked") {
				class = "panic"
			}
			e.R.fail(class, "process %d, %s", t, s)
		}
	}
}

// Damaged caches.

func genCache(g *Rng, p *Plan) {
	p.P["nids"] = g.rng(2, 6)
	p.P["nctx"] = g.rng(1, 2)
	p.P["kind"] = g.n(4) // po, mo, dom, locale
	p.P["fresh"] = b2i(g.p(15))
	r := g.n(len(rules)+1) - 1
	for i := 0; i < 4; i++ {
		p.Docs = append(p.Docs, genDoc(g, fmt.Sprintf("g%d", i), "gob", r, g.s2(3, 8), g.p(40)))
		if g.p(30) {
			r = g.n(len(rules)+1) - 1
		}
	}
	p.P["ndom"] = g.rng(1, 2)
	p.P["empty"] = b2i(g.p(3))
	// damage is drawn for a length that is only known when the cache is there:
	// positions are taken modulo that length
	n := 20 + g.n(1200)
	for i := g.rng(1, 2); i > 0; i-- {
		p.Dmg = append(p.Dmg, genDmg(g, n, "cut:40 flip:20 noise:8 zero:8 stale:8 swap:4 byte:8 mix:5", false)...)
	}
	if len(p.Dmg) == 1 && p.Dmg[0].K == "cut" && g.p(60) {
		p.P["scalecut"] = g.rng(1, 1000)
	}
	for t := g.n(3); t > 0; t-- {
		var ops []Op
		for i := g.rng(1, 5); i > 0; i-- {
			ops = append(ops, Op{K: g.weighted("get:4 getn:4 getc:2 getnc:2 ist:1 istn:1 istnc:1"), A: []string{ids[g.n(p.P["nids"])], ctxs[g.n(p.P["nctx"])], doms[g.n(2)]}, N: nvals[g.n(len(nvals))], D: true})
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

func (g *Rng) s2(a ...int) int { return a[g.n(len(a))] }

func runCache(e *Env) {
	p := e.P
	ds := prepDocs(p)
	loc := p.P["kind"] == 3
	var w *locWorld
	var o *object
	var st *locState
	var intact, stale []byte
	var model *mcat
	img := func(j int) []byte {
		if !loc {
			return ds.raw[j]
		}
		op := Op{K: "ubin", A: []string{"fr", doms[0]}}
		for i := 0; i < p.P["ndom"]; i++ {
			op.A = append(op.A, fmt.Sprintf("%s=%d", doms[i], j+i))
		}
		return localeImage("", op, ds)
	}
	ok := e.seq("prepare", func() {
		// what is stored is what a real object exports
		real := func(j int) []byte {
			var b []byte
			var err error
			if loc {
				l := gotext.NewLocale("", "fr")
				if err := l.UnmarshalBinary(img(j)); err != nil {
					panic(err)
				}
				b, err = l.MarshalBinary()
			} else {
				x := newObjectFS(objKinds[p.P["kind"]], 3)
				if err := x.c.UnmarshalBinary(img(j)); err != nil {
					panic(err)
				}
				b, err = x.c.MarshalBinary()
			}
			if err != nil {
				panic(err)
			}
			return append([]byte(nil), b...)
		}
		intact, stale = real(0), real(2)
		if loc {
			p2 := &Plan{P: map[string]int{"mode": 1, "fsmode": 3, "lang": 0, "ndom": 2}}
			w = newLocWorld(p2, ds)
			st = &locState{base: w.base, lang: locLangs[0], doms: map[string]int{}, objs: map[int]*mcat{}, files: files{}, pend: map[int]string{}}
			if p.P["fresh"] == 0 {
				if err := w.l.UnmarshalBinary(stale); err != nil {
					panic(err)
				}
				st.lang, st.def = "fr", doms[0]
				for i := 0; i < p.P["ndom"]; i++ {
					st.doms[doms[i]] = i
					st.objs[i] = fromDoc(&ds.docs[2+i])
				}
			}
		} else {
			o = newObjectFS(objKinds[p.P["kind"]], 3)
			model = newMcat()
			if p.P["fresh"] == 0 {
				if err := o.c.UnmarshalBinary(stale); err != nil {
					panic(err)
				}
				model = fromDoc(&ds.docs[2])
			}
		}
	})
	if !ok {
		return
	}
	got := intact
	if p.P["empty"] == 1 {
		got = nil
	} else {
		dmg := p.Dmg
		if p.P["scalecut"] > 0 && len(dmg) == 1 {
			dmg = []Dmg{{K: "cut", At: p.P["scalecut"] * len(intact) / 1001}}
		}
		got = harm(intact, stale, dmg)
		for _, d := range dmg {
			e.R.Counts["damage-"+d.K]++
		}
	}
	e.log = append(e.log, fmt.Sprintf("intact: %q", intact), fmt.Sprintf("damaged: %q", got))
	isCut := len(got) < len(intact) && bytes.HasPrefix(intact, got)
	var impErr error
	var pan string
	// the arrival of the damaged bytes, with lookups going on
	doOp := func(op Op) string {
		if loc {
			r, _ := w.do(op, 0)
			return r
		}
		r, _ := o.do(op, ds)
		return r
	}
	names := []string{"import"}
	fns := []func(){func() {
		pan, _ = guard(func() {
			b := append([]byte(nil), got...)
			if loc {
				impErr = w.l.UnmarshalBinary(b)
			} else {
				impErr = o.c.UnmarshalBinary(b)
			}
		})
	}}
	all := make([][]*Rec, len(p.Tasks))
	for t := range p.Tasks {
		t := t
		names = append(names, fmt.Sprintf("client%d", t))
		fns = append(fns, func() {
			for i, op := range p.Tasks[t] {
				r := &Rec{Task: t, Idx: i, Op: op}
				r.Panic, _ = guard(func() { r.Res = doOp(op) })
				all[t] = append(all[t], r)
			}
		})
	}
	before := allocated()
	if !e.stageRun(names, fns) {
		return
	}
	if pan != "" {
		e.R.fail("panic", "importing the damaged binary form panicked: %s", pan)
		return
	}
	if a := allocated() - before; a > 256<<20 {
		e.R.fail("memory", "importing a damaged binary form of %d bytes allocated %d bytes", len(got), a)
		return
	}
	if isCut && impErr == nil {
		e.R.fail("accepted", "a binary form cut after %d of %d bytes was imported without an error", len(got), len(intact))
		return
	}
	if impErr != nil {
		e.R.Counts["refused"]++
	}
	dom := func(op Op) *mcat {
		if !loc {
			return model
		}
		return st.dom(op.A[2])
	}
	right := func(op Op, res string) bool {
		if isIst(op.K) {
			return res == fmt.Sprint(istOf(dom(op), op))
		}
		return matches(op, answers(dom(op), op), res)
	}
	for _, l := range all {
		for _, r := range l {
			e.log = append(e.log, r.String())
			if r.Panic != "" {
				e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
				return
			}
			if impErr != nil && !right(r.Op, r.Res) {
				e.R.fail("answer", "the damaged binary form was refused (%v), but meanwhile %s answered %q", impErr, r.Op, r.Res)
				return
			}
		}
	}
	battery := func(check bool) {
		for d := 0; d < 2; d++ {
			if !loc && d > 0 {
				break
			}
			for _, id := range ids[:p.P["nids"]] {
				for _, k := range []string{"get", "getn", "istn", "getc", "getnc", "istnc"} {
					for _, n := range []int{1, 2, 5} {
						op := Op{K: k, A: []string{id, ctxs[0], doms[d]}, N: n, D: true}
						var res string
						if pan, _ := guard(func() { res = doOp(op) }); pan != "" {
							e.R.fail("panic", "after importing the damaged binary form (error: %v) %s panicked: %s", impErr, op, pan)
							return
						}
						if check && !right(op, res) {
							e.R.fail("answer", "after the import (error: %v) %s answered %q, expected %q", impErr, op, res, answers(dom(op), op))
							return
						}
						// what was accepted replaces everything: answers come from it
						if id := op.A[0]; !check && !isIst(k) && res != id && res != pluralOf(id) && !bytes.Contains(got, []byte(res)) {
							e.R.fail("left", "after an accepted import %s answered %q, a text that is nowhere in what was imported", op, res)
							return
						}
					}
				}
			}
		}
	}
	export := func() string {
		if loc {
			r, _ := w.do(Op{K: "mbin"}, 0)
			return r
		}
		r, _ := o.do(Op{K: "mbin"}, ds)
		return r
	}
	e.seq("after", func() {
		battery(impErr != nil)
		if e.R.Viol != "" {
			return
		}
		if impErr != nil {
			want := ""
			if loc {
				want = st.export()
			} else {
				want = model.canonBin()
			}
			if got := export(); got != want {
				e.R.fail("changed", "the damaged binary form was refused (%v), but the receiver changed: it exports %s instead of %s", impErr, got, want)
				return
			}
		} else if pan, _ := guard(func() {
			// whatever was taken: every call works
			if loc {
				export()
				w.do(Op{K: "gettrans"}, 0)
				for _, d := range sortedKeys(w.l.Domains) {
					x := w.l.Domains[d].GetDomain()
					x.SetNC("fresh", "freshs", "ctx", 2, "t")
					x.SetN("fresh", "freshs", 2, "t")
					x.DropStaleTranslations()
				}
				w.l.AddDomain("more")
			} else {
				export()
				for _, id := range append([]string{"fresh"}, ids...) {
					for _, k := range []string{"mtext", "trs", "ctrs", "set", "setc", "setn", "setnc", "setrefs", "getrefs", "getnc"} {
						o.do(Op{K: k, A: []string{id, ctxs[0], "x"}, N: 2, D: true}, ds)
					}
				}
				o.do(Op{K: "drop", D: true}, ds)
				o.do(Op{K: "mtext", D: true}, ds)
			}
		}); pan != "" {
			e.R.fail("panic", "after importing a damaged binary form a call panicked: %s", pan)
			return
		}
		// the intact form is accepted
		if pan, _ := guard(func() {
			var err error
			if loc {
				err = w.l.UnmarshalBinary(append([]byte(nil), intact...))
			} else {
				err = o.c.UnmarshalBinary(append([]byte(nil), intact...))
			}
			if err != nil {
				e.R.fail("refused", "the intact binary form was refused after a damaged one: %v", err)
			}
		}); pan != "" {
			e.R.fail("panic", "importing the intact binary form panicked: %s", pan)
			return
		}
		if loc {
			st.lang, st.def = "fr", doms[0]
			st.doms = map[string]int{}
			for i := 0; i < p.P["ndom"]; i++ {
				st.doms[doms[i]] = i
				st.objs[i] = fromDoc(&ds.docs[i])
			}
		} else {
			model = fromDoc(&ds.docs[0])
		}
		impErr = nil
		battery(true)
	})
}

func init() {
	register(&Scenario{Name: "restart", Gen: genRestart, Run: runRestart})
	register(&Scenario{Name: "cache", Gen: genCache, Run: runCache})
}

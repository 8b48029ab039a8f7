package main

import (
	"fmt"
	"path"
	"runtime"
	"strings"

	"github.com/leonelquinteros/gotext"
	rt "github.com/leonelquinteros/gotext/vsimrt"
	vsync "github.com/leonelquinteros/gotext/vsimrt/vsync"
)

// Loading for ever: files that stay open, goroutines and memory that stay behind.

// leaked reports files that are still open when all calls have returned and all
// goroutines have ended.
func (e *Env) leaked() {
	if n, p := rt.TheDisk.Opened(); n > 0 && e.R.Viol == "" {
		e.R.fail("open-file", "%d file(s) still open when every call has returned, %s among them", n, p)
	}
}

// onlyLeaks drops what other properties are about.
func onlyLeaks(e *Env) {
	switch e.R.Class {
	case "", "open-file", "memory":
	case "deadlock": // a goroutine of the code under test that never ends
		if !e.clientsEnded {
			e.R.Viol, e.R.Class, e.R.Report = "", "", ""
		}
	default:
		e.R.Viol, e.R.Class, e.R.Report = "", "", ""
	}
}

type growWorld struct {
	e    *Env
	p    *Plan
	ds   *docSet
	o    *object
	l    *gotext.Locale
	bin  []byte
	tr   gotext.Translator
	miss int
	seen int64 // bytes that went in
}

type cat interface {
	Get(str string, vars ...any) string
	GetN(str, plural string, n int, vars ...any) string
	GetC(str, ctx string, vars ...any) string
	GetNC(str, plural string, n int, ctx string, vars ...any) string
	IsTranslatedN(str string, n int) bool
	IsTranslatedNC(str string, n int, ctx string) bool
}

func (w *growWorld) do(op Op) {
	a := func(i int) string {
		if i < len(op.A) {
			return op.A[i]
		}
		return ""
	}
	world := w.p.P["world"]
	get := func(id, ctx string, n int) {
		var c cat
		switch world {
		case 0, 1:
			c = w.o.c
			if op.D {
				c = w.o.dom
			}
		case 2:
			if n%5 == 0 {
				w.l.GetND(doms[0], id, pluralOf(id), n)
				w.l.GetNDC(doms[0], id, pluralOf(id), n, ctx)
				w.l.IsTranslatedNDC(doms[0], id, n, ctx)
				return
			}
			c = w.l
		case 3:
			switch n % 5 {
			case 0:
				gotext.GetND(doms[1], id, pluralOf(id), n)
				gotext.IsTranslatedNDC(doms[0], id, n, ctx)
			case 1:
				gotext.GetN(id, pluralOf(id), n)
			case 2:
				gotext.GetNC(id, pluralOf(id), n, ctx)
			case 3:
				gotext.Get(id)
			case 4:
				gotext.GetC(id, ctx)
			}
			return
		}
		switch n % 5 {
		case 0:
			c.GetN(id, pluralOf(id), n)
		case 1:
			c.GetNC(id, pluralOf(id), n, ctx)
		case 2:
			c.Get(id, n)
		case 3:
			c.GetC(id, ctx)
		case 4:
			c.IsTranslatedNC(id, n, ctx)
			c.IsTranslatedN(id, n)
		}
	}
	switch op.K {
	case "reload":
		f := w.p.Files[op.J%len(w.p.Files)]
		w.seen += int64(len(w.ds.raw[f.Doc]))
		switch {
		case world == 0 || world == 1:
			w.o.parseFile(f.Path)
		case world == 2:
			w.l.AddDomain(strings.TrimSuffix(strings.TrimSuffix(path.Base(f.Path), ".po"), ".mo"))
		default:
			switch op.N % 4 {
			case 0:
				gotext.Configure("/vsim/lib", a(0), doms[op.J%2])
			case 1:
				gotext.SetDomain(doms[op.J%2])
			case 2:
				gotext.SetLanguage(a(0))
			case 3:
				gotext.SetLibrary("/vsim/lib")
			}
		}
	case "put":
		f := w.p.Files[op.J%len(w.p.Files)]
		if op.D {
			rt.TheDisk.SetData(f.Path, w.ds.raw[op.N%len(w.ds.raw)])
		} else {
			rt.TheDisk.Install(f.Path, w.ds.raw[op.N%len(w.ds.raw)])
		}
	case "obstacle":
		rt.TheDisk.Mkdir(w.p.Files[op.J%len(w.p.Files)].Path)
	case "parse":
		if w.o != nil {
			w.seen += int64(len(w.ds.raw[0]))
			w.o.c.(interface{ Parse([]byte) }).Parse(append([]byte(nil), w.ds.raw[0]...))
		}
	case "import":
		w.seen += int64(len(w.bin))
		b := append([]byte(nil), w.bin...)
		if op.N%3 == 0 && len(b) > 0 {
			b = b[:op.J*7919%len(b)]
		}
		switch {
		case len(w.bin) == 0:
		case world == 2:
			w.l.UnmarshalBinary(b)
		case world < 2:
			w.o.c.(interface{ UnmarshalBinary([]byte) error }).UnmarshalBinary(b)
		}
	case "export":
		switch {
		case world == 2:
			w.l.MarshalBinary()
			w.l.GetTranslations()
		case world < 2:
			w.o.c.(interface{ MarshalBinary() ([]byte, error) }).MarshalBinary()
			w.o.dom.MarshalText()
			w.o.dom.GetTranslations()
			w.o.dom.GetCtxTranslations()
		}
	case "set":
		if w.o != nil {
			w.o.dom.SetN(ids[op.J%3], pluralOf(ids[op.J%3]), op.N, "set")
			w.o.dom.SetRefs(ids[op.J%3], []string{"a.go:1", "b.go:2"})
			if op.D {
				w.o.dom.DropStaleTranslations()
			}
		}
	case "addtr":
		if world == 2 {
			w.l.AddTranslator(doms[2], w.tr)
		}
	case "miss": // texts that are not there, each of them another one
		for i := 0; i < 150; i++ {
			w.miss++
			id := fmt.Sprintf("no such text %d %s", w.miss, strings.Repeat("x", 120))
			w.seen += int64(len(id))
			get(id, "ctx", i)
		}
	case "counts": // many counts of a text that is there
		for i := 0; i < 600; i++ {
			w.miss++
			w.seen += 32
			get(ids[op.J%3], ctxs[0], w.miss)
		}
	}
}

func (o *object) parseFile(f string) {
	if o.po != nil {
		o.po.ParseFile(f)
	} else {
		o.mo.ParseFile(f)
	}
}

func growBase(p *Plan) string {
	if p.P["fs"] > 0 && p.P["world"] != 3 {
		return "lib"
	}
	return "/vsim/lib"
}

func genGrow(g *Rng, p *Plan) {
	world := g.n(4)
	p.P["world"] = world
	p.P["fs"] = g.n(5) // 0: package os
	p.P["rounds"] = g.rng(8, 16)
	kind := "po"
	if world == 1 {
		kind = "mo"
	}
	p.P["mo"] = b2i(world == 1)
	nf := 1
	if world >= 2 {
		nf = g.rng(1, 4)
	}
	p.P["nids"], p.P["nctx"] = 3, 1
	r := g.n(len(rules)+1) - 1
	for i := 0; i < nf; i++ {
		k := kind
		if world >= 2 {
			k = g.s1("po", "mo")
		}
		d := genCatDoc(g, p, fmt.Sprintf("v%d", i), k, r, false)
		for j := 0; j < 30; j++ {
			d.Ents = append(d.Ents, Ent{ID: fmt.Sprintf("filler %d", j), Trs: []string{strings.Repeat("filling ", g.rng(10, 60)) + fmt.Sprint(j)}, Refs: []string{"fill.go:" + fmt.Sprint(j)}})
		}
		base := growBase(p)
		f := base + "/cat.x"
		if world >= 2 {
			cs := candidates(base, []string{"fr_FR", "de_DE"}[i/2%2], doms[i%2], k)
			f = cs[g.n(len(cs))]
		}
		p.Docs = append(p.Docs, d)
		p.Files = append(p.Files, FileSpec{f, i})
	}
	p.Files = uniqFiles(p.Files)
	// damaged versions
	for i := g.n(3); i > 0; i-- {
		d := p.Docs[g.n(nf)]
		if g.p(50) {
			d.Cut = 1 + g.n(len(d.Bytes()))
		} else {
			b := d.Bytes()
			for j := g.rng(1, 20); j > 0; j-- {
				b[g.n(len(b))] = byte(g.n(256))
			}
			if g.p(30) {
				b[g.n(4)] ^= 0x55
			}
			d = Doc{Kind: d.Kind, Rule: -1, Raw: b}
		}
		p.Docs = append(p.Docs, d)
	}
	if g.p(60) {
		p.Faults = genFaults(g)
	}
	for t := g.weightedInt("1:4 2:2 3:1"); t > 0; t-- {
		var l []Op
		for i := g.rng(1, 4); i > 0; i-- {
			op := Op{K: g.weighted("reload:9 put:2 obstacle:1 parse:1 import:1 export:1 set:1 addtr:1 miss:2 counts:1"), J: g.n(12), N: g.n(12), D: g.p(50)}
			op.A = []string{g.s1("fr_FR", "de_DE", "fr_FR:de_DE")}
			if op.K == "put" && p.Files[op.J%len(p.Files)].Doc < nf && p.Docs[op.N%len(p.Docs)].Kind != p.Docs[p.Files[op.J%len(p.Files)].Doc].Kind {
				op.N = p.Files[op.J%len(p.Files)].Doc
			}
			l = append(l, op)
		}
		p.Tasks = append(p.Tasks, l)
	}
}

func runGrow(e *Env) {
	p := e.P
	if len(p.Files) == 0 || len(p.Docs) == 0 {
		return
	}
	ds := prepDocs(p)
	w := &growWorld{e: e, p: p, ds: ds}
	if !e.seq("prepare", func() {
		for _, f := range p.Files {
			rt.TheDisk.Install(f.Path, ds.raw[f.Doc])
		}
		fsys := rt.NewFS(rt.TheDisk, p.P["fs"]-1)
		switch p.P["world"] {
		case 0:
			w.o = &object{kind: "po", po: gotext.NewPo()}
			if p.P["fs"] > 0 {
				w.o.po = gotext.NewPoFS(fsys)
			}
			w.o.c, w.o.dom = w.o.po, w.o.po.GetDomain()
		case 1:
			w.o = &object{kind: "mo", mo: gotext.NewMo()}
			if p.P["fs"] > 0 {
				w.o.mo = gotext.NewMoFS(fsys)
			}
			w.o.c, w.o.dom = w.o.mo, w.o.mo.GetDomain()
		case 2:
			w.l = gotext.NewLocale("/vsim/lib", "fr_FR")
			if p.P["fs"] > 0 {
				w.l = gotext.NewLocaleFSWithPath("fr_FR", fsys, "lib")
			}
			t := gotext.NewPo()
			t.Set("tr", "added")
			w.tr = t
			w.l.AddDomain(doms[0])
			w.bin, _ = w.l.MarshalBinary()
		case 3:
			gotext.Configure("/vsim/lib", "fr_FR", doms[0])
		}
		if w.o != nil {
			w.o.parseFile(p.Files[0].Path)
			w.bin, _ = w.o.c.(interface{ MarshalBinary() ([]byte, error) }).MarshalBinary()
		}
	}) {
		return
	}
	rounds := func(n int) bool {
		names := make([]string, len(p.Tasks))
		fns := make([]func(), len(p.Tasks))
		for t := range p.Tasks {
			names[t] = fmt.Sprintf("client%d", t)
			fns[t] = func() {
				for i := 0; i < n; i++ {
					for _, op := range p.Tasks[t] {
						w.do(op)
					}
				}
			}
		}
		rt.TheDisk.F = p.Faults
		ok := e.stageRun(names, fns)
		rt.TheDisk.F = rt.Faults{}
		e.leaked()
		// what is loaded when the memory is measured is always the same
		ok = ok && e.seq("settle", func() {
			for _, f := range p.Files {
				rt.TheDisk.Install(f.Path, ds.raw[f.Doc])
			}
			if p.P["world"] == 3 {
				gotext.Configure("/vsim/lib", "fr_FR:de_DE", doms[0])
				gotext.GetND(doms[1], "x", "y", 1)
				gotext.GetND(doms[0], "x", "y", 1)
				return
			}
			for i := range p.Files {
				w.do(Op{K: "reload", J: i})
			}
		})
		return ok && e.R.Viol == ""
	}
	heap := func() (int64, int64) {
		own := int64(0)
		for i := range e.R.Sched {
			own += int64(cap(e.R.Sched[i])*8 + cap(e.R.Choices[i])*4)
		}
		vsync.DropPools()
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc) - own, w.seen
	}
	n := p.P["rounds"]
	if !rounds(3) {
		return
	}
	h0, s0 := heap()
	if !rounds(n) {
		return
	}
	h1, s1 := heap()
	if !rounds(n) {
		return
	}
	h2, s2 := heap()
	// what went in and is kept takes at least as much; nothing else should
	lim := func(in int64) int64 { return max(in/20, 32<<10) }
	if h1-h0 > lim(s1-s0) && h2-h1 > lim(s2-s1) {
		e.R.fail("memory", "memory grows by about %d KiB in %d rounds and by about as much in the next %d, in which the same %d KiB were loaded or looked up again", (h1-h0)>>10, n, n, (s2-s1)>>10)
	}
	runtime.KeepAlive(w)
}

func init() {
	io := func(name string, gen func(g *Rng, p *Plan), run func(e *Env)) {
		register(&Scenario{Name: name, Gen: gen, Run: func(e *Env) {
			run(e)
			if e.R.Viol == "" {
				e.leaked()
			}
			onlyLeaks(e)
		}})
	}
	io("leak-loc", func(g *Rng, p *Plan) { genLocPlan(g, p, "io") }, func(e *Env) { runLocale(e, "io") })
	io("leak-pkg", func(g *Rng, p *Plan) { genPkgPlan(g, p, "io") }, func(e *Env) { runPkg(e, "io") })
	io("leak-grow", genGrow, runGrow)
}

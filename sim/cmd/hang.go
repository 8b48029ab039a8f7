package main

import (
	"fmt"
	"path"

	"github.com/leonelquinteros/gotext"
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// A disk that doesn't answer: only the calls that read from it may wait.

// withHang adds an operator to the clients. The disk hangs until every client that makes
// no call for which waits is true has ended; then the operator heals it. A client that
// is held up by a call that hangs, directly or through a lock, is a deadlock.
func (e *Env) withHang(tasks [][]Op, names []string, fns []func(), waits func(Op) bool) ([]string, []func()) {
	free := 0
	done := new(rt.Sem)
	for t := range tasks {
		w := false
		for _, op := range tasks[t] {
			w = w || waits(op)
		}
		if w {
			continue
		}
		free++
		f := fns[t]
		fns[t] = func() {
			defer done.Release()
			f()
		}
	}
	e.R.Counts["free-clients"] += int64(free)
	names = append(names, "operator")
	fns = append(fns, func() {
		for i := 0; i < free; i++ {
			done.Acquire()
		}
		rt.TheDisk.Heal()
	})
	return names, fns
}

// hangLocale: domain number hangdom of the locale lies on a disk that hangs.
func hangLocale(p *Plan) func(Op) bool {
	d := doms[p.P["hangdom"]]
	rt.TheDisk.Hang, rt.TheDisk.HangAlso, rt.TheDisk.HangPct = d+".po", d+".mo", p.P["hang"]
	return func(op Op) bool {
		return (op.K == "adddom" || op.K == "actual") && op.A[0] == d
	}
}

// hangCat: so does the first file of the catalogue.
func hangCat(p *Plan) func(Op) bool {
	rt.TheDisk.Hang, rt.TheDisk.HangPct = "f0", p.P["hang"]
	return func(op Op) bool { return op.K == "pfile" && op.A[0] == "f0" }
}

func (g *Rng) hangRate() int { return []int{20, 50, 100}[g.n(3)] }

// runHangPkg: once the domains are loaded, no disk answers any more. Lookups go on.
func runHangPkg(e *Env) {
	p := e.P
	ds := prepDocs(p)
	var w *pkgWorld
	if !e.seq("prepare", func() { w = newPkgWorld(p, ds) }) {
		return
	}
	st := &pkgState{lib: defaultLib, dom: "default", langs: []string{"en_US"}, files: files{}, pend: map[int]string{}}
	for _, f := range p.Files {
		st.files[f.Path] = f.Doc
	}
	exec := func(task, idx, num int, op Op) *Rec {
		r := &Rec{Task: task, Idx: idx, Op: op, Num: num}
		r.Inv = rt.Seq()
		r.Panic, _ = guard(func() { r.Res = w.do(op, num) })
		r.Ret = rt.Seq()
		return r
	}
	loaded := map[string]bool{}
	cold := -1
	if p.P["cold"] == 1 && p.P["ndom"] > 1 {
		cold = p.P["ndom"] - 1 // nobody has asked for this domain
	}
	var hist []*Rec
	ok := e.seq("init", func() {
		for i, op := range p.Init {
			hist = append(hist, exec(-1, i, i, op))
		}
		for i, d := range doms[:p.P["ndom"]] {
			if i != cold {
				gotext.GetD(d, "warm up, in the first language")
			}
			loaded[d] = true
			for _, l := range gotext.GetLocales() {
				// a message that no language has is looked for in all of them
				_, ok := l.Domains[d]
				loaded[d] = loaded[d] && ok
			}
		}
	})
	if !ok {
		return
	}
	s := st
	for _, r := range hist {
		e.log = append(e.log, r.String())
		if r.Panic != "" {
			e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
			return
		}
		for _, o := range w.steps(r, nil) {
			n, _ := o.apply(s)
			s = n.(*pkgState)
		}
	}
	s = s.first()
	if !loaded[s.domain()] {
		e.R.Counts["default-not-loaded"]++
		return
	}
	waits := func(op Op) bool { return op.D && !loaded[op.A[2]] }
	tasks := make([][]Op, len(p.Tasks))
	for t := range p.Tasks {
		for _, op := range p.Tasks[t] {
			// the first client, and it alone, asks for what has to be loaded
			if isLookup(op.K) && (t == 0 || !waits(op)) {
				tasks[t] = append(tasks[t], op)
				if waits(op) {
					e.R.Counts["lookups-of-unloaded-domains"]++
				}
			}
		}
	}
	e.waits = waits
	rt.TheDisk.Hang, rt.TheDisk.HangPct = "*", 100
	h, ok := runClients(e, tasks, len(p.Init), exec)
	rt.TheDisk.Heal()
	if !ok {
		return
	}
	for _, r := range h {
		e.R.Counts["lookups-without-disk"]++
		dom := s.domain()
		if r.Op.D {
			dom = r.Op.A[2]
		}
		if want, _ := w.lookup(s, dom, r.Op); !matches(r.Op, want, r.Res) {
			e.R.fail("fallback", "%s answered %q, expected one of %q", r.Op, r.Res, want)
			return
		}
	}
}

// genHangMany: many catalogues, each with a file of its own; most of the files hang.
func genHangMany(g *Rng, p *Plan) {
	p.P["nids"], p.P["nctx"] = 3, 1
	p.P["fsmode"] = g.n(5)
	p.P["hang"] = 100
	nt := g.rng(3, 12)
	if g.p(20) {
		nt = g.rng(13, 70)
	}
	for t := 0; t < nt; t++ {
		kind := g.s1("po", "mo", "loc")
		// the first half of them wait, and one does not
		d := doms[0]
		if t == nt-1 || t > nt/2 && g.p(30) {
			d = doms[1]
		}
		k := "po"
		if kind == "mo" || kind == "loc" && g.p(40) {
			k = "mo"
		}
		p.Docs = append(p.Docs, genDoc(g, fmt.Sprintf("v%d", t), k, g.n(len(rules)), 3, false))
		// an absolute name is a file of package os, the others lie in a file system
		dir, fsys := fmt.Sprintf("/vsim/many/d%d", t), g.p(50)
		if fsys {
			dir = dir[6:]
		}
		p.Files = append(p.Files, FileSpec{path.Join(dir, "fr", d+"."+k), t})
		ops := []Op{{K: kind, A: []string{dir, d}, D: fsys}}
		if g.p(20) {
			ops = append(ops, ops[0])
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

func runHangMany(e *Env) {
	p := e.P
	ds := prepDocs(p)
	for _, f := range p.Files {
		rt.TheDisk.Install(f.Path, ds.raw[f.Doc])
	}
	fsys := rt.NewFS(rt.TheDisk, p.P["fsmode"])
	rt.TheDisk.Hang, rt.TheDisk.HangAlso, rt.TheDisk.HangPct = doms[0]+".po", doms[0]+".mo", p.P["hang"]
	e.waits = func(op Op) bool { return op.A[1] == doms[0] }
	exec := func(task, idx, num int, op Op) *Rec {
		r := &Rec{Task: task, Idx: idx, Op: op, Num: num}
		r.Inv = rt.Seq()
		r.Panic, _ = guard(func() {
			f := path.Join(op.A[0], "fr", op.A[1]+"."+op.K)
			var c gotext.Translator
			switch {
			case op.K == "po" && op.D:
				c = gotext.NewPoFS(fsys)
			case op.K == "po":
				c = gotext.NewPo()
			case op.K == "mo" && op.D:
				c = gotext.NewMoFS(fsys)
			case op.K == "mo":
				c = gotext.NewMo()
			default:
				l := gotext.NewLocale(op.A[0], "fr")
				if op.D {
					l = gotext.NewLocaleFSWithPath("fr", fsys, op.A[0])
				}
				l.AddDomain(op.A[1])
				r.Res = l.GetND(op.A[1], ids[0], "many", 1) + "|" + l.GetND(op.A[1], ids[1], "many", 5)
				return
			}
			c.ParseFile(f)
			r.Res = c.GetN(ids[0], "many", 1) + "|" + c.GetN(ids[1], "many", 5)
		})
		r.Ret = rt.Seq()
		return r
	}
	h, ok := runClients(e, p.Tasks, 0, exec)
	rt.TheDisk.Heal()
	if !ok {
		return
	}
	for _, r := range h {
		e.R.Counts["loads-beside-a-hung-disk"]++
		m := fromDoc(&ds.docs[r.Task])
		good := false
		for _, x := range m.lookup("", ids[0], "many", 1, true) {
			for _, y := range m.lookup("", ids[1], "many", 5, true) {
				good = good || r.Res == x+"|"+y
			}
		}
		if !good {
			e.R.fail("answer", "after loading beside a disk that hangs, %s answered %q", r.Op, r.Res)
			return
		}
	}
}

func init() {
	lk, wr := mixLookup, mixWrite
	register(&Scenario{Name: "hang-cat",
		Gen: func(g *Rng, p *Plan) {
			genCatPlan(g, p, 1, 3, 4, []string{lk, wr, lk + wr, mixSnap + wr})
			p.P["hang"] = g.hangRate()
			var ops []Op
			for i := g.rng(1, 2); i > 0; i-- {
				ops = append(ops, Op{K: "pfile", A: []string{"f0", ctxs[0], ""}})
			}
			p.Tasks = append(p.Tasks, ops)
			if p.P["kind"] == 2 { // a Domain has no files
				p.P["kind"] = 0
				for _, l := range append([][]Op{p.Init}, p.Tasks...) {
					for i := range l {
						if l[i].K == "pfile" {
							l[i].A[0] = "f0"
						}
					}
				}
			}
		},
		Run: func(e *Env) { runCat(e, true) }})
	register(&Scenario{Name: "hang-loc",
		Gen: func(g *Rng, p *Plan) {
			genLocPlan(g, p, "lin")
			p.P["hang"] = g.hangRate()
			p.P["hangdom"] = g.n(p.P["ndom"])
			d := doms[p.P["hangdom"]]
			// the domain has a file, and somebody loads it
			cs := candidates(locBase2(p), locLangs[p.P["lang"]], d, "po")
			p.Docs = append(p.Docs, genCatDoc(g, p, "h", "po", -1, false))
			p.Files = uniqFiles(append(p.Files, FileSpec{cs[g.n(len(cs))], len(p.Docs) - 1}))
			p.Tasks = append(p.Tasks, []Op{{K: "adddom", A: []string{d}}})
		},
		Run: func(e *Env) { runLocale(e, "lin") }})
	register(&Scenario{Name: "hang-many", Gen: genHangMany, Run: runHangMany})
	register(&Scenario{Name: "hang-pkg",
		Gen: func(g *Rng, p *Plan) {
			genPkgPlan(g, p, "fallback")
			full := g.p(80)
			p.P["cold"] = g.n(2)
			for _, lib := range []string{"/vsim/lib", "/vsim/lib2", defaultLib} {
				for _, lang := range []string{"fr_FR", "de_DE", "en_US", "pl_PL"} {
					for _, d := range doms[:p.P["ndom"]] {
						has := false
						for _, f := range p.Files {
							for _, ext := range []string{"po", "mo"} {
								for _, c := range candidates(lib, lang, d, ext) {
									has = has || f.Path == c
								}
							}
						}
						if !has && (full || g.p(60)) {
							p.Docs = append(p.Docs, genCatDoc(g, p, "x", g.s1("po", "mo"), -1, false))
							k := p.Docs[len(p.Docs)-1].Kind
							p.Files = append(p.Files, FileSpec{path.Join(lib, lang[:2], d+"."+k), len(p.Docs) - 1})
						}
					}
				}
			}
		},
		Run: runHangPkg})
}

func locBase2(p *Plan) string {
	b, _ := locBase(p.P["mode"])
	return b
}

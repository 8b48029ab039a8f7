package main

import (
	"fmt"
	"path"

	"github.com/leonelquinteros/gotext"
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// I/O faults: degraded service, failed reloads, recovery.

// reloadable is a Po or Mo filled from one file, or a Locale with one file per domain.
type ioWorld struct {
	p     *Plan
	ds    *docSet
	obj   *object
	loc   *locWorld
	files []string
}

func newIOWorld(p *Plan, ds *docSet) *ioWorld {
	w := &ioWorld{p: p, ds: ds}
	for _, f := range p.Files {
		rt.TheDisk.Install(f.Path, ds.raw[f.Doc])
		w.files = append(w.files, f.Path)
	}
	if p.P["world"] == 1 {
		w.loc = newLocWorld(p, ds)
		return w
	}
	o := &object{kind: "po"}
	if p.P["mode"] == 0 {
		// through package os
		if p.P["mo"] == 1 {
			o.mo = gotext.NewMo()
		} else {
			o.po = gotext.NewPo()
		}
	} else {
		fsys := rt.NewFS(rt.TheDisk, p.P["fsmode"])
		if p.P["mo"] == 1 {
			o.mo = gotext.NewMoFS(fsys)
		} else {
			o.po = gotext.NewPoFS(fsys)
		}
	}
	if o.mo != nil {
		o.c, o.dom = o.mo, o.mo.GetDomain()
	} else {
		o.c, o.dom = o.po, o.po.GetDomain()
	}
	w.obj = o
	return w
}

func (w *ioWorld) do(op Op, num int) string {
	switch op.K {
	case "reload":
		if w.loc != nil {
			w.loc.l.AddDomain(op.A[1])
		} else if w.obj.po != nil {
			w.obj.po.ParseFile(op.A[0])
		} else {
			w.obj.mo.ParseFile(op.A[0])
		}
		return ""
	case "put", "rm", "dead":
		switch op.K {
		case "put":
			rt.TheDisk.Install(op.A[0], w.ds.raw[op.J])
		case "rm":
			rt.TheDisk.Remove(op.A[0])
		case "dead":
			rt.TheDisk.Kill(op.A[0])
		}
		return ""
	}
	if w.loc != nil {
		op.D = true
		r, _ := w.loc.do(op, num)
		return r
	}
	r, _ := w.obj.do(op, w.ds)
	return r
}

// ioState is the model: what is loaded, what is on the disk.
type ioState struct {
	doms map[string]*mcat // by domain ("" for a single object)
	disk map[string]int   // document, -1: unreadable or missing
	pend map[int]int
	k    string
}

func (s *ioState) clone() *ioState {
	n := &ioState{doms: map[string]*mcat{}, disk: map[string]int{}, pend: map[int]int{}}
	for k, v := range s.doms {
		n.doms[k] = v
	}
	for k, v := range s.disk {
		n.disk[k] = v
	}
	for k, v := range s.pend {
		n.pend[k] = v
	}
	return n
}

func (s *ioState) key() string {
	if s.k == "" {
		for _, d := range sortedKeys(s.doms) {
			s.k += d + "=" + s.doms[d].key() + ";"
		}
		for _, f := range sortedKeys(s.disk) {
			s.k += fmt.Sprintf("%s=%d;", f, s.disk[f])
		}
		s.k += fmt.Sprint(s.pend)
	}
	return s.k
}

func (w *ioWorld) dom(op Op) string {
	if w.loc == nil {
		return ""
	}
	if op.K == "reload" {
		return op.A[1]
	}
	return op.A[2]
}

func (w *ioWorld) answer(s *ioState, op Op, res string) bool {
	m := s.doms[w.dom(op)]
	if isIst(op.K) {
		return res == fmt.Sprint(istOf(m, op))
	}
	return matches(op, answers(m, op), res)
}

func (w *ioWorld) steps(r *Rec, ops []linOp) []linOp {
	op, num := r.Op, r.Num
	one := func(f func(s *ioState) (*ioState, bool)) {
		ops = append(ops, linOp{inv: r.Inv, ret: r.Ret, after: -1, name: op.String(), apply: func(s linState) (linState, bool) {
			n, ok := f(s.(*ioState))
			return n, ok
		}})
	}
	switch op.K {
	case "put", "rm", "dead":
		one(func(s *ioState) (*ioState, bool) {
			n := s.clone()
			n.disk[op.A[0]] = -1
			if op.K == "put" {
				n.disk[op.A[0]] = op.J
			}
			return n, true
		})
	case "reload":
		// read, then install; a read may only fail when something was injected
		ops = append(ops, linOp{inv: r.Inv, ret: r.Ret, after: -1, name: op.String(), alts: func(x linState) []linState {
			s := x.(*ioState)
			j, ok := s.disk[op.A[0]]
			if !ok {
				j = -1
			}
			n := s.clone()
			n.pend[num] = j
			out := []linState{n}
			if r.Faults > 0 && j >= 0 {
				n = s.clone()
				n.pend[num] = -1
				out = append(out, n)
			}
			return out
		}})
		ops = append(ops, linOp{inv: r.Inv, ret: r.Ret, after: len(ops) - 1, name: op.String(), apply: func(x linState) (linState, bool) {
			n := x.(*ioState).clone()
			j := n.pend[num]
			delete(n.pend, num)
			if j < 0 {
				return n, true
			}
			d := &w.ds.docs[j]
			if w.loc != nil {
				n.doms[w.dom(op)] = fromDoc(d)
			} else {
				m := n.doms[""]
				if m == nil {
					m = newMcat()
				}
				n.doms[""] = m.parse(d, false)
			}
			return n, true
		}})
	default:
		one(func(s *ioState) (*ioState, bool) { return s, w.answer(s, op, r.Res) })
	}
	return ops
}

// genIOPlan: one reloader, lookers, and somebody who changes the files.
func genIOPlan(g *Rng, p *Plan) {
	p.P["nids"] = g.rng(1, 4)
	p.P["nctx"] = 1
	p.P["world"] = g.n(2)
	p.P["mode"] = g.n(3)
	p.P["fsmode"] = g.n(4)
	p.P["lang"] = g.n(len(locLangs))
	p.P["mo"] = g.n(2)
	r := g.n(len(rules)+1) - 1
	nf := 1
	base, _ := locBase(p.P["mode"])
	lang := locLangs[p.P["lang"]]
	if p.P["world"] == 1 {
		nf = g.rng(1, 2)
		if g.p(3) {
			nf = g.rng(3, 15)
		}
	}
	kindOfFile := map[string]string{}
	for i := 0; i < nf; i++ {
		var f, kind string
		if p.P["world"] == 1 {
			kind = g.weighted("po:3 mo:2")
			cs := candidates(base, lang, doms[i], kind)
			f = cs[g.n(len(cs))]
		} else {
			kind = "po"
			if p.P["mo"] == 1 {
				kind = g.s1("mo", "mobe")
			}
			f = path.Join(base, "cat.x")
		}
		kindOfFile[f] = kind
		p.Docs = append(p.Docs, genCatDoc(g, p, fmt.Sprintf("v%d", len(p.Docs)), kind, r, false))
		p.Files = append(p.Files, FileSpec{f, len(p.Docs) - 1})
	}
	p.P["nf"] = nf
	p.Faults = genFaults(g)
	newDoc := func(f string) int {
		rr := r
		if g.p(20) {
			rr = g.n(len(rules)+1) - 1
		}
		p.Docs = append(p.Docs, genCatDoc(g, p, fmt.Sprintf("v%d", len(p.Docs)), kindOfFile[f], rr, false))
		return len(p.Docs) - 1
	}
	gen := func(k string) Op {
		i := g.n(nf)
		f := p.Files[i].Path
		op := Op{K: k}
		switch k {
		case "reload":
			op.A = []string{f, doms[i]}
		case "rm", "dead":
			op.A = []string{f}
		case "put":
			op.A = []string{f}
			op.J = newDoc(f)
		default:
			op.A = []string{ids[g.n(p.P["nids"])], ctxs[0], doms[i]}
			op.N = nvals[g.n(len(nvals))]
			op.D = g.p(30)
		}
		return op
	}
	var load, env []Op
	for i := g.rng(1, 5); i > 0; i-- {
		load = append(load, gen(g.weighted("reload:4 getn:1 get:1")))
		if g.p(40) {
			env = append(env, gen(g.weighted("put:6 rm:1 dead:2")))
		}
	}
	if g.p(80) {
		for i := 0; i < nf; i++ {
			p.Init = append(p.Init, Op{K: "reload", A: []string{p.Files[i].Path, doms[i]}})
		}
	}
	if g.p(40) {
		// files change in the reloader's own order
		load = interleave(g, load, env)
		env = nil
	}
	p.Tasks = append(p.Tasks, load)
	if len(env) > 0 {
		p.Tasks = append(p.Tasks, env)
	}
	for i := g.n(3); i > 0; i-- {
		var l []Op
		for j := g.rng(1, 4); j > 0; j-- {
			l = append(l, gen(g.weighted("get:4 getn:4 getc:2 getnc:2 ist:1 istn:1 istnc:1")))
		}
		p.Tasks = append(p.Tasks, l)
	}
}

func interleave(g *Rng, a, b []Op) []Op {
	var out []Op
	for len(a) > 0 || len(b) > 0 {
		if len(b) == 0 || len(a) > 0 && g.p(50) {
			out = append(out, a[0])
			a = a[1:]
		} else {
			out = append(out, b[0])
			b = b[1:]
		}
	}
	return out
}

// genOutage: now and then the disk fails for a long time.
func genOutage(g *Rng, p *Plan) {
	if g.p(8) {
		p.P["outage"] = g.rng(10, 80)
		p.P["outkind"] = g.n(3)
	}
}

// outage loads many times while no load can succeed.
func outage(e *Env, load func(i int)) {
	n := e.P.P["outage"]
	if n == 0 || e.R.Viol != "" {
		return
	}
	switch e.P.P["outkind"] {
	case 0:
		rt.TheDisk.F = rt.Faults{OpenErr: 100}
	case 1:
		rt.TheDisk.F = rt.Faults{ReadErr: 100}
	default:
		rt.TheDisk.F = rt.Faults{StatErr: 100}
	}
	e.seq("outage", func() {
		for i := 0; i < n; i++ {
			load(i)
		}
	})
	e.R.Counts["loads-in-an-outage"] += int64(n)
	rt.TheDisk.F = rt.Faults{}
}

func runIO(e *Env, recover bool) {
	p := e.P
	ds := prepDocs(p)
	var w *ioWorld
	if !e.seq("prepare", func() { w = newIOWorld(p, ds) }) {
		return
	}
	st := &ioState{doms: map[string]*mcat{}, disk: map[string]int{}, pend: map[int]int{}}
	if w.loc == nil {
		st.doms[""] = newMcat()
	}
	for _, f := range p.Files {
		st.disk[f.Path] = f.Doc
	}
	off := int64(0)
	exec := func(task, idx, num int, op Op) *Rec {
		r := &Rec{Task: task, Idx: idx, Op: op, Num: num}
		r.Inv = off + rt.Seq()
		n := rt.TheDisk.Injected()
		r.Panic, _ = guard(func() { r.Res = w.do(op, num) })
		r.Faults = rt.TheDisk.Injected() - n
		r.Ret = off + rt.Seq()
		return r
	}
	var hist []*Rec
	ok := e.seq("init", func() {
		for i, op := range p.Init {
			hist = append(hist, exec(-1, i, i, op))
		}
	})
	for _, r := range hist {
		e.log = append(e.log, r.String())
		if r.Panic != "" {
			e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
		}
	}
	if !ok || e.R.Viol != "" {
		return
	}
	off = 1 << 20
	rt.TheDisk.F = p.Faults
	h, ok := runClients(e, p.Tasks, len(p.Init), exec)
	rt.TheDisk.F = rt.Faults{}
	if !ok {
		return
	}
	hist = append(hist, h...)
	num := 100000
	off = 2 << 20
	look := func(task int, f func(r *Rec)) {
		for i := 0; i < p.P["nf"]; i++ {
			for _, id := range ids[:p.P["nids"]] {
				for _, n := range []int{1, 2, 5} {
					for _, k := range []string{"getn", "getnc", "istn"} {
						f(exec(task, 0, num, Op{K: k, A: []string{id, ctxs[0], doms[i]}, N: n}))
						num++
					}
				}
				f(exec(task, 0, num, Op{K: "get", A: []string{id, "", doms[i]}}))
				f(exec(task, 0, num+1, Op{K: "getc", A: []string{id, ctxs[0], doms[i]}}))
				num += 2
			}
		}
	}
	if !recover {
		// failed reloads keep what was there: everything has an explanation
		var fin []*Rec
		if !e.seq("final", func() { look(-2, func(r *Rec) { fin = append(fin, r) }) }) {
			return
		}
		var ops, sub []linOp
		for _, r := range hist {
			ops = w.steps(r, ops)
		}
		for _, r := range fin {
			e.log = append(e.log, "final: "+r.String())
			if r.Panic != "" {
				e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
				return
			}
			sub = w.steps(r, sub)
		}
		ops = append(ops, linOp{inv: off, ret: off + 1, after: -1, name: "final", apply: func(s linState) (linState, bool) {
			for _, o := range sub {
				var ok bool
				if s, ok = o.apply(s); !ok {
					return s, false
				}
			}
			return s, true
		}})
		good, decided := linearizable(st, ops, 60000)
		if !decided {
			e.R.Counts["undecided-history"]++
		}
		if !good {
			e.R.fail("lost", "the answers cannot be explained by reloads that either take effect as a whole or leave everything as it was")
		}
		return
	}
	outage(e, func(i int) {
		f := p.Files[i%len(p.Files)]
		exec(-2, i, num+i, Op{K: "reload", A: []string{f.Path, doms[i%len(p.Files)]}})
	})
	// the disk works again and the files are there
	for i, f := range p.Files {
		_ = i
		rt.TheDisk.Install(f.Path, ds.raw[f.Doc])
	}
	e.seq("recovery", func() {
		for i, f := range p.Files {
			if r := exec(-2, i, num, Op{K: "reload", A: []string{f.Path, doms[i]}}); r.Panic != "" {
				e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
				return
			}
		}
		look(-3, func(r *Rec) {
			e.log = append(e.log, "after recovery: "+r.String())
			var d *Doc
			for i, f := range p.Files {
				if doms[i] == r.Op.A[2] {
					d = &ds.docs[f.Doc]
				}
			}
			m := fromDoc(d)
			key := mkey{"", r.Op.A[0]}
			if r.Op.K == "getnc" || r.Op.K == "getc" {
				key.ctx = r.Op.A[1]
			}
			if w.loc == nil && m.ents[key] == nil {
				return // an older version's message may still be there
			}
			if w.loc == nil && m.rule < 0 {
				// an earlier version's plural rule may still be in force
				if k := kindOf(r.Op.K); k == "n" || k == "nc" {
					return
				}
			}
			good := false
			if isIst(r.Op.K) {
				good = r.Res == fmt.Sprint(istOf(m, r.Op))
			} else {
				good = matches(r.Op, answers(m, r.Op), r.Res)
			}
			if !good || r.Panic != "" {
				e.R.fail("stuck-fault", "after the faults stopped and a reload, %s answered %q %s", r.Op, r.Res, r.Panic)
			}
		})
	})
}

// genRecoverPkg: lookups through the package while the disk fails; afterwards
// they have to be right, with or without a reload.
func genRecoverPkg(g *Rng, p *Plan) {
	genPkgPlan(g, p, "fallback")
	p.Faults = genFaults(g)
	// one file for each language and domain: a failing check must not divert to another
	seen := map[string]bool{}
	var out []FileSpec
	for _, f := range p.Files {
		fl := fileKey(f.Path)
		if !seen[fl] {
			seen[fl] = true
			out = append(out, f)
		}
	}
	p.Files = out
	p.P["reconf"] = g.n(3) // 0: nothing; 1: Configure; 2: SetDomain
	genOutage(g, p)
}

// fileKey names library, two-letter language and domain of a file.
func fileKey(f string) string {
	dir, b := path.Split(f)
	dir = path.Clean(dir)
	if path.Base(dir) == "LC_MESSAGES" {
		dir = path.Dir(dir)
	}
	l := path.Base(dir)
	return path.Dir(dir) + "|" + l[:2] + "|" + b[:len(b)-3]
}

func runRecoverPkg(e *Env) {
	p := e.P
	ds := prepDocs(p)
	var w *pkgWorld
	rt.TheDisk.F = rt.Faults{}
	if !e.seq("prepare", func() { w = newPkgWorld(p, ds) }) {
		return
	}
	st := &pkgState{lib: defaultLib, dom: "default", langs: []string{"en_US"}, files: files{}, pend: map[int]string{}}
	for _, f := range p.Files {
		st.files[f.Path] = f.Doc
	}
	exec := func(task, idx, num int, op Op) *Rec {
		r := &Rec{Task: task, Idx: idx, Op: op, Num: num}
		r.Inv = rt.Seq()
		r.Panic, _ = guard(func() { r.Res = w.do(op, num) })
		r.Ret = rt.Seq()
		return r
	}
	rt.TheDisk.F = p.Faults
	var conf []linOp
	ok := e.seq("init", func() {
		for i, op := range p.Init {
			r := exec(-1, i, i, op)
			conf = w.steps(r, conf)
			e.log = append(e.log, r.String())
			if r.Panic != "" {
				e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
			}
		}
	})
	if !ok {
		return
	}
	_, ok = runClients(e, p.Tasks, len(p.Init), exec)
	rt.TheDisk.F = rt.Faults{}
	if !ok {
		return
	}
	s := st
	for _, o := range conf {
		n, _ := o.apply(s)
		s = n.(*pkgState)
	}
	s = s.first()
	outage(e, func(i int) {
		exec(-2, i, 200000+i, Op{K: "getn", A: []string{ids[0], ctxs[0], doms[i%p.P["ndom"]]}, N: 1, D: true})
	})
	if e.R.Viol != "" {
		return
	}
	e.seq("recovery", func() {
		num := 100000
		switch p.P["reconf"] {
		case 1:
			op := Op{K: "configure", A: []string{s.lib, joinLangs(s.langs), s.dom}}
			r := exec(-2, 0, num, op)
			for _, o := range w.steps(r, nil) {
				n, _ := o.apply(s)
				s = n.(*pkgState)
			}
		case 2:
			r := exec(-2, 0, num, Op{K: "setdom", A: []string{s.dom}})
			for _, o := range w.steps(r, nil) {
				n, _ := o.apply(s)
				s = n.(*pkgState)
			}
		}
		for _, d := range doms[:p.P["ndom"]] {
			for _, id := range ids[:p.P["nids"]] {
				for _, n := range []int{1, 5} {
					for _, k := range []string{"getn", "getnc", "istnc"} {
						num++
						r := exec(-3, 0, num, Op{K: k, A: []string{id, ctxs[0], d}, N: n, D: true})
						e.log = append(e.log, "after recovery: "+r.String())
						good := false
						if isIst(k) {
							want, _ := w.isTranslated(s, d, s.langs, r.Op)
							good = fmt.Sprint(want) == r.Res
						} else {
							want, _ := w.lookup(s, d, r.Op)
							good = matches(r.Op, want, r.Res)
						}
						if !good || r.Panic != "" {
							e.R.fail("stuck-fault", "after the faults stopped, %s answered %q %s", r.Op, r.Res, r.Panic)
							return
						}
					}
				}
			}
		}
	})
}

func joinLangs(l []string) string {
	out := ""
	for i, s := range l {
		if i > 0 {
			out += ":"
		}
		out += s
	}
	return out
}

// runObjIO: lookups on a catalogue while ParseFile calls fail.
func runObjIO(e *Env) {
	p := e.P
	ds := prepDocs(p)
	var w *ioWorld
	if !e.seq("prepare", func() { w = newIOWorld(p, ds) }) {
		return
	}
	var cats []*mcat
	for i := range ds.docs {
		cats = append(cats, fromDoc(&ds.docs[i]))
	}
	if w.loc == nil {
		// the files are merged: a message of one may meet the rule of another, or none
		for _, m := range cats[:len(ds.docs):len(ds.docs)] {
			for r := -1; r < len(rules); r++ {
				n := m.clone()
				n.rule = r
				cats = append(cats, n)
			}
		}
	}
	exec := func(task, idx, num int, op Op) *Rec {
		r := &Rec{Task: task, Idx: idx, Op: op, Num: num}
		r.Inv = rt.Seq()
		r.Panic, _ = guard(func() { r.Res = w.do(op, num) })
		r.Ret = rt.Seq()
		return r
	}
	rt.TheDisk.F = p.Faults
	h, ok := runClients(e, p.Tasks, len(p.Init), exec)
	rt.TheDisk.F = rt.Faults{}
	if !ok {
		return
	}
	for _, r := range h {
		if isLookup(r.Op.K) && !plausible(cats, r.Op, r.Res) {
			e.R.fail("answer", "%s answered %q, which is neither a translation in any version of the files nor the source text", r.Op, r.Res)
		}
	}
}

func init() {
	register(&Scenario{Name: "io-reload", Gen: genIOPlan, Run: func(e *Env) { runIO(e, false) }})
	register(&Scenario{Name: "io-benign", Gen: func(g *Rng, p *Plan) {
		// one client, files that are replaced, and a disk that is only slow, delivers files
		// in small pieces and does not know their size
		genIOPlan(g, p)
		var tasks [][]Op
		for t := range p.Tasks {
			var ops []Op
			for _, op := range p.Tasks[t] {
				if op.K == "put" || t == 0 && op.K != "dead" && op.K != "rm" {
					ops = append(ops, op)
				}
			}
			if t == 0 || len(ops) > 0 {
				tasks = append(tasks, ops)
			}
		}
		p.Tasks = tasks
		p.Faults = rt.Faults{ShortRead: g.rng(5, 80), Stall: g.n(30), NoSize: g.s2(0, 20, 100)}
	}, Run: func(e *Env) { runIO(e, false) }})
	register(&Scenario{Name: "io-recover", Gen: func(g *Rng, p *Plan) {
		genIOPlan(g, p)
		genOutage(g, p)
	}, Run: func(e *Env) { runIO(e, true) }})
	register(&Scenario{Name: "io-recover-pkg", Gen: genRecoverPkg, Run: runRecoverPkg})
	register(&Scenario{Name: "io-obj", Gen: func(g *Rng, p *Plan) {
		genIOPlan(g, p)
		more := len(p.Tasks)
		for i := 0; i < more && g.p(50); i++ { // more reloaders
			p.Tasks = append(p.Tasks, p.Tasks[0])
		}
	}, Run: runObjIO})
}

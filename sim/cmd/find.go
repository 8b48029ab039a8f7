package main

import (
	"fmt"
	"io/fs"
	"path"
	"strings"

	"github.com/leonelquinteros/gotext"
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// Where the file of a domain is found, with other files about that appear, move and vanish.

var findLangs = []struct{ code, lang string }{
	{"fr_FR", "fr_FR"}, {"fr", "fr"}, {"fr_FR.UTF-8", "fr_FR"}, {"fr_FR@euro", "fr_FR"}, {"fr_FR.ISO-8859-1@euro", "fr_FR"},
	{"zh_Hant_TW", "zh_Hant_TW"}, {"en-GB", "en-GB"}, {"pt_BR:pt:fr_FR", "pt_BR"}, {"  de_DE ", "de_DE"}, {"de", "de"}, {"fr_CA", "fr_CA"}, {"C", "C"}, {"C.UTF-8", "C"},
}

var findDoms = [][2]string{
	{"default", "extra"}, {"my.app", "my"}, {"my.app", "my.app2"}, {"sub/dom", "sub"}, {"fr_FR", "fr"}, {"LC_MESSAGES", "po"}, {"d.po", "d"},
	{"d.mo", "d"}, {"[ab]", "a"}, {"app*", "app2"}, {"x?", "xy"}, {"50%d", "50"}, {"LC_MESSAGES/x", "x"}, {"Default", "default"}, {"\u00fcn\u00efc\u00f6de", "two words"}, {"a", "b"},
}

// findBases are the spellings of the directory, and what it is called on the disk.
func findBase(fsMode, k int) (spelt, dir string) {
	if fsMode == 0 {
		return []string{"/vsim/lib", "/vsim/lib/", "/vsim//lib", "/vsim/./lib", "/vsim/x/../lib", "/vsim/fr_FR", "/vsim"}[k%7],
			[]string{"/vsim/lib", "/vsim/lib", "/vsim/lib", "/vsim/lib", "/vsim/lib", "/vsim/fr_FR", "/vsim"}[k%7]
	}
	if fsMode == 6 { // a sub-directory as root
		return "", "lib"
	}
	return []string{"lib", "lib/", "./lib", "lib/x/..", "", "lib/fr_FR", "."}[k%7],
		[]string{"lib", "lib", "lib", "lib", "", "lib/fr_FR", ""}[k%7]
}

func findFS(mode int) fs.FS {
	switch mode {
	case 0:
		return nil
	case 6:
		return rt.SubFS(rt.TheDisk, "lib")
	}
	return rt.NewFS(rt.TheDisk, mode-1)
}

// findPaths are the places where files are put: those of the domains, and some that mean nothing.
func findPaths(dir string, langs []string, ds []string) []string {
	var out []string
	seen := map[string]bool{}
	add := func(p string) {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	for _, l := range langs {
		for _, d := range ds {
			for _, x := range []string{"po", "mo"} {
				for _, p := range candidates(dir, l, d, x) {
					add(p)
				}
			}
			for _, p := range []string{
				path.Join(dir, "LC_MESSAGES", d+".po"), path.Join(dir, d+".po"), path.Join(dir, l, "LC_MESSAGES", d+".pot"), path.Join(dir, l, "LC_MESSAGES", d),
				path.Join(dir, l, "LC_MESSAGES", d+".PO"), path.Join(dir, l, "lc_messages", d+".po"), path.Join(dir, strings.ToLower(l)+"x", "LC_MESSAGES", d+".po"),
				path.Join(dir, l, "LC_MESSAGES", d+".po~"), path.Join(dir, l+".UTF-8", "LC_MESSAGES", d+".po"), path.Join(dir, "fr_BE", d+".mo"), path.Join(dir, "en_US", "LC_MESSAGES", d+".po"),
			} {
				add(p)
			}
		}
	}
	return out
}

// findData is version v of a file. The messages tell which it is.
func findData(p string, v int) []byte {
	k := "po"
	if strings.HasSuffix(p, ".mo") {
		k = "mo"
	}
	d := Doc{Kind: k, Rule: -1, Lang: "xx"}
	d.Ents = append(d.Ents, Ent{ID: "where", Trs: []string{fmt.Sprintf("v%d", v)}})
	for i := range ids {
		if findHas(v, i) {
			d.Ents = append(d.Ents, Ent{ID: ids[i], Trs: []string{fmt.Sprintf("v%d.%d", v, i)}})
		}
	}
	return d.Bytes()
}

// findHas says whether version v has a translation of the message.
func findHas(v, i int) bool { return (v*7+i*3+v/5)%3 != 0 }

func genFind(g *Rng, p *Plan, how string) {
	p.P["fs"] = g.n(7)
	p.P["base"] = g.n(7)
	p.P["lang"] = g.n(len(findLangs))
	p.P["doms"] = g.n(len(findDoms))
	p.P["dense"] = []int{5, 15, 40, 80}[g.n(4)]
	ver := 0
	l := findLangs[p.P["lang"]].lang
	langs := []string{l}
	if how == "pkg" {
		p.P["langs"] = g.n(1000)
		langs = nil
		for _, x := range findPkgLangs(p) {
			langs = append(langs, x.lang)
		}
	}
	_, dir := findBase(p.P["fs"], p.P["base"])
	ds := findDoms[p.P["doms"]][:]
	ps := findPaths(dir, langs, ds)
	put := func() Op { ver++; return Op{K: "put", A: []string{ps[g.n(len(ps))]}, J: ver} }
	for _, f := range ps {
		if g.p(p.P["dense"]) {
			ver++
			p.Init = append(p.Init, Op{K: "put", A: []string{f}, J: ver})
		}
	}
	// the file of one place leaves for another with the same extension
	mv := func() Op {
		a := ps[g.n(len(ps))]
		for i := 0; i < 20; i++ {
			if b := ps[g.n(len(ps))]; path.Ext(a) == path.Ext(b) && a != b {
				return Op{K: "mv", A: []string{a, b}}
			}
		}
		return Op{K: "rm", A: []string{a}}
	}
	files := func() Op {
		switch g.weighted("put:4 rm:4 mv:3") {
		case "put":
			return put()
		case "rm":
			return Op{K: "rm", A: []string{ps[g.n(len(ps))]}}
		}
		return mv()
	}
	if g.p(60) {
		p.Faults.Stall, p.Faults.ShortRead, p.Faults.NoSize = g.n(30), g.n(30), g.n(30)
	}
	switch how {
	case "seq":
		var l []Op
		for i := g.rng(4, 14); i > 0; i-- {
			for j := g.n(4); j > 0; j-- {
				l = append(l, files())
			}
			d := ds[g.n(2)]
			switch g.weighted("add:6 actual:3 get:2 copy:1") {
			case "add":
				l = append(l, Op{K: "add", A: []string{d}})
			case "actual":
				l = append(l, Op{K: "actual", A: []string{d}})
			case "copy":
				l = append(l, Op{K: "copy", A: []string{d}, D: g.p(50)})
			}
			l = append(l, Op{K: "get", A: []string{d}})
		}
		p.Tasks = append(p.Tasks, l)
	case "conc":
		var l []Op
		for i := g.rng(2, 16); i > 0; i-- {
			l = append(l, files())
		}
		p.Tasks = append(p.Tasks, l)
		for t := 0; t < 2; t++ {
			var l []Op
			for i := g.rng(1, 5); i > 0; i-- {
				l = append(l, Op{K: g.weighted("add:4 actual:1"), A: []string{ds[t]}})
			}
			p.Tasks = append(p.Tasks, l)
		}
	case "pkg":
		var l []Op
		for i := g.rng(1, 5); i > 0; i-- {
			for j := g.n(5); j > 0; j-- {
				l = append(l, files())
			}
			l = append(l, Op{K: "conf", A: []string{ds[g.n(2)]}})
			for j := g.rng(1, 6); j > 0; j-- {
				l = append(l, Op{K: "pget", A: []string{ds[g.n(2)]}, N: g.n(len(ids)), D: g.p(60)})
			}
		}
		p.Tasks = append(p.Tasks, l)
	}
}

func findPkgLangs(p *Plan) []struct{ code, lang string } {
	k := p.P["langs"]
	out := []struct{ code, lang string }{}
	for i := 0; i <= k%3; i++ {
		l := findLangs[(k/3+i*i*4+i)%len(findLangs)]
		if strings.Contains(l.code, ":") {
			l = findLangs[1]
		}
		out = append(out, l)
	}
	return out
}

// findVer is the version in the answer for "where": 0 for none.
func findVer(s string) int {
	v := 0
	if s == "where" {
		return 0
	}
	if _, err := fmt.Sscanf(s, "v%d", &v); err != nil || fmt.Sprintf("v%d", v) != s {
		return -1
	}
	return v
}

// place is the time during which a version was at a path: sure from Sin to Sout, perhaps from In to Out.
type place struct {
	path               string
	ver                int
	in, sin, sout, out int64
}

func runFind(e *Env, how string) {
	p := e.P
	spelt, dir := findBase(p.P["fs"], p.P["base"])
	fl := findLangs[p.P["lang"]]
	var places []*place
	now := map[string]*place{}
	state := files{}
	vers := map[string]int{}
	const never = int64(1) << 60
	end := func(f string, t0, t1 int64) {
		if x := now[f]; x != nil {
			x.sout, x.out = t0, t1
			delete(now, f)
		}
	}
	begin := func(f string, v int, t0, t1 int64) {
		x := &place{f, v, t0, t1, never, never}
		places = append(places, x)
		now[f] = x
	}
	var base int64
	seqNow := func() int64 { return base + rt.Seq() }
	// file operations are done by one task only
	file := func(op Op) {
		rt.Y(-1)
		t0 := seqNow()
		f := op.A[0]
		switch op.K {
		case "put":
			rt.TheDisk.Install(f, findData(f, op.J))
			t1 := seqNow()
			if x := now[f]; x != nil { // replaced at an instant: one of them is always there
				x.sout, x.out = t1, t1
				delete(now, f)
			}
			begin(f, op.J, t0, t0)
			state[f], vers[f] = op.J, op.J
		case "rm":
			if _, ok := state[f]; !ok {
				return
			}
			rt.TheDisk.Remove(f)
			end(f, t0, seqNow())
			delete(state, f)
		case "mv":
			v, ok := state[f]
			if !ok {
				return
			}
			rt.TheDisk.RenameOp(f, op.A[1])
			t1 := seqNow()
			end(f, t0, t1)
			if x := now[op.A[1]]; x != nil {
				x.sout, x.out = t1, t1
				delete(now, op.A[1])
			}
			delete(state, f)
			was := state[op.A[1]]
			begin(op.A[1], v, t0, t1)
			if was != 0 {
				places[len(places)-1].sin = t0
			}
			state[op.A[1]] = v
		}
	}
	var l *gotext.Locale
	note := func(f string, a ...interface{}) { e.log = append(e.log, fmt.Sprintf(f, a...)) }
	open := func() {
		switch m := p.P["fs"]; {
		case m == 0:
			l = gotext.NewLocale(spelt, fl.code)
		case spelt == "":
			l = gotext.NewLocaleFS(fl.code, findFS(m))
		default:
			l = gotext.NewLocaleFSWithPath(fl.code, findFS(m), spelt)
		}
	}
	if !e.seq("prepare", func() {
		for _, op := range p.Init {
			file(op)
		}
		if how != "pkg" {
			open()
		}
	}) {
		return
	}
	base = 1 << 20
	if len(p.Tasks) == 0 {
		return
	}
	rt.TheDisk.F = p.Faults
	defer func() { rt.TheDisk.F = rt.Faults{} }()
	fail := func(f string, a ...interface{}) { e.R.fail("find", f, a...) }
	switch how {
	case "seq":
		have := map[string]int{}
		e.seq("client", func() {
			for _, op := range p.Tasks[0] {
				if e.R.Viol != "" {
					return
				}
				note("%s", op)
				switch op.K {
				case "add":
					l.AddDomain(op.A[0])
					if f := state.resolve(dir, fl.lang, op.A[0], "po", "mo"); f != "" {
						have[op.A[0]] = state[f]
					}
				case "actual":
					if got, want := l.GetActualLanguage(op.A[0]), state.actual(dir, fl.lang, op.A[0]); got != want {
						fail("GetActualLanguage(%q) = %q, not %q; the files are %v", op.A[0], got, want, sortedKeys(state))
					}
				case "copy":
					b, err := l.MarshalBinary()
					if err != nil {
						fail("export: %v", err)
						return
					}
					if op.D { // an object for another place takes over this one's
						if p.P["fs"] == 0 {
							l = gotext.NewLocale("/elsewhere", "xx_YY")
						} else {
							l = gotext.NewLocaleFSWithPath("xx_YY", findFS(p.P["fs"]), "elsewhere")
						}
					} else {
						open()
					}
					if err := l.UnmarshalBinary(b); err != nil {
						fail("import: %v", err)
						return
					}
				case "get":
					got, want := l.GetD(op.A[0], "where"), "where"
					if v := have[op.A[0]]; v != 0 {
						want = fmt.Sprintf("v%d", v)
					}
					if got != want {
						fail("after loading, %q is %q instead of %q; the files are %v (%v)", op.A[0], got, want, sortedKeys(state), state)
					}
				default:
					file(op)
				}
			}
		})
	case "pkg":
		var conf string
		e.seq("client", func() {
			var codes []string
			pl := findPkgLangs(p)
			for _, x := range pl {
				codes = append(codes, x.code)
			}
			for _, op := range p.Tasks[0] {
				if e.R.Viol != "" {
					return
				}
				note("%s", op)
				switch op.K {
				case "conf":
					conf = op.A[0]
					if p.P["fs"] == 0 {
						gotext.Configure(spelt, strings.Join(codes, ":"), conf)
						continue
					}
					var ls []*gotext.Locale
					for _, c := range codes {
						x := gotext.NewLocaleFSWithPath(c, findFS(p.P["fs"]), spelt)
						x.SetDomain(conf)
						ls = append(ls, x)
					}
					gotext.SetLocales(ls)
				case "pget":
					if conf == "" {
						continue
					}
					dom := conf
					if op.D {
						dom = op.A[0]
					}
					id := ids[op.N%len(ids)]
					got := ""
					if op.D {
						got = gotext.GetD(dom, id)
					} else {
						got = gotext.Get(id)
					}
					want := id
					for _, x := range pl {
						if f := state.resolve(dir, x.lang, dom, "po", "mo"); f != "" && findHas(state[f], op.N%len(ids)) {
							want = fmt.Sprintf("v%d.%d", state[f], op.N%len(ids))
							break
						}
					}
					if got != want {
						fail("%q in %q is %q instead of %q for %v; the files are %v", id, dom, got, want, codes, state)
					}
				default:
					conf = ""
					file(op)
				}
			}
		})
	case "conc":
		type load struct {
			op       Op
			inv, ret int64
			ans      string
		}
		loads := make([][]load, len(p.Tasks))
		names, fns := make([]string, len(p.Tasks)), make([]func(), len(p.Tasks))
		for t, ops := range p.Tasks {
			names[t] = fmt.Sprintf("client%d", t)
			fns[t] = func() {
				for _, op := range ops {
					if t == 0 {
						file(op)
						continue
					}
					x := load{op: op, inv: seqNow()}
					if op.K == "add" {
						l.AddDomain(op.A[0])
						x.ret = seqNow()
						x.ans = l.GetD(op.A[0], "where")
					} else {
						x.ans = l.GetActualLanguage(op.A[0])
						x.ret = seqNow()
					}
					loads[t] = append(loads[t], x)
				}
			}
		}
		if !e.stageRun(names, fns) {
			return
		}
		for t := 1; t < len(loads); t++ {
			prev := 0
			for _, x := range loads[t] {
				note("client%d %s [%d,%d] -> %q", t, x.op, x.inv, x.ret, x.ans)
				order := []string{"po", "mo"}
				if x.op.K == "actual" {
					order = []string{"mo", "po"}
				}
				var cs []string
				for _, ext := range order {
					cs = append(cs, candidates(dir, fl.lang, x.op.A[0], ext)...)
				}
				sure := len(cs) // the first that is there all the time
				var lost bool
				for i, c := range cs {
					t0 := x.inv
					for _, pl := range places { // in order of time
						if pl.path == c && pl.sin <= t0 && pl.sout >= t0 {
							t0 = pl.sout
						}
					}
					if t0 >= x.ret {
						sure = i
						break
					}
				}
				ok := false
				why := ""
				for i, c := range cs {
					if i > sure {
						break
					}
					for _, pl := range places {
						if pl.path != c || pl.in > x.ret || pl.out < x.inv {
							continue
						}
						if x.op.K == "actual" {
							r := strings.TrimPrefix(strings.TrimPrefix(c, dir), "/")
							r, _, _ = strings.Cut(r, "/")
							ok = ok || r == x.ans
							why += fmt.Sprintf(" %q", r)
							continue
						}
						ok = ok || x.ans == fmt.Sprintf("v%d", pl.ver)
						why += fmt.Sprintf(" v%d", pl.ver)
						if i < sure && pl.out <= x.ret { // may have been seen, and gone when it was opened
							lost = true
						}
					}
				}
				if x.op.K == "actual" {
					ok = ok || sure == len(cs) && x.ans == ""
				} else {
					v := findVer(x.ans)
					if v == prev && (sure == len(cs) || lost) {
						ok = true
					}
					prev = v
				}
				if !ok {
					for _, pl := range places {
						note("%+v", *pl)
					}
					fail("%s in [%d,%d] answered %q; possible:%s", x.op, x.inv, x.ret, x.ans, why)
					return
				}
			}
		}
	}
}

func init() {
	for _, how := range []string{"seq", "conc", "pkg"} {
		register(&Scenario{Name: "find-" + how,
			Gen: func(g *Rng, p *Plan) { genFind(g, p, how) },
			Run: func(e *Env) { runFind(e, how) }})
	}
}

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime/metrics"
	"strings"

	"github.com/leonelquinteros/gotext"
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// Files that a crash, a full disk or a bad medium left torn or damaged.

func harm(b, stale []byte, l []Dmg) []byte {
	b = append([]byte(nil), b...)
	for _, d := range l {
		at := d.At
		if len(b) == 0 {
			return b
		}
		if d.K == "cut" {
			if at < 0 {
				at = len(b) + at
			}
			if at >= 0 && at < len(b) {
				b = b[:at]
			}
			continue
		}
		at %= len(b)
		end := at + d.N
		if end > len(b) {
			end = len(b)
		}
		switch d.K {
		case "flip":
			b[at] ^= 1 << (d.V & 7)
		case "byte":
			b[at] = byte(d.V)
		case "zero":
			for i := at; i < end; i++ {
				b[i] = 0
			}
		case "stale":
			for i := at; i < end; i++ {
				if i < len(stale) {
					b[i] = stale[i]
				} else {
					b[i] = 0
				}
			}
		case "swap": // two sectors exchanged
			for i := at; i < end; i++ {
				if j := i + d.N; j < len(b) {
					b[i], b[j] = b[j], b[i]
				}
			}
		case "u32":
			at &^= 3
			if at+4 <= len(b) {
				binary.LittleEndian.PutUint32(b[at:], d.V)
			}
		case "u32be":
			at &^= 3
			if at+4 <= len(b) {
				binary.BigEndian.PutUint32(b[at:], d.V)
			}
		}
	}
	return b
}

// genDmg draws damage to n bytes. table: the first bytes matter most.
func genDmg(g *Rng, n int, kinds string, be bool) []Dmg {
	if n == 0 {
		return nil
	}
	k := g.weighted(kinds)
	switch k {
	case "cut":
		if g.p(10) {
			return []Dmg{{K: "cut", At: g.n(33)}}
		}
		return []Dmg{{K: "cut", At: g.n(n)}}
	case "u32":
		if be {
			k = "u32be"
		}
		var l []Dmg
		for i := g.rng(1, 2); i > 0; i-- {
			at := 4 * g.n(7)
			if g.p(50) {
				at = 4 * g.n(n/4+1)
			}
			v := []uint32{0, 1, 2, uint32(n - 1), uint32(n), uint32(n + 1), uint32(n / 8), uint32(n / 16), 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x20000000, 0x1fffffff, 28, uint32(g.n(n)), uint32(g.u())}
			l = append(l, Dmg{K: k, At: at, V: v[g.n(len(v))]})
		}
		return l
	case "noise":
		var l []Dmg
		for i := g.rng(2, 12); i > 0; i-- {
			l = append(l, Dmg{K: "byte", At: g.n(n), V: uint32(g.n(256))})
		}
		return l
	case "zero", "stale", "swap":
		var l []Dmg
		bl := 1 << uint(g.rng(2, 7))
		for i := g.rng(1, 3); i > 0; i-- {
			l = append(l, Dmg{K: k, At: g.n(n/bl+1) * bl, N: bl})
		}
		return l
	case "mix":
		var l []Dmg
		for i := g.rng(2, 4); i > 0; i-- {
			l = append(l, genDmg(g, n, "flip:2 zero:1 stale:1 u32:1 cut:1", be)...)
		}
		return l
	}
	var l []Dmg
	for i := g.rng(1, 3); i > 0; i-- {
		l = append(l, Dmg{K: k, At: g.n(n), V: uint32(g.n(8))})
	}
	return l
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// torWrite replaces a file the way a tool does that is killed half way: in
// pieces, with or without truncating first, and without fsync, so that any
// block of what was written may still be missing after the crash.
func tornWrite(e *Env, name string, old, data []byte) {
	p := e.P
	rt.TheDisk.CrashAt = 0
	if p.P["crash"] > 0 {
		rt.TheDisk.CrashAt = rt.TheDisk.Ops + p.P["crash"]
	}
	e.seq("writer", func() {
		flag := 1 | 0o100 // write-only, create
		if p.P["trunc"] == 1 {
			flag |= 0o1000
		}
		h, err := rt.TheDisk.OpenFile(name, flag)
		if err != nil {
			return
		}
		for at := 0; at < len(data); at += p.P["chunk"] {
			end := at + p.P["chunk"]
			if end > len(data) {
				end = len(data)
			}
			if _, err := h.Write(data[at:end]); err != nil {
				return
			}
		}
		if p.P["trunc"] == 0 {
			h.Truncate(len(data))
		}
		h.Close()
	})
	rt.TheDisk.CrashAt = 0
	crashed := rt.TheDisk.Crashed
	rt.TheDisk.Crashed = false
	ino := rt.TheDisk.Lookup(name)
	if ino == nil || !crashed {
		return
	}
	e.seq("power loss", func() {
		bl := p.P["block"]
		for at := 0; at < len(ino.Data); at += bl {
			v := rt.Choose(100)
			if v == 0 || v > p.P["lossy"] {
				continue
			}
			rt.Count("lost-block")
			for i := at; i < at+bl && i < len(ino.Data); i++ {
				if v&1 == 0 && i < len(old) {
					ino.Data[i] = old[i]
				} else {
					ino.Data[i] = 0
				}
			}
		}
	})
}

func genTorn(g *Rng, p *Plan, po bool) {
	p.P["nids"] = len(ids)
	p.P["nctx"] = 2
	p.P["pre"] = b2i(g.p(55))
	p.P["via"] = g.n(3)
	p.P["fsmode"] = g.n(4)
	kind := "po"
	if !po {
		kind = g.s1("mo", "mobe")
	}
	r := g.n(len(rules)+1) - 1
	refs := g.p(40)
	n := 6
	if g.p(15) {
		n = 14
	}
	for i := 0; i < 2; i++ {
		if i > 0 && g.p(30) {
			r = g.n(len(rules)+1) - 1
		}
		d := genDoc(g, fmt.Sprintf("v%d", i), kind, r, n, refs)
		if po && g.p(25) {
			d.Wrap = g.rng(1, 2)
		}
		if po && g.p(15) {
			d.CRLF = true
		}
		if po && g.p(30) {
			d.Noise = g.rng(1, 9)
		}
		if g.p(10) && len(d.Ents) > 0 {
			// a long message, longer than the blocks
			d.Ents[0].Trs[0] += strings.Repeat(" lorem ipsum", g.rng(5, 30))
		}
		p.Docs = append(p.Docs, d)
	}
	if g.p(40) {
		p.P["write"] = 1
		p.P["chunk"] = 1 << uint(g.rng(3, 8))
		p.P["trunc"] = g.n(2)
		p.P["block"] = 1 << uint(g.rng(3, 7))
		p.P["lossy"] = []int{0, 0, 10, 30}[g.n(4)]
		p.P["crash"] = 1 + g.n(2+len(p.Docs[1].Bytes())/p.P["chunk"]+3)
	} else {
		n := len(p.Docs[1].Bytes())
		if po {
			p.Dmg = genDmg(g, n, "cut:40 flip:15 zero:12 stale:10 swap:4 noise:8 mix:6", false)
		} else {
			p.Dmg = genDmg(g, n, "cut:35 u32:25 flip:15 zero:8 stale:8 swap:4 noise:5 mix:6", kind == "mobe")
		}
	}
	for t := g.n(3); t > 0; t-- {
		var ops []Op
		for i := g.rng(1, 5); i > 0; i-- {
			op := Op{K: g.weighted("get:4 getn:4 getc:2 getnc:2 app:1 appn:1 ist:1 istnc:1"), A: []string{ids[g.n(len(ids))], ctxs[g.n(2)]}, N: nvals[g.n(len(nvals))], D: g.p(25)}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// refMO reads what the tables of an MO file say, row by row; rows that do not
// lie within the file are left out.
func refMO(b []byte) map[mkey][]*ment {
	out := map[mkey][]*ment{}
	if len(b) < 28 {
		return out
	}
	var bo binary.ByteOrder = binary.LittleEndian
	switch binary.LittleEndian.Uint32(b) {
	case 0x950412de:
	case 0xde120495:
		bo = binary.BigEndian
	default:
		return out
	}
	u := func(at uint64) (uint64, bool) {
		if at+4 > uint64(len(b)) {
			return 0, false
		}
		return uint64(bo.Uint32(b[at:])), true
	}
	str := func(row uint64) (string, bool) {
		l, ok := u(row)
		o, ok2 := u(row + 4)
		if !ok || !ok2 || o+l > uint64(len(b)) {
			return "", false
		}
		return string(b[o : o+l]), true
	}
	n, _ := u(8)
	io, _ := u(12)
	so, _ := u(16)
	for i := uint64(0); i < n; i++ {
		if io+8*i > uint64(len(b)) || so+8*i > uint64(len(b)) {
			break
		}
		id, ok := str(io + 8*i)
		s, ok2 := str(so + 8*i)
		if !ok || !ok2 {
			continue
		}
		add := func(ctx, id string) {
			id, pid, _ := strings.Cut(id, "\x00")
			e := &ment{id: id, pid: pid, trs: map[int]string{}}
			for j, t := range strings.Split(s, "\x00") {
				e.trs[j] = t
			}
			out[mkey{ctx, id}] = append(out[mkey{ctx, id}], e)
		}
		f := strings.Split(id, "\x04")
		if len(f) == 1 {
			add("", id)
			continue
		}
		add(f[0], f[1])
		if len(f) > 2 {
			add(f[0], strings.Join(f[1:], "\x04"))
		}
	}
	return out
}

// contents exports an object and reads the export into model form.
func (o *object) contents() (l map[mkey]*ment, pf string) {
	s := &snapshot{plain: o.dom.GetTranslations(), ctx: o.dom.GetCtxTranslations()}
	l = map[mkey]*ment{}
	norm := func(c string, t map[string]*gotext.Translation) {
		for id, t := range t {
			if id == "" {
				continue
			}
			e := fromTranslation(t).clone()
			if len(e.refs) == 0 {
				e.refs = nil
			}
			l[mkey{c, id}] = e
		}
	}
	norm("", s.plain)
	for c, t := range s.ctx {
		norm(c, t)
	}
	return l, o.dom.PluralForms
}

func sameEnt(a, b *ment) bool { return a != nil && b != nil && a.String() == b.String() }

// untouched tells which messages of d have to survive in got, what is left of
// the file orig. The second result: is the header untouched?
func untouched(d *Doc, orig, got []byte) (map[mkey]*Ent, bool) {
	out := map[mkey]*Ent{}
	_, spans := d.poSpans()
	if bytes.HasPrefix(orig, got) {
		end := func(at int) bool { // everything but the end of the last line is there
			return len(bytes.TrimRight(orig[:at], "\r\n")) <= len(got)
		}
		hdr := len(orig)
		for i := range d.Ents {
			if i == 0 {
				hdr = spans[0][0]
			}
			if end(spans[i][1]) {
				out[mkey{d.Ents[i].Ctx, d.Ents[i].ID}] = &d.Ents[i]
			}
		}
		return out, end(hdr)
	}
	starts := []int{0}
	for _, s := range spans {
		starts = append(starts, s[0])
	}
	starts = append(starts, len(orig))
	if len(got) > len(orig) {
		starts[len(starts)-1] = len(got)
	}
	n := len(starts) - 1
	bad := make([]bool, n+1)
	region := func(at int) int {
		for i := n - 1; i >= 0; i-- {
			if at >= starts[i] {
				return i
			}
		}
		return 0
	}
	for i := 0; i < len(orig) || i < len(got); i++ {
		if i >= len(orig) || i >= len(got) || orig[i] != got[i] {
			bad[region(i)] = true
		}
	}
	text := ""
	carries := make([]bool, n+1) // the damage reaches into the following entry
	for i := 0; i < n; i++ {
		if !bad[i] || starts[i] >= len(got) {
			continue
		}
		first := i
		for i+1 < n && bad[i+1] {
			i++
		}
		end := starts[i+1]
		if end > len(got) {
			end = len(got)
		}
		part := string(got[starts[first]:end])
		text += strings.NewReplacer("\"\n\"", "", "\"\r\n\"", "").Replace(part) + "\n"
		lone := false
		for _, l := range strings.Split(part, "\n") {
			switch l = strings.TrimSpace(l); {
			case strings.HasPrefix(l, "msgctxt"):
				lone = true
			case strings.HasPrefix(l, "msgid") || strings.HasPrefix(l, "msgstr"):
				lone = false
			}
		}
		carries[i+1] = lone || !strings.HasSuffix(part, "\n")
	}
	for i := range d.Ents {
		r := i + 1
		if bad[r] || bad[r-1] || bad[r+1] {
			continue
		}
		shadowed := false
		for j := 1; j < n; j++ {
			if carries[j] && d.Ents[j-1].ID == d.Ents[i].ID {
				shadowed = true
			}
		}
		if shadowed {
			continue
		}
		id := quote(d.Ents[i].ID)
		if strings.Contains(text, id[1:len(id)-1]) {
			continue
		}
		out[mkey{d.Ents[i].Ctx, d.Ents[i].ID}] = &d.Ents[i]
	}
	return out, !bad[0] && !(n > 1 && bad[1])
}

func (e *Ent) ment(d *Doc) *ment {
	x := &ment{id: e.ID, pid: e.PID, trs: map[int]string{}, refs: e.Refs}
	if d.Kind == "mo" || d.Kind == "mobe" {
		x.refs = nil
	}
	for i, t := range e.Trs {
		x.trs[i] = t
	}
	return x
}

func runTorn(e *Env, po bool) {
	p := e.P
	ds := prepDocs(p)
	const name = "cat.x"
	var o *object
	old, orig := ds.raw[0], ds.raw[1]
	ok := e.seq("prepare", func() {
		kind := "mo"
		if po {
			kind = "po"
		}
		o = newObjectFS(kind, p.P["fsmode"])
		if p.P["pre"] == 1 {
			o.do(Op{K: "parse", J: 0}, ds)
		}
	})
	if !ok {
		return
	}
	model := newMcat()
	if p.P["pre"] == 1 {
		model = model.parse(&ds.docs[0], false)
	}
	var got []byte
	if p.P["write"] == 1 {
		if p.P["trunc"] == 0 || p.P["pre"] == 1 {
			rt.TheDisk.Install(name, old)
		}
		tornWrite(e, name, old, orig)
		if ino := rt.TheDisk.Lookup(name); ino != nil {
			got = append([]byte(nil), ino.Data...)
		}
	} else {
		got = harm(orig, old, p.Dmg)
		for _, d := range p.Dmg {
			e.R.Counts["damage-"+d.K]++
		}
		rt.TheDisk.Install(name, got)
	}
	e.log = append(e.log, fmt.Sprintf("intact: %q", orig), fmt.Sprintf("damaged: %q", got))
	// the load, with lookups going on
	load := func() {
		if p.P["via"] == 0 {
			o.do(Op{K: "pfile", A: []string{name}}, ds)
			return
		}
		if po {
			o.po.Parse(append([]byte(nil), got...))
		} else {
			o.mo.Parse(append([]byte(nil), got...))
		}
	}
	names := []string{"load"}
	before := allocated()
	var pan string
	fns := []func(){func() { pan, _ = guard(load) }}
	all := make([][]*Rec, len(p.Tasks))
	for t := range p.Tasks {
		t := t
		names = append(names, fmt.Sprintf("client%d", t))
		fns = append(fns, func() {
			for i, op := range p.Tasks[t] {
				r := &Rec{Task: t, Idx: i, Op: op}
				r.Panic, _ = guard(func() { r.Res, _ = o.do(op, ds) })
				all[t] = append(all[t], r)
			}
		})
	}
	if !e.stageRun(names, fns) {
		return
	}
	if pan != "" {
		e.R.fail("panic", "panic while loading the damaged file: %s", pan)
		return
	}
	if a := allocated() - before; a > 32<<20 {
		e.R.fail("memory", "loading a damaged file of %d bytes allocated %d bytes", len(got), a)
		return
	}
	// what may be served now
	allowed := map[mkey][]*ment{}
	cutOnly := bytes.HasPrefix(orig, got)
	hdrOK := false
	var must map[mkey]*Ent
	if po {
		must, hdrOK = untouched(&ds.docs[1], orig, got)
	} else {
		allowed = refMO(got)
		if cutOnly {
			// only messages exactly as in the complete file
			allowed = map[mkey][]*ment{}
			for i := range ds.docs[1].Ents {
				en := &ds.docs[1].Ents[i]
				allowed[mkey{en.Ctx, en.ID}] = []*ment{en.ment(&ds.docs[1])}
			}
		}
	}
	// what was there before, under the rule from before or that of the file; a
	// damaged header may say anything
	cats := []*mcat{model}
	former := map[mkey][]*ment{}
	for k, en := range model.ents {
		former[k] = []*ment{en}
	}
	anyForm := true
	for _, rule := range []int{model.rule, ds.docs[1].Rule} {
		pf := ""
		if rule >= 0 {
			pf = pluralHeader(rule)
			m := model.clone()
			m.rule = rule
			cats = append(cats, m)
		}
		anyForm = anyForm && o.dom.PluralForms != pf
	}
	for _, l := range all {
		for _, r := range l {
			e.log = append(e.log, r.String())
			if r.Panic != "" {
				e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
				return
			}
			if !po && isLookup(r.Op.K) {
				if !plausible(cats, r.Op, r.Res) && !allowedAnswer(allowed, r.Op, r.Res) && !(anyForm && allowedAnswer(former, r.Op, r.Res)) {
					e.R.fail("answer", "while the damaged file was loaded %s answered %q, which is neither in the file nor what was there before", r.Op, r.Res)
					return
				}
			}
		}
	}
	e.seq("look", func() {
		l, pf := o.contents()
		for k, en := range l {
			if was := model.ents[k]; sameEnt(en, was) {
				continue
			}
			if po {
				continue
			}
			good := false
			for _, a := range allowed[k] {
				good = good || sameEnt(en, a)
			}
			if !good {
				e.R.fail("garbage", "after loading the damaged file the catalogue holds %q %s, which is not what the file says", k, en)
				return
			}
		}
		for k := range model.ents {
			if l[k] == nil {
				e.R.fail("lost", "loading the damaged file removed %q from the catalogue", k)
				return
			}
		}
		for _, k := range sortedMkeys(must) {
			if want := must[k].ment(&ds.docs[1]); !sameEnt(l[k], want) {
				e.R.fail("intact", "entry %q is intact in the damaged file, but instead of %s the catalogue holds %v", k, want, l[k])
				return
			}
		}
		// whatever was loaded, lookups have to agree with it
		wantRule := -1
		switch {
		case po && hdrOK && ds.docs[1].Rule >= 0:
			wantRule = ds.docs[1].Rule
		case po && hdrOK:
			wantRule = model.rule
		case pf != "" && ds.docs[1].Rule >= 0 && pf == pluralHeader(ds.docs[1].Rule):
			wantRule = ds.docs[1].Rule
		case model.rule >= 0 && pf == pluralHeader(model.rule):
			wantRule = model.rule
		}
		known := wantRule >= 0 && pf == pluralHeader(wantRule) || model.rule < 0 && pf == ""
		if po && hdrOK && wantRule >= 0 && pf != pluralHeader(wantRule) {
			e.R.fail("rule", "the header is intact in the damaged file, but the plural rule is %q instead of %q", pf, pluralHeader(wantRule))
			return
		}
		m := newMcat()
		m.ents = l
		m.rule = wantRule
		var keys []mkey
		for _, id := range ids {
			keys = append(keys, mkey{"", id}, mkey{ctxs[0], id}, mkey{ctxs[1], id})
		}
		for _, k := range keys {
			ks := []string{"get", "app", "getn", "istn"}
			if k.ctx != "" {
				ks = []string{"getc", "appc", "getnc", "istnc"}
			}
			for _, kind := range ks {
				if !known && (strings.Contains(kind, "n")) {
					continue
				}
				op := Op{K: kind, A: []string{k.id, k.ctx}, N: nvals[len(k.id)%len(nvals)]}
				var res string
				if pan, _ := guard(func() { res, _ = o.do(op, ds) }); pan != "" {
					e.R.fail("panic", "after loading the damaged file %s panicked: %s", op, pan)
					return
				}
				good := false
				if isIst(kind) {
					good = res == fmt.Sprint(istOf(m, op))
				} else {
					good = matches(op, answers(m, op), res)
				}
				if !good {
					e.R.fail("answer", "after loading the damaged file %s answered %q, which is not what the catalogue holds: %v", op, res, l[k])
					return
				}
			}
		}
		// every other call works, too
		for _, k := range []string{"mbin", "mtext", "getrefs", "set", "setn", "setnc", "get"} {
			if pan, _ := guard(func() { o.do(Op{K: k, A: []string{"fresh", "ctx", "x"}, D: true, N: 2}, ds) }); pan != "" {
				e.R.fail("panic", "after loading the damaged file %s panicked: %s", k, pan)
				return
			}
		}
		// and so does loading the intact file
		rt.TheDisk.Install(name, orig)
		o.do(Op{K: "pfile", A: []string{name}}, ds)
		l, _ = o.contents()
		for i := range ds.docs[1].Ents {
			en := &ds.docs[1].Ents[i]
			k := mkey{en.Ctx, en.ID}
			if !sameEnt(l[k], en.ment(&ds.docs[1])) {
				e.R.fail("recovery", "loading the intact file after the damaged one gives %q %v", k, l[k])
				return
			}
		}
		if ds.docs[1].Rule < 0 {
			return
		}
		m = newMcat()
		m.ents = l
		m.rule = ds.docs[1].Rule
		for i := range ds.docs[1].Ents {
			en := &ds.docs[1].Ents[i]
			if en.PID == "" {
				continue
			}
			for _, num := range []int{nvals[i%len(nvals)], nvals[(i+3)%len(nvals)]} {
				op := Op{K: "getn", A: []string{en.ID, en.Ctx}, N: num}
				if en.Ctx != "" {
					op.K = "getnc"
				}
				if res, _ := o.do(op, ds); !matches(op, answers(m, op), res) {
					e.R.fail("recovery", "after loading the intact file %s answered %q, which is not what its plural rule says", op, res)
					return
				}
			}
		}
	})
}

func allowedAnswer(allowed map[mkey][]*ment, op Op, res string) bool {
	if isIst(op.K) {
		return true
	}
	k := mkey{"", op.A[0]}
	if strings.HasSuffix(op.K, "c") {
		k.ctx = op.A[1]
	}
	for _, e := range allowed[k] {
		for _, t := range e.trs {
			if t == res {
				return true
			}
		}
		if res == e.pid && res != "" {
			return true
		}
	}
	return false
}

func sortedMkeys(m map[mkey]*Ent) []mkey {
	x := &mcat{ents: map[mkey]*ment{}}
	for k := range m {
		x.ents[k] = nil
	}
	return x.sorted()
}

func init() {
	register(&Scenario{Name: "torn-mo", Gen: func(g *Rng, p *Plan) { genTorn(g, p, false) }, Run: func(e *Env) { runTorn(e, false) }})
	register(&Scenario{Name: "torn-po", Gen: func(g *Rng, p *Plan) { genTorn(g, p, true) }, Run: func(e *Env) { runTorn(e, true) }})
}

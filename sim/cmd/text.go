package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/leonelquinteros/gotext"
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// PO text export: determinism, completeness, fixed point.

var nasty = []string{
	"plain", "two words", " lead", "trail ", "tab\there", "line\nbreak", "ends\n", "\nstarts", "a\n\nb", "\n", "\n\n",
	"quote\"inside", "\"", "\"\"", "\"quoted\"", "back\\slash", "\\", "\\\\", "\\n", "\\\"", "a\\\nb", "\\\n", "ends\\", "\"\n\"",
	"msgid \"x\"", "msgstr \"y\"", "msgctxt \"z\"", "#: a.go:1", "# comment", "x\nmsgid \"evil\"\nmsgstr \"evil\"", "\"\nmsgid \"evil\"",
	"100%", "%s and %d", "%(name)s", "ünï©ode", "日本語", "😀", "e\u0301", "\u200b", "\u00a0", "\u0085", "\u2028", "\ufeff", "cr\rhere", "crlf\r\nend", "\r", "\x07bell", "\x00nul", "\x7f", "\x1b[0m",
	"very long " + "lorem ipsum dolor sit amet consectetur adipiscing elit ", "a\tb\nc\"d\\e", "{}[]()<>", "'", "`", ";", ":", "?", " ", "\t",
}

// str makes a text.
func (g *Rng) str() string {
	switch g.n(11) {
	case 0, 1:
		return fmt.Sprintf("m%d", g.n(50))
	case 10:
		return g.longStr()
	case 2, 3, 4, 5, 6:
		return nasty[g.n(len(nasty))]
	case 7:
		return nasty[g.n(len(nasty))] + nasty[g.n(len(nasty))]
	}
	var b strings.Builder
	for i := g.rng(1, 8); i > 0; i-- {
		switch g.n(6) {
		case 0:
			b.WriteByte("\"\\\n"[g.n(3)])
		case 1:
			b.WriteRune(rune(g.rng(0x20, 0x7e)))
		case 2:
			b.WriteRune(rune(g.rng(0xa1, 0x2fff)))
		case 3:
			b.WriteByte(" \t\"\\n"[g.n(5)])
		default:
			b.WriteByte("abcdefghi"[g.n(9)])
		}
	}
	return b.String()
}

// longStr makes a text of about a length at which something may be cut or wrapped,
// with characters that must not be torn apart.
func (g *Rng) longStr() string {
	n := []int{60, 72, 76, 78, 80, 100, 120, 128, 160, 255, 256, 512, 1000, 1024, 4096}[g.n(15)>>uint(g.n(2))] + g.rng(-4, 6)
	frags := []string{"a", "b", "c"}
	for i := g.rng(1, 4); i > 0; i-- {
		frags = append(frags, []string{" ", "\\", "\"", "ü", "日", "😀", "\t", "\n", "%d", "\\n", "e\u0301", "word ", ", "}[g.n(13)])
	}
	awkward := g.rng(1, 6)
	var b strings.Builder
	lines := 0
	for b.Len() < n {
		if g.n(6) < awkward {
			f := frags[3+g.n(len(frags)-3)]
			if f == "\n" {
				if lines++; lines > 300 { // time goes by the line
					f = "; "
				}
			}
			b.WriteString(f)
		} else {
			b.WriteString(frags[g.n(3)])
		}
	}
	return b.String()
}

// twin changes s a little: two texts that a sloppy comparison takes for one.
func (g *Rng) twin(s string) string {
	switch g.n(10) {
	case 0, 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3, 4:
		for i, c := range s {
			if d := strings.ToUpper(string(c)); d != string(c) {
				return s[:i] + d + s[i+len(string(c)):]
			} else if d := strings.ToLower(string(c)); d != string(c) {
				return s[:i] + d + s[i+len(string(c)):]
			}
		}
		return s + "0"
	case 5:
		return s + " "
	case 6:
		return " " + s
	case 7:
		return s + "s"
	case 8:
		return strings.NewReplacer("é", "e\u0301", "ü", "u\u0308", " ", "\u00a0").Replace(s)
	}
	return "0" + s
}

// twins adds near-equals of some of l.
func (g *Rng) twins(l []string) []string {
	if len(l) == 0 || !g.p(40) {
		return l
	}
	for i := g.rng(1, 4); i > 0; i-- {
		l = append(l, g.twin(l[g.n(len(l))]))
	}
	return l
}

var refPool = []string{"a.go:1", "a.go:2", "a.go:10", "b.go:1", "dir/c.go:7", "dir/c.go:70", "z.go", "C:\\w.go:3", "ü.go:5", "a.go:1:5"}

// genText: p.Strs is the vocabulary; ops refer to it by index.
func genText(g *Rng, p *Plan) {
	n := g.rng(3, 10)
	for i := 0; i < n; i++ {
		p.Strs = append(p.Strs, g.str())
	}
	p.Strs = g.twins(p.Strs)
	p.P["lang"] = g.n(3)
	kind := "po"
	r := g.n(len(rules)+1) - 1
	for i := g.rng(1, 2); i > 0; i-- {
		d := genTextDoc(g, p, kind, r)
		p.Docs = append(p.Docs, d)
	}
	var ops []Op
	if g.p(80) {
		ops = append(ops, Op{K: "parse"})
	}
	for i := g.rng(2, 14); i > 0; i-- {
		op := Op{K: g.weighted("set:4 setn:5 setc:4 setnc:5 setrefs:4 drop:1 hdr:2 parse:1 cycle:3"), N: nvals[g.n(len(nvals))], D: g.p(30), J: g.n(len(p.Docs))}
		for j := 0; j < 5; j++ {
			op.A = append(op.A, fmt.Sprint(g.n(1000)))
		}
		ops = append(ops, op)
	}
	p.Tasks = append(p.Tasks, ops)
	if g.p(40) { // a second process with objects of its own
		var more []Op
		for i := 0; i < len(ops); i++ {
			o := ops[g.n(len(ops))]
			more = append(more, o)
		}
		p.Tasks = append(p.Tasks, more)
	}
}

// head is comments above the first entry.
func (g *Rng) head() []string {
	l := []string{""}
	n := g.n(5)
	if g.p(10) {
		n = g.rng(5, 70)
	}
	for i := n; i > 0; i-- {
		l = append(l, g.s1("# A title.", "#", "#, fuzzy", "# Copyright © 2020 \"x\"", "#: not/a/ref.go:1", "  # indented", "", "#. msgid \"no\"", "#~ msgid \"gone\"", "#msgid \"x\""))
	}
	return l
}

func genTextDoc(g *Rng, p *Plan, kind string, r int) Doc {
	d := Doc{Kind: kind, Rule: r, Lang: g.s1("fr", "de", "pl")}
	if g.p(50) {
		d.Head = g.head()
	}
	if g.p(30) {
		d.Wrap = g.rng(1, 2)
	}
	if g.p(30) {
		d.Noise = g.rng(1, 9)
	}
	if g.p(50) {
		d.Hdr = append(d.Hdr, [2]string{"X-Generator", g.s1("sim 1.0", "a: b", "quo\"ted", "back\\slash", "", "ünï")})
	}
	if g.p(30) {
		d.Hdr = append(d.Hdr, [2]string{"Last-Translator", "Jane <j@x.org>"}, [2]string{"x-lower", "1"}, [2]string{"X-Lower", "2"})
	}
	refs := g.p(50)
	np := 2
	if r >= 0 {
		np = rules[r].n
	}
	seen := map[string]bool{}
	for i := g.rng(0, 7); i > 0; i-- {
		e := Ent{ID: p.Strs[g.n(len(p.Strs))]}
		if g.p(40) {
			e.Ctx = p.Strs[g.n(len(p.Strs))]
		}
		if e.ID == "" || seen[e.Ctx+"\x00"+e.ID] {
			continue
		}
		seen[e.Ctx+"\x00"+e.ID] = true
		k := 1
		if g.p(45) {
			e.PID = p.Strs[g.n(len(p.Strs))]
			k = np
		}
		for j := 0; j < k; j++ {
			t := p.Strs[g.n(len(p.Strs))]
			if g.p(15) {
				t = ""
			}
			e.Trs = append(e.Trs, t)
		}
		if refs && g.p(75) {
			n := g.rng(1, 3)
			if g.p(3) {
				n = g.rng(10, 300)
			}
			for j := n; j > 0; j-- {
				e.Refs = append(e.Refs, refPool[g.n(len(refPool))])
			}
		}
		d.Ents = append(d.Ents, e)
	}
	if g.p(20) { // names that meet when they are put together
		w := []string{"a", "b", "ab", g.s1(p.Strs...), g.s1(p.Strs...)}
		a, b, c, sep := g.s1(w...), g.s1(w...), g.s1(w...), g.s1("", "", ":", "|", "/", " ", "\n", ".")
		for _, e := range []Ent{{Ctx: a, ID: b + sep + c}, {Ctx: a + sep + b, ID: c}, {ID: a + sep + b + sep + c}, {ID: a, PID: b + sep + c}, {ID: a + sep + b, PID: c}} {
			if e.ID == "" || seen[e.Ctx+"\x00"+e.ID] || g.p(20) {
				continue
			}
			seen[e.Ctx+"\x00"+e.ID] = true
			e.Trs = []string{"1 " + e.Ctx + "." + e.ID}
			if e.PID != "" {
				for len(e.Trs) < np {
					e.Trs = append(e.Trs, fmt.Sprint(len(e.Trs)+1, " ", e.ID))
				}
			}
			if refs && g.p(30) {
				e.Refs = []string{refPool[g.n(2)]}
			}
			d.Ents = append(d.Ents, e)
		}
	}
	return d
}

// textObj is a Po or a Domain with its model.
type textObj struct {
	cobj
}

func (c *textObj) exec(op Op, p *Plan, ds *docSet) {
	s := func(i int) string {
		n := 0
		if i < len(op.A) {
			fmt.Sscan(op.A[i], &n)
		}
		if len(p.Strs) == 0 {
			return "only"
		}
		return p.Strs[n%len(p.Strs)]
	}
	id, ctx, pid, str := s(0), s(1), s(2), s(3)
	if id == "" || ctx == "" {
		return
	}
	x := c.o.set(op.D)
	switch op.K {
	case "set":
		x.Set(id, str)
		c.m = c.m.set("", id, "", 0, str, nil)
	case "setn":
		x.SetN(id, pid, op.N, str)
		c.m = c.m.set("", id, pid, c.m.form(op.N), str, nil)
	case "setc":
		x.SetC(id, ctx, str)
		c.m = c.m.set(ctx, id, "", 0, str, nil)
	case "setnc":
		x.SetNC(id, pid, ctx, op.N, str)
		c.m = c.m.set(ctx, id, pid, c.m.form(op.N), str, nil)
	case "setrefs":
		var l []string
		n := 0
		fmt.Sscan(op.A[4], &n)
		for i := 0; i <= n%3; i++ {
			l = append(l, refPool[(n+i*7)%len(refPool)])
		}
		x.SetRefs(id, append([]string(nil), l...))
		c.m = c.m.set("", id, "", 0, "", l)
	case "drop":
		x.DropStaleTranslations()
		c.m = c.m.drop()
	case "hdr":
		k, v := "X-"+strings.Trim(op.A[0], " "), strings.TrimSpace(strings.NewReplacer("\n", " ", "\r", " ").Replace(str))
		c.o.dom.Headers.Set(k, v)
		h := hdrs{}
		for a, b := range c.h {
			h[a] = b
		}
		h[k] = []string{v}
		c.h = h
	case "parse":
		if c.o.po != nil {
			c.o.po.Parse(append([]byte(nil), ds.raw[op.J%len(ds.raw)]...))
			d := &ds.docs[op.J%len(ds.raw)]
			c.m = c.m.parse(d, false)
			c.h = c.h.add(d)
			c.cm = d.loaded(c.cm)
		}
	}
}

// textual is what the text form keeps of m.
func (m *mcat) textual() *mcat {
	n := m.clone()
	for k, e := range n.ents {
		e = e.clone()
		e.dirty = false
		if e.pid == "" {
			t := e.trs[0]
			e.trs = map[int]string{0: t}
		}
		n.ents[k] = e
	}
	n.res = -1
	return n
}

func canonObject(o *object) string {
	l, _ := o.contents()
	m := &mcat{ents: l}
	return m.canon("all", false)
}

// verify exports c, reads the export back and compares.
func (c *textObj) verify() (text []byte, back *gotext.Po, bad string) {
	t1, err := c.o.set(false).MarshalText()
	if err != nil {
		return nil, nil, "MarshalText: " + err.Error()
	}
	want := c.m.textual()
	l, hdr, err := readPO(string(t1))
	if err != nil {
		return t1, nil, fmt.Sprintf("the exported text is not PO: %v\n%s", err, t1)
	}
	got := &mcat{ents: map[mkey]*ment{}}
	for k, e := range l {
		if k.id != "" {
			if len(e.refs) == 0 {
				e.refs = nil
			}
			got.ents[k] = e
		}
	}
	if a, b := got.canon("all", false), want.canon("all", false); a != b {
		return t1, nil, fmt.Sprintf("the exported text says\n%sinstead of\n%s%s", a, b, t1)
	}
	for k, v := range c.h {
		if len(v) == 1 && hdr[k] != v[0] {
			return t1, nil, fmt.Sprintf("the exported text has header %q: %q instead of %q\n%s", k, hdr[k], v[0], t1)
		}
	}
	if a := headOf(t1); fmt.Sprint(a) != fmt.Sprint(c.cm) {
		return t1, nil, fmt.Sprintf("the exported text starts with comments %q instead of %q", a, c.cm)
	}
	po := gotext.NewPo()
	po.Parse(append([]byte(nil), t1...))
	o2 := &object{kind: "po", po: po, c: po, dom: po.GetDomain()}
	if a, b := canonObject(o2), want.canon("all", false); a != b {
		return t1, po, fmt.Sprintf("parsing the exported text gives\n%sinstead of\n%s%s", a, b, t1)
	}
	if a, b := hdrs(po.Headers).String(), c.h.String(); a != b {
		return t1, po, fmt.Sprintf("parsing the exported text gives headers %s instead of %s\n%s", a, b, t1)
	}
	for _, k := range append(want.sorted(), mkey{"", "never"}) {
		for _, n := range []int{0, 1, 2, 5, 21, 111} {
			kind := "getn"
			if k.ctx != "" {
				kind = "getnc"
			}
			plural := "plural fallback"
			var a string
			if k.ctx == "" {
				a = po.GetN(k.id, plural, n)
			} else {
				a = po.GetNC(k.id, plural, n, k.ctx)
			}
			good := false
			for _, w := range want.lookup(k.ctx, k.id, plural, n, true) {
				good = good || w == a
			}
			if !good {
				return t1, po, fmt.Sprintf("after parsing the exported text %s(%q) n=%d answers %q, expected %q\n%s", kind, k, n, a, want.lookup(k.ctx, k.id, plural, n, true), t1)
			}
		}
	}
	t2, err := po.MarshalText()
	if err != nil {
		return t1, po, "MarshalText: " + err.Error()
	}
	if !bytes.Equal(t1, t2) {
		return t1, po, fmt.Sprintf("exporting the parsed text again gives a different text:\n%s\n--- instead of ---\n%s", t2, t1)
	}
	if c.o.po != nil {
		// the process loads the file that it saved
		c.o.po.Parse(append([]byte(nil), t1...))
		res := c.m.res
		c.m = want.clone()
		c.m.res = res
		if t3, err := c.o.set(true).MarshalText(); err != nil || !bytes.Equal(t1, t3) {
			return t1, po, fmt.Sprintf("loading the exported text into the catalogue that was exported changes it (error %v):\n%s\n--- instead of ---\n%s", err, t3, t1)
		}
	}
	return t1, po, ""
}

func runText(e *Env) {
	p := e.P
	ds := prepDocs(p)
	bad := make([]string, len(p.Tasks))
	var names []string
	var fns []func()
	for t := range p.Tasks {
		t := t
		names = append(names, fmt.Sprintf("process%d", t))
		fns = append(fns, func() {
			pan, _ := guard(func() {
				kind := "po"
				if p.P["lang"] == 0 {
					kind = "dom"
				}
				c := &textObj{*newCobj(kind, 3)}
				cycles := uint64(0)
				save := func() bool {
					_, po, s := c.verify()
					if s != "" {
						bad[t] = s
						return false
					}
					// the next process starts from the text
					cycles++
					rt.SetMapSeed(p.MapSeed + cycles)
					rt.Count("restart")
					if c.o.po != nil || c.o.mo == nil && cycles > 0 {
						c.o = &object{kind: "po", po: po, c: po, dom: po.GetDomain()}
						c.m = c.m.textual()
					}
					return true
				}
				for _, op := range p.Tasks[t] {
					if op.K == "cycle" {
						if !save() {
							return
						}
						continue
					}
					c.exec(op, p, ds)
				}
				save()
			})
			if pan != "" {
				bad[t] = "panic: " + pan
			}
		})
	}
	if !e.stageRun(names, fns) {
		return
	}
	for t, s := range bad {
		if strings.HasPrefix(s, "panic: ") {
			e.R.fail("panic", "process %d: %s", t, s)
		} else if s != "" {
			e.R.fail("text", "process %d: %s", t, s)
		}
	}
}

// C16: one content, many ways to get there.

func shuffle[T any](g *Rng, l []T) []T {
	l = append([]T(nil), l...)
	for i := len(l) - 1; i > 0; i-- {
		j := g.n(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

func genTextDet(g *Rng, p *Plan) {
	n := g.rng(3, 10)
	for i := 0; i < n; i++ {
		p.Strs = append(p.Strs, g.str())
	}
	p.Strs = g.twins(p.Strs)
	r := g.n(len(rules)+1) - 1
	d := genTextDoc(g, p, "po", r)
	if g.p(50) {
		// many messages that sort alike
		for i := g.rng(4, 20); i > 0; i-- {
			en := Ent{ID: fmt.Sprintf("id%d", i), Trs: []string{fmt.Sprintf("t%d", i)}}
			if g.p(50) {
				en.Ctx = g.s1("c1", "c2", "c3")
			}
			if g.p(40) {
				en.Refs = []string{refPool[g.n(2)]}
			}
			d.Ents = append(d.Ents, en)
		}
	}
	p.Docs = append(p.Docs, d)
	for i := g.rng(0, 4); i > 0; i-- {
		d.Hdr = append(d.Hdr, [2]string{fmt.Sprintf("X-H%d", i), "v"})
	}
	p.Docs[0] = d
	p.P["objs"] = g.rng(2, 4)
	p.P["adders"] = g.rng(1, 3)
	// messages added by calls: disjoint ids, all forms
	var ops []Op
	np := 2
	if r >= 0 {
		np = rules[r].n
	}
	for i := g.rng(0, 8); i > 0; i-- {
		id := fmt.Sprintf("added%d", i)
		switch g.n(4) {
		case 0:
			ops = append(ops, Op{K: "set", A: []string{id, "", "s"}})
		case 1:
			ops = append(ops, Op{K: "setc", A: []string{id, g.s1("c1", "c2", "menu"), "s"}})
		case 2:
			op := Op{K: "setrefl", A: []string{id, ""}}
			for j := g.rng(1, 5); j > 0; j-- {
				op.A = append(op.A, refPool[g.n(len(refPool))])
			}
			ops = append(ops, op)
		default:
			k := "setn"
			if g.p(50) {
				k = "setnc"
			}
			ctx := g.s1("c1", "c2", "menu")
			for f := 0; f < np; f++ {
				for n := 0; n < 200; n++ {
					form := germanic(n)
					if r >= 0 {
						form = rules[r].f(n)
					}
					if form == f {
						ops = append(ops, Op{K: k, A: []string{id, ctx, fmt.Sprintf("form %d", f)}, N: n})
						break
					}
				}
			}
		}
	}
	p.Tasks = append(p.Tasks, ops)
}

func runTextDet(e *Env) {
	p := e.P
	g := newRng(p.Seed ^ 0x7e87)
	var texts []string
	var how []string
	for i := 0; i < p.P["objs"]; i++ {
		i := i
		d := p.Docs[0]
		d.Ents = shuffle(g, d.Ents)
		d.Hdr = shuffle(g, d.Hdr)
		raw := d.Bytes()
		ops := shuffle(g, p.Tasks[0])
		rt.SetMapSeed(p.MapSeed + uint64(i)*7919)
		var o *object
		ds := &docSet{docs: []Doc{d}, raw: [][]byte{raw}}
		if !e.seq("parse", func() {
			o = newObjectFS("po", 3)
			o.do(Op{K: "parse"}, ds)
		}) {
			return
		}
		var names []string
		var fns []func()
		na := p.P["adders"]
		out := make([][]byte, 3)
		for a := 0; a < na; a++ {
			a := a
			names = append(names, fmt.Sprintf("adder%d", a))
			fns = append(fns, func() {
				for j := a; j < len(ops); j += na {
					o.do(ops[j], ds)
				}
			})
		}
		if !e.stageRun(names, fns) {
			return
		}
		// two exports at the same time, and one later
		rt.SetMapSeed(p.MapSeed + uint64(i)*104729 + 1)
		exp := func(j int) func() {
			return func() {
				b, err := o.set(j == 1).MarshalText()
				if err != nil {
					b = []byte("error: " + err.Error())
				}
				out[j] = b
			}
		}
		e.multi = true
		if !e.stageRun([]string{"export0", "export1"}, []func(){exp(0), exp(1)}) || !e.seq("export2", exp(2)) {
			return
		}
		for j := range out {
			texts = append(texts, string(out[j]))
			how = append(how, fmt.Sprintf("object %d export %d", i, j))
		}
	}
	// plural forms in order
	last := -1
	for _, l := range strings.Split(texts[0], "\n") {
		if !strings.HasPrefix(l, "msgstr[") {
			if strings.HasPrefix(l, "msgid") {
				last = -1
			}
			continue
		}
		n := 0
		fmt.Sscanf(l, "msgstr[%d]", &n)
		if n <= last {
			e.R.fail("order", "plural forms out of order:\n%s", texts[0])
		}
		last = n
	}
	for i := range texts {
		if texts[i] != texts[0] {
			e.R.fail("order", "the same contents are exported in two ways: %s\n%s\n--- %s ---\n%s", how[0], texts[0], how[i], texts[i])
			return
		}
	}
}

func init() {
	register(&Scenario{Name: "text", Gen: genText, Run: runText})
	register(&Scenario{Name: "text-det", Gen: genTextDet, Run: runTextDet})
}

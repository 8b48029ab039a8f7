package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/leonelquinteros/gotext"
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// catalogue is what Po, Mo and Domain have in common.
type catalogue interface {
	Get(str string, vars ...interface{}) string
	GetN(str, plural string, n int, vars ...interface{}) string
	GetC(str, ctx string, vars ...interface{}) string
	GetNC(str, plural string, n int, ctx string, vars ...interface{}) string
	Append(b []byte, str string, vars ...interface{}) []byte
	AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte
	AppendC(b []byte, str, ctx string, vars ...interface{}) []byte
	AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte
	IsTranslated(str string) bool
	IsTranslatedN(str string, n int) bool
	IsTranslatedC(str, ctx string) bool
	IsTranslatedNC(str string, n int, ctx string) bool
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

// object is one catalogue under test.
type object struct {
	kind string
	nest func(Op)
	c    catalogue
	po   *gotext.Po
	mo   *gotext.Mo
	dom  *gotext.Domain
}

func newObject(kind string) *object { return newObjectFS(kind, 3) }

func newObjectFS(kind string, mode int) *object {
	o := &object{kind: kind}
	fsys := rt.NewFS(rt.TheDisk, mode)
	switch kind {
	case "po":
		o.po = gotext.NewPoFS(fsys)
		o.c, o.dom = o.po, o.po.GetDomain()
	case "mo":
		o.mo = gotext.NewMoFS(fsys)
		o.c, o.dom = o.mo, o.mo.GetDomain()
	default:
		o.dom = gotext.NewDomain()
		o.c = o.dom
	}
	return o
}

// via returns the receiver of a call: the object, or the Domain inside it.
func (o *object) via(direct bool) catalogue {
	if direct {
		return o.dom
	}
	return o.c
}

// setter is what can change a catalogue: Po has it, and so has every Domain.
type setter interface {
	Set(id, str string)
	SetN(id, plural string, n int, str string)
	SetC(id, ctx, str string)
	SetNC(id, plural, ctx string, n int, str string)
	SetRefs(str string, refs []string)
	GetRefs(str string) []string
	DropStaleTranslations()
	SetPluralResolver(f func(int) int)
	MarshalText() ([]byte, error)
}

func (o *object) set(direct bool) setter {
	if o.po != nil && !direct {
		return o.po
	}
	return o.dom
}

// snapshot keeps what an export returned, to see whether it changes later.
type snapshot struct {
	plain map[string]*gotext.Translation
	ctx   map[string]map[string]*gotext.Translation
	was   string
}

func fromTranslation(t *gotext.Translation) *ment {
	e := &ment{id: t.ID, pid: t.PluralID, trs: t.Trs, refs: t.Refs}
	return e
}

// normalise drops what the properties do not speak about: the header message,
// the empty placeholders that parsing contexts leaves, and the plural id that
// reading an MO file gives to messages without plural.
func canonEnts(l map[mkey]*ment) string {
	m := &mcat{ents: map[mkey]*ment{}}
	for k, e := range l {
		if k.id == "" {
			continue
		}
		e = e.clone()
		if len(e.refs) == 0 {
			e.refs = nil
		}
		m.ents[k] = e
	}
	return m.canon("all", false)
}

func (s *snapshot) canon() string {
	l := map[mkey]*ment{}
	for id, t := range s.plain {
		l[mkey{"", id}] = fromTranslation(t)
	}
	for c, m := range s.ctx {
		for id, t := range m {
			l[mkey{c, id}] = fromTranslation(t)
		}
	}
	return canonEnts(l)
}

// vandalise changes everything the snapshot holds.
func (s *snapshot) vandalise() {
	hit := func(t *gotext.Translation) {
		for k := range t.Trs {
			t.Trs[k] = "VANDAL"
		}
		for i := range t.Refs {
			t.Refs[i] = "VANDAL"
		}
		t.ID, t.PluralID = "VANDAL", "VANDAL"
		t.Set("VANDAL")
	}
	for id, t := range s.plain {
		hit(t)
		delete(s.plain, id)
	}
	for c, m := range s.ctx {
		for id, t := range m {
			hit(t)
			delete(m, id)
		}
		delete(s.ctx, c)
	}
}

// canonGob decodes a binary export.
func canonGob(b []byte) string {
	var te gotext.TranslatorEncoding
	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&te); err != nil {
		return "undecodable binary export: " + err.Error()
	}
	s := snapshot{plain: te.Translations, ctx: te.Contexts}
	return s.canon() + "lang=" + te.Language + " pf=" + te.PluralForms
}

// canonText parses a PO export with the simulator's own reader.
func canonText(b []byte) string {
	l, hdr, err := readPO(string(b))
	if err != nil {
		return "malformed PO export: " + err.Error() + "\n" + string(b)
	}
	_ = hdr
	return canonEnts(l)
}

// unquotePO reads one PO string: C escapes, nothing else.
func unquotePO(x string) (string, error) {
	if len(x) < 2 || x[0] != '"' || x[len(x)-1] != '"' {
		return "", fmt.Errorf("bad string %s", x)
	}
	x = x[1 : len(x)-1]
	var b strings.Builder
	for i := 0; i < len(x); i++ {
		c := x[i]
		if c == '"' {
			return "", fmt.Errorf("unescaped quote in %s", x)
		}
		if c != '\\' {
			b.WriteByte(c)
			continue
		}
		i++
		if i >= len(x) {
			return "", fmt.Errorf("string ends in a backslash: %s", x)
		}
		if p := strings.IndexByte(`ntrabfv\"`, x[i]); p >= 0 {
			b.WriteByte("\n\t\r\a\b\f\v\\\""[p])
			continue
		}
		j := i
		for j < len(x) && j < i+3 && x[j] >= '0' && x[j] <= '7' {
			j++
		}
		if v, err := strconv.ParseUint(x[i:j], 8, 8); j > i && err == nil {
			b.WriteByte(byte(v))
			i = j - 1
			continue
		}
		if x[i] == 'x' && i+3 <= len(x) {
			if v, err := strconv.ParseUint(x[i+1:i+3], 16, 8); err == nil {
				b.WriteByte(byte(v))
				i += 2
				continue
			}
		}
		return "", fmt.Errorf("bad escape in %s", x)
	}
	return b.String(), nil
}

// readPO is a strict reader of the PO format.
func readPO(s string) (map[mkey]*ment, map[string]string, error) {
	out := map[mkey]*ment{}
	var cur *ment
	ctx := ""
	var hasCtx bool
	var refs []string
	var last func(string)
	flush := func() error {
		if cur == nil {
			return nil
		}
		k := mkey{ctx, cur.id}
		if _, dup := out[k]; dup {
			return fmt.Errorf("message %q twice", k)
		}
		out[k] = cur
		cur, ctx, hasCtx = nil, "", false
		return nil
	}
	uq := func(x string) (string, error) {
		return unquotePO(strings.Trim(x, " \t\r"))
	}
	state := ""
	for ln, line := range strings.Split(s, "\n") {
		line = strings.Trim(line, " \t\r")
		word, rest, _ := strings.Cut(line, " ")
		switch {
		case line == "":
		case strings.HasPrefix(line, "#:"):
			if err := flush(); err != nil {
				return nil, nil, err
			}
			refs = append(refs, strings.Fields(line[2:])...)
			state = ""
		case line[0] == '#':
		case line[0] == '"':
			if last == nil {
				return nil, nil, fmt.Errorf("line %d: stray string", ln+1)
			}
			v, err := uq(line)
			if err != nil {
				return nil, nil, err
			}
			last(v)
		case word == "msgctxt":
			if err := flush(); err != nil {
				return nil, nil, err
			}
			v, err := uq(rest)
			if err != nil {
				return nil, nil, err
			}
			ctx, hasCtx = v, true
			last = func(x string) { ctx += x }
			state = word
		case word == "msgid":
			if state != "msgctxt" {
				if err := flush(); err != nil {
					return nil, nil, err
				}
			}
			v, err := uq(rest)
			if err != nil {
				return nil, nil, err
			}
			e := &ment{id: v, trs: map[int]string{}, refs: refs}
			refs = nil
			cur = e
			last = func(x string) { e.id += x }
			state = word
		case word == "msgid_plural":
			v, err := uq(rest)
			if err != nil || cur == nil || state != "msgid" {
				return nil, nil, fmt.Errorf("line %d: bad msgid_plural %v", ln+1, err)
			}
			e := cur
			e.pid = v
			last = func(x string) { e.pid += x }
			state = word
		case strings.HasPrefix(word, "msgstr"):
			if cur == nil {
				return nil, nil, fmt.Errorf("line %d: msgstr without msgid", ln+1)
			}
			i := 0
			if word != "msgstr" {
				var err error
				i, err = strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(word, "msgstr["), "]"))
				if err != nil || cur.pid == "" {
					return nil, nil, fmt.Errorf("line %d: bad %s", ln+1, word)
				}
			}
			if _, dup := cur.trs[i]; dup {
				return nil, nil, fmt.Errorf("line %d: %s twice", ln+1, word)
			}
			v, err := uq(rest)
			if err != nil {
				return nil, nil, err
			}
			e := cur
			e.trs[i] = v
			last = func(x string) { e.trs[i] += x }
			state = "msgstr"
		default:
			return nil, nil, fmt.Errorf("line %d: unexpected %q", ln+1, line)
		}
		_ = hasCtx
	}
	if err := flush(); err != nil {
		return nil, nil, err
	}
	hdr := map[string]string{}
	if h := out[mkey{"", ""}]; h != nil {
		for _, l := range strings.Split(h.trs[0], "\n") {
			if k, v, ok := strings.Cut(l, ":"); ok {
				hdr[k] = strings.TrimSpace(v)
			}
		}
	}
	return out, hdr, nil
}

// docBytes are serialised before the run.
type docSet struct {
	docs []Doc
	raw  [][]byte
	own  bool // callers reuse what they passed in and what they got
	kept []func() string
}

// gotBack is what a caller does with the list or buffer that a call returned: change it,
// or keep it and rely on its contents.
func gotBack[T comparable](ds *docSet, op Op, l []T, with T) {
	if ds == nil || !ds.own || len(l) == 0 {
		return
	}
	if ds.spoil(); op.hash()%2 == 0 {
		overwrite(l, with)
		return
	}
	was := slices.Clone(l)
	rt.Count("result-kept")
	ds.kept = append(ds.kept, func() string {
		if !slices.Equal(l, was) {
			if b, ok := any(l).([]byte); ok {
				return fmt.Sprintf("the result of %s changed after the call had returned: it was %.2000q and is %.2000q", op, any(was), b)
			}
			if b, ok := any(l).([]string); ok {
				return fmt.Sprintf("the result of %s changed after the call had returned: it was %q and is %q", op, any(was), b)
			}
			return fmt.Sprintf("the result of %s changed after the call had returned", op)
		}
		return ""
	})
}

// checkKept compares what callers kept with what it was.
func (e *Env) checkKept(ds *docSet) {
	for _, f := range ds.kept {
		if s := f(); s != "" {
			e.R.fail("isolation", "%s", s)
			return
		}
	}
}

func (op Op) hash() (h uint32) {
	for _, c := range []byte(op.String()) {
		h = (h ^ uint32(c)) * 16777619
	}
	return h ^ h>>15
}

// lend hands out a copy of l, which the caller overwrites by calling back.
func lend[T any](ds *docSet, l []T) ([]T, func(with T)) {
	if ds == nil || !ds.own {
		return l, func(T) {}
	}
	l = append([]T(nil), l...)
	return l, func(x T) { ds.spoil(); overwrite(l, x) }
}

func (ds *docSet) spoil() {
	rt.Y(-1)
	rt.Count("buffer-reuse")
}

func overwrite[T any](l []T, x T) {
	l = l[:cap(l)]
	for i := range l {
		l[i] = x
	}
}

func prepDocs(p *Plan) *docSet {
	s := &docSet{docs: p.Docs, own: p.P["own"] == 1}
	for i := range p.Docs {
		s.raw = append(s.raw, p.Docs[i].Bytes())
	}
	return s
}

// do executes op on o and returns its result in canonical form.
func (o *object) do(op Op, ds *docSet) (res string, snap *snapshot) {
	a := func(i int) string {
		if i < len(op.A) {
			return op.A[i]
		}
		return ""
	}
	vars := op.vars(nestCat, o.nest)
	c := o.via(op.D)
	// buffers with room, with a little, with none, and none at all
	pre := []string{"pre:", "pre:", "pre:", "", ""}[op.hash()/2%5]
	room := []int{16, 300, 0, 16, -1}[op.hash()/2%5]
	cut := func(b []byte) string {
		s := string(b)
		gotBack(ds, op, b, 'Z')
		if !strings.HasPrefix(s, pre) {
			return "lost prefix: " + s
		}
		return s[len(pre):]
	}
	buf := func() []byte {
		if room < 0 {
			return nil
		}
		return append(make([]byte, 0, len(pre)+room), pre...)
	}
	switch op.K {
	case "get":
		return c.Get(a(0), vars...), nil
	case "getn":
		return c.GetN(a(0), pluralOf(a(0)), op.N, vars...), nil
	case "getc":
		return c.GetC(a(0), a(1), vars...), nil
	case "getnc":
		return c.GetNC(a(0), pluralOf(a(0)), op.N, a(1), vars...), nil
	case "app":
		return cut(c.Append(buf(), a(0), vars...)), nil
	case "appn":
		return cut(c.AppendN(buf(), a(0), pluralOf(a(0)), op.N, vars...)), nil
	case "appc":
		return cut(c.AppendC(buf(), a(0), a(1), vars...)), nil
	case "appnc":
		return cut(c.AppendNC(buf(), a(0), pluralOf(a(0)), op.N, a(1), vars...)), nil
	case "ist":
		return fmt.Sprint(c.IsTranslated(a(0))), nil
	case "istn":
		return fmt.Sprint(c.IsTranslatedN(a(0), op.N)), nil
	case "istc":
		return fmt.Sprint(c.IsTranslatedC(a(0), a(1))), nil
	case "istnc":
		return fmt.Sprint(c.IsTranslatedNC(a(0), op.N, a(1))), nil
	case "set":
		o.set(op.D).Set(a(0), a(2))
	case "setc":
		o.set(op.D).SetC(a(0), a(1), a(2))
	case "setn":
		o.set(op.D).SetN(a(0), pluralOf(a(0)), op.N, a(2))
	case "setnc":
		o.set(op.D).SetNC(a(0), pluralOf(a(0)), a(1), op.N, a(2))
	case "setrefs":
		l, back := lend(ds, []string{a(2)})
		o.set(op.D).SetRefs(a(0), l)
		back("VANDAL")
	case "setrefl":
		l, back := lend(ds, op.A[2:])
		o.set(op.D).SetRefs(a(0), l)
		back("VANDAL")
	case "getrefs":
		l := o.set(op.D).GetRefs(a(0))
		s := fmt.Sprint(l)
		gotBack(ds, op, l, "VANDAL")
		return s, nil
	case "drop":
		o.set(op.D).DropStaleTranslations()
	case "resolver":
		o.set(op.D).SetPluralResolver(resolvers[op.N%len(resolvers)])
	case "parse":
		b, back := lend(ds, ds.raw[op.J])
		if o.po != nil {
			o.po.Parse(b)
		} else if o.mo != nil {
			o.mo.Parse(b)
		}
		back('Z')
	case "pfile":
		if o.po != nil {
			o.po.ParseFile(a(0))
		} else if o.mo != nil {
			o.mo.ParseFile(a(0))
		}
	case "ubin":
		b, back := lend(ds, ds.raw[op.J])
		if err := c.UnmarshalBinary(b); err != nil {
			return "error: " + err.Error(), nil
		}
		back('Z')
	case "trs":
		s := &snapshot{plain: o.dom.GetTranslations()}
		return s.canon(), s
	case "ctrs":
		s := &snapshot{ctx: o.dom.GetCtxTranslations()}
		return s.canon(), s
	case "mtext":
		b, err := o.set(op.D).MarshalText()
		if err != nil {
			return "error: " + err.Error(), nil
		}
		s := canonText(b)
		gotBack(ds, op, b, 'Z')
		return s, nil
	case "mbin":
		b, err := c.MarshalBinary()
		if err != nil {
			return "error: " + err.Error(), nil
		}
		s := canonGob(b)
		gotBack(ds, op, b, 'Z')
		return s, nil
	default:
		panic("unknown op " + op.K)
	}
	return "", nil
}

// apply is the reference semantics of op: is res a right answer in state m, and
// what is the state afterwards?
func (m *mcat) apply(op Op, res string, ds *docSet, files map[string]int) (*mcat, bool) {
	a := func(i int) string {
		if i < len(op.A) {
			return op.A[i]
		}
		return ""
	}
	oneOf := func(l []string) bool {
		for _, s := range l {
			if op.V {
				s = fmt.Sprintf(s, op.vars(nil, nil)...)
			}
			if s == res {
				return true
			}
		}
		return false
	}
	switch op.K {
	case "get", "app":
		return m, oneOf(m.lookup("", a(0), "", 0, false))
	case "getc", "appc":
		return m, oneOf(m.lookup(a(1), a(0), "", 0, false))
	case "getn", "appn":
		return m, oneOf(m.lookup("", a(0), pluralOf(a(0)), op.N, true))
	case "getnc", "appnc":
		return m, oneOf(m.lookup(a(1), a(0), pluralOf(a(0)), op.N, true))
	case "ist":
		return m, res == fmt.Sprint(m.translated("", a(0), 1, true))
	case "istn":
		return m, res == fmt.Sprint(m.translated("", a(0), op.N, true))
	case "istc":
		return m, res == fmt.Sprint(m.translated(a(1), a(0), 1, true))
	case "istnc":
		return m, res == fmt.Sprint(m.translated(a(1), a(0), op.N, true))
	case "set":
		return m.set("", a(0), "", 0, a(2), nil), true
	case "setc":
		return m.set(a(1), a(0), "", 0, a(2), nil), true
	case "setn":
		return m.set("", a(0), pluralOf(a(0)), m.form(op.N), a(2), nil), true
	case "setnc":
		return m.set(a(1), a(0), pluralOf(a(0)), m.form(op.N), a(2), nil), true
	case "setrefs":
		return m.set("", a(0), "", 0, "", []string{a(2)}), true
	case "getrefs":
		var want []string
		if e := m.ents[mkey{"", a(0)}]; e != nil {
			want = e.refs
		}
		return m, res == fmt.Sprint(want)
	case "drop":
		return m.drop(), true
	case "resolver":
		n := m.clone()
		n.res = op.N % len(resolvers)
		return n, true
	case "parse":
		return m.parse(&ds.docs[op.J], false), true
	case "pfile":
		if j, ok := files[a(0)]; ok {
			return m.parse(&ds.docs[j], false), true
		}
		return m, true
	case "ubin":
		return m.parse(&ds.docs[op.J], true), res == ""
	case "trs":
		return m, res == m.canon("plain", false)
	case "ctrs":
		return m, res == m.canon("ctx", false)
	case "mtext":
		return m, res == m.canon("all", true)
	case "mbin":
		pf, lang := "", m.lang
		if m.rule >= 0 {
			pf = pluralHeader(m.rule)
		}
		return m, res == m.canon("all", false)+"lang="+lang+" pf="+pf
	}
	panic("unknown op " + op.K)
}

type catState struct{ o []*mcat }

func (s *catState) key() string {
	var b strings.Builder
	for _, m := range s.o {
		b.WriteString(m.key())
		b.WriteByte(1)
	}
	return b.String()
}

// genCatOp draws one call for object kind.
func genCatOp(g *Rng, p *Plan, kind, mix string, tag string) Op {
	op := Op{K: g.weighted(mix)}
	id := ids[g.n(p.P["nids"])]
	ctx := ctxs[g.n(p.P["nctx"])]
	op.D = g.p(25)
	op.A = []string{id, ctx, tag}
	op.N = nvals[g.n(len(nvals))]
	switch op.K {
	case "parse", "pfile":
		if kind == "dom" {
			op.K = "ubin"
			op.J = p.P["gob0"] + g.n(p.P["ngob"])
			break
		}
		op.J = g.n(p.P["gob0"])
		if op.K == "pfile" {
			op.A[0] = fmt.Sprintf("f%d", g.n(p.P["gob0"]+1)) // the last does not exist
		}
	case "ubin":
		op.J = p.P["gob0"] + g.n(p.P["ngob"])
	case "get", "getn", "getc", "getnc", "app", "appn", "appc", "appnc":
		op.V = p.P["fmt"] == 1 && g.p(50)
	}
	if op.K != "parse" && op.K != "ubin" {
		op.J = 0
	}
	return op
}

// swarm keeps a few kinds of mix.
func (g *Rng) swarm(mix string) string {
	l := strings.Fields(mix)
	var out []string
	for i := g.rng(1, 4); i > 0; i-- {
		out = append(out, l[g.n(len(l))])
	}
	return strings.Join(out, " ")
}

const (
	mixLookup = "get:6 getn:6 getc:4 getnc:4 app:2 appn:2 appc:2 appnc:2 ist:2 istn:2 istc:1 istnc:2 getrefs:2 "
	mixWrite  = "set:5 setn:5 setc:4 setnc:4 setrefs:2 drop:1 parse:4 pfile:2 resolver:2 ubin:2 "
	mixOwn    = "app:4 appn:4 appc:4 appnc:4 getrefs:4 mtext:1 mbin:1 "
	mixSnap   = "trs:4 ctrs:4 mtext:4 mbin:4 "
)

// textOf is a translation that a document has for the message of op.
func (g *Rng) textOf(p *Plan, op Op) string {
	ctx := ""
	if k := kindOf(op.K); op.K == "setc" || op.K == "setnc" || k == "nc" {
		ctx = op.A[1]
	}
	var l []string
	for _, d := range p.Docs {
		for _, e := range d.Ents {
			if e.ID == op.A[0] && e.Ctx == ctx {
				l = append(l, e.Trs...)
			}
		}
	}
	if len(l) == 0 {
		return ""
	}
	return l[g.n(len(l))]
}

// genCatPlan: tasks work on one or two catalogue objects.
func genCatPlan(g *Rng, p *Plan, objs, maxTasks, maxOps int, mixes []string) {
	p.P["nids"] = g.rng(1, 5)
	p.P["nctx"] = g.rng(1, 2)
	p.P["nobj"] = objs
	p.P["fmt"] = b2i(g.p(30) || p.P["lazy"] == 1)
	kinds := []string{"po", "mo", "dom"}
	k0 := g.n(100)
	kind := 0
	if k0 >= 60 {
		kind = 1
	}
	if k0 >= 80 {
		kind = 2
	}
	p.P["kind"] = kind
	r := g.n(len(rules)+1) - 1
	if g.p(15) {
		r = -1
	}
	rule := func() int { return r }
	if g.p(40) { // documents of different languages
		rule = func() int { return g.n(len(rules)+1) - 1 }
	}
	refs := g.p(40)
	nd := g.rng(1, 2)
	dk := "po"
	if kinds[kind] == "mo" {
		dk = g.s1("mo", "mobe")
	}
	for i := 0; i < nd; i++ {
		p.Docs = append(p.Docs, genCatDoc(g, p, fmt.Sprintf("v%d", i), dk, rule(), refs))
	}
	p.P["gob0"] = nd
	ng := g.rng(1, 2)
	p.P["ngob"] = ng
	for i := 0; i < ng; i++ {
		gr := rule()
		if g.p(20) {
			gr = -1
		}
		p.Docs = append(p.Docs, genCatDoc(g, p, fmt.Sprintf("b%d", i), "gob", gr, refs))
	}
	if g.p(30) { // few kinds of calls, few messages: the same ones meet often
		p.P["nids"] = g.rng(1, 2)
		few := make([]string, len(mixes))
		for i := range mixes {
			few[i] = g.swarm(mixes[i])
		}
		mixes = few
	}
	nt := g.rng(2, maxTasks)
	for t := 0; t < nt; t++ {
		n := g.rng(1, maxOps)
		mix := mixes[g.n(len(mixes))]
		var ops []Op
		for i := 0; i < n; i++ {
			op := genCatOp(g, p, kinds[kind], mix, fmt.Sprintf("w%d.%d", t, i))
			op.O = g.n(objs)
			if p.P["fmt"] == 1 && strings.HasPrefix(op.K, "set") && op.K != "setrefs" {
				op.A[2] += " %d"
			}
			ops = append(ops, op)
			if strings.HasPrefix(op.K, "set") && op.K != "setrefs" && g.p(12) {
				// the text that the message has, or had
				if t := g.textOf(p, op); t != "" {
					ops[len(ops)-1].A[2] = t
					if g.p(50) {
						ops = append(ops, Op{K: "drop", A: op.A, O: op.O})
					}
				}
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	for i := g.n(4); i > 0; i-- {
		op := genCatOp(g, p, kinds[kind], mixWrite, fmt.Sprintf("init%d", i))
		op.O = g.n(objs)
		if p.P["fmt"] == 1 && strings.HasPrefix(op.K, "set") && op.K != "setrefs" {
			op.A[2] += " %d"
		}
		p.Init = append(p.Init, op)
	}
}

// twin is d with other texts of the same length.
func (d *Doc) twin(tag string) (Doc, bool) {
	n := *d
	n.Ents = nil
	for _, e := range d.Ents {
		x := e
		x.Trs, x.Refs = nil, nil
		for _, t := range e.Trs {
			if t != "" {
				i := strings.IndexByte(t, ' ')
				if i != len(tag) {
					return n, false
				}
				t = tag + t[i:]
			}
			x.Trs = append(x.Trs, t)
		}
		for _, t := range e.Refs {
			i := strings.IndexByte(t, '/')
			if i != len(tag) {
				return n, false
			}
			x.Refs = append(x.Refs, tag+t[i:])
		}
		n.Ents = append(n.Ents, x)
	}
	return n, true
}

func genCatDoc(g *Rng, p *Plan, tag, kind string, r int, refs bool) Doc {
	if g.p(15) && len(p.Docs) > 0 {
		// same size as an earlier one
		if o := &p.Docs[g.n(len(p.Docs))]; o.Kind == kind && o.Rule == r {
			if d, ok := o.twin(tag); ok {
				return d
			}
		}
	}
	d := genDoc(g, tag, kind, r, 6, refs)
	for i := range d.Ents {
		e := &d.Ents[i]
		for j := range e.Trs {
			if p.P["fmt"] == 1 && e.Trs[j] != "" {
				e.Trs[j] += " %d"
			}
		}
	}
	return d
}

// runCat executes a plan on catalogue objects. check: compare with the model.
func runCat(e *Env, check bool) {
	p := e.P
	ds := prepDocs(p)
	kinds := []string{"po", "mo", "dom"}
	files := map[string]int{}
	for i := 0; i < p.P["gob0"]; i++ {
		name := fmt.Sprintf("f%d", i)
		rt.TheDisk.Install(name, ds.raw[i])
		files[name] = i
	}
	objs := make([]*object, p.P["nobj"])
	st := &catState{}
	for i := range objs {
		objs[i] = newObject(kinds[p.P["kind"]])
		st.o = append(st.o, newMcat())
	}
	var recs []*Rec
	exec := func(task, idx int, op Op) *Rec {
		r := &Rec{Task: task, Idx: idx, Op: op}
		r.Inv = rt.Seq()
		r.Panic, _ = guard(func() { r.Res, r.Snap = objs[op.O%len(objs)].do(op, ds) })
		r.Ret = rt.Seq()
		return r
	}
	for _, o := range objs {
		o.nest = e.nested(func(op Op, _ int) *Rec { return exec(100, 0, op) })
	}
	ok := e.seq("init", func() {
		for i, op := range p.Init {
			recs = append(recs, exec(-1, i, op))
		}
	})
	for _, r := range recs {
		e.log = append(e.log, r.String())
		if r.Panic != "" {
			e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
			return
		}
		o := r.Op.O % len(objs)
		n, good := st.o[o].apply(r.Op, r.Res, ds, files)
		if check && !good {
			e.R.fail("model", "sequential call %s answered %q, which is not what the catalogue holds (state: %s)", r.Op, r.Res, st.o[o].key())
			return
		}
		st.o[o] = n
	}
	if !ok {
		return
	}
	all := make([][]*Rec, len(p.Tasks))
	names := make([]string, len(p.Tasks))
	fns := make([]func(), len(p.Tasks))
	for t := range p.Tasks {
		t := t
		all[t] = make([]*Rec, len(p.Tasks[t]))
		names[t] = fmt.Sprintf("client%d", t)
		fns[t] = func() {
			for i, op := range p.Tasks[t] {
				r := exec(t, i, op)
				all[t][i] = r
				if r.Panic != "" {
					return
				}
				if r.Snap != nil {
					r.Snap.was = r.Res
					if op.D {
						// the caller owns what it got
						r.Snap.vandalise()
						r.Snap = nil
					}
				}
			}
		}
	}
	if p.P["hang"] > 0 {
		names, fns = e.withHang(p.Tasks, names, fns, hangCat(p))
	}
	ok = e.stageRun(names, fns)
	rt.TheDisk.Heal()
	var hist []*Rec
	for _, l := range all {
		for _, r := range l {
			if r == nil {
				break
			}
			hist = append(hist, r)
		}
	}
	sort.SliceStable(hist, func(i, j int) bool { return hist[i].Inv < hist[j].Inv })
	for _, r := range hist {
		e.log = append(e.log, r.String())
		if r.Panic != "" {
			e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
		}
	}
	if !ok || e.R.Viol != "" {
		return
	}
	if e.checkKept(ds); e.R.Viol != "" {
		return
	}
	for _, r := range hist {
		if r.Snap != nil {
			if now := r.Snap.canon(); now != r.Snap.was {
				e.R.fail("isolation", "the copy returned by %s changed after it was returned\nwas: %s\nnow: %s", r.Op, r.Snap.was, now)
				return
			}
		}
	}
	sub, ok := e.takeNested()
	if !ok || !check {
		return
	}
	hist = append(hist, sub...)
	// final reads of everything
	var fin []*Rec
	e.seq("final", func() {
		i := 0
		for o := range objs {
			for _, k := range []string{"trs", "ctrs", "mbin", "mtext"} {
				fin = append(fin, exec(len(p.Tasks), i, Op{K: k, O: o}))
				i++
			}
			for _, id := range ids[:p.P["nids"]] {
				for _, n := range []int{1, 2, 5} {
					fin = append(fin, exec(len(p.Tasks), i, Op{K: "getn", O: o, N: n, A: []string{id}}))
				}
			}
		}
	})
	if e.R.Viol != "" {
		return
	}
	for o := range objs {
		var ops []linOp
		last := int64(0)
		for _, r := range hist {
			if r.Op.O%len(objs) != o {
				continue
			}
			r := r
			if r.Ret > last {
				last = r.Ret
			}
			ops = append(ops, linOp{inv: r.Inv, ret: r.Ret, after: -1, name: r.Op.String(), apply: func(s linState) (linState, bool) {
				n, good := s.(*mcat).apply(r.Op, r.Res, ds, files)
				return n, good
			}})
		}
		last++
		var mine []*Rec
		for _, r := range fin {
			if r.Op.O == o {
				mine = append(mine, r)
				e.log = append(e.log, "final: "+r.String())
				if r.Panic != "" {
					e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
					return
				}
			}
		}
		ops = append(ops, linOp{inv: last, ret: last + 1, after: -1, name: "final", apply: func(s linState) (linState, bool) {
			for _, r := range mine {
				if _, good := s.(*mcat).apply(r.Op, r.Res, ds, files); !good {
					return s, false
				}
			}
			return s, true
		}})
		good, decided := linearizable(st.o[o], ops, 200000)
		if !decided {
			e.R.Counts["undecided-history"]++
		}
		if !good {
			e.R.fail("lin", "no order of the %d calls on object %d explains the answers they gave (initial state: %s)", len(ops)-1, o, st.o[o].key())
			return
		}
	}
}

func init() {
	lk, wr := mixLookup, mixWrite
	register(&Scenario{Name: "cat-race",
		Gen: func(g *Rng, p *Plan) {
			genCatPlan(g, p, g.rng(1, 2), 4, 8, []string{lk + mixSnap, wr, lk + wr + mixSnap, mixSnap + wr})
		},
		Run: func(e *Env) { runCat(e, false) }})
	register(&Scenario{Name: "cat-lin",
		Gen: func(g *Rng, p *Plan) {
			genCatPlan(g, p, 1, 4, 5, []string{lk, wr, lk + wr})
		},
		Run: func(e *Env) { runCat(e, true) }})
	register(&Scenario{Name: "own-cat",
		Gen: func(g *Rng, p *Plan) {
			genCatPlan(g, p, 1, 3, 6, []string{mixSnap, wr, mixSnap + wr, mixSnap + lk + wr, mixOwn + wr})
			p.P["own"] = 1
		},
		Run: func(e *Env) { runCat(e, true) }})
	register(&Scenario{Name: "cat-snap",
		Gen: func(g *Rng, p *Plan) {
			genCatPlan(g, p, 1, 3, 5, []string{mixSnap, wr, mixSnap + wr})
		},
		Run: func(e *Env) { runCat(e, true) }})
}

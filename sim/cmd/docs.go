package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"sort"
	"strings"

	"github.com/leonelquinteros/gotext"
)

// rule is a plural rule, with the simulator's own implementation of it.
type rule struct {
	n    int
	expr string
	f    func(n int) int
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var rules = []rule{
	{2, "(n != 1)", func(n int) int { return b2i(n != 1) }},
	{1, "0", func(n int) int { return 0 }},
	{2, "n>1", func(n int) int { return b2i(n > 1) }},
	{3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2", func(n int) int {
		if n%10 == 1 && n%100 != 11 {
			return 0
		}
		if n%10 >= 2 && n%10 <= 4 && (n%100 < 10 || n%100 >= 20) {
			return 1
		}
		return 2
	}},
	{3, "n==1 ? 0 : n>=2 && n<=4 ? 1 : 2", func(n int) int {
		if n == 1 {
			return 0
		}
		if n >= 2 && n <= 4 {
			return 1
		}
		return 2
	}},
	{3, "n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2", func(n int) int {
		if n%10 == 1 && n%100 != 11 {
			return 0
		}
		if n != 0 {
			return 1
		}
		return 2
	}},
	{6, "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5", func(n int) int {
		switch {
		case n == 0:
			return 0
		case n == 1:
			return 1
		case n == 2:
			return 2
		case n%100 >= 3 && n%100 <= 10:
			return 3
		case n%100 >= 11:
			return 4
		}
		return 5
	}},
	// more forms than any language has
	{12, "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n==3 ? 3 : n==4 ? 4 : n==5 ? 5 : n==6 ? 6 : n==7 ? 7 : n==8 ? 8 : n<=10 ? 9 : n==11 ? 10 : 11", func(n int) int {
		if n < 9 {
			return n
		}
		return 9 + b2i(n > 10) + b2i(n > 11)
	}},
}

// germanic is what applies when nothing else is set.
func germanic(n int) int { return b2i(n != 1) }

// resolvers are the custom plural resolvers of the workload.
var resolvers = []func(int) int{
	func(n int) int { return n % 3 },
	func(n int) int { return 2 - b2i(n > 2) },
	func(n int) int { return 0 },
	func(n int) int { return b2i(n%2 == 0) },
}

func pluralHeader(r int) string {
	return fmt.Sprintf("nplurals=%d; plural=%s;", rules[r].n, rules[r].expr)
}

func (d *Doc) headers() [][2]string {
	if d.Feat&fNoHeader != 0 {
		return nil
	}
	h := [][2]string{{"Project-Id-Version", "sim"}}
	if d.Lang != "" {
		h = append(h, [2]string{"Language", d.Lang})
	}
	h = append(h, [2]string{"Content-Type", "text/plain; charset=UTF-8"})
	if d.Rule >= 0 {
		pf := pluralHeader(d.Rule)
		if d.Feat != 0 {
			pf = d.pluralText()
		}
		h = append(h, [2]string{"Plural-Forms", pf})
	}
	h = append(h, d.Hdr...)
	for i := range h {
		switch d.dice(fHdrCase, 4, h[i][0]) {
		case 1:
			h[i][0] = strings.ToLower(h[i][0])
		case 2:
			h[i][0] = strings.ToUpper(h[i][0])
		}
	}
	return h
}

// quote writes a PO string on one line.
func quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch c {
		case '"', '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(`\t`)
		case '\r':
			b.WriteString(`\r`)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// segments cuts s in pieces the way Wrap asks for.
func (d *Doc) segments(s string) []string {
	if d.Wrap <= 0 || len(s) < 2 {
		return []string{s}
	}
	out := []string{""}
	words := strings.SplitAfter(s, " ")
	for i := 0; i < len(words); i += d.Wrap {
		j := i + d.Wrap
		if j > len(words) {
			j = len(words)
		}
		out = append(out, strings.Join(words[i:j], ""))
	}
	return out
}

func (d *Doc) str(b *bytes.Buffer, key, s string) {
	b.WriteString(key)
	for i, seg := range d.segments(s) {
		if i == 0 {
			b.WriteByte(' ')
		}
		b.WriteString(quote(seg))
		b.WriteByte('\n')
	}
}

func (d *Doc) po() []byte { b, _ := d.poSpans(); return b }

// noise is what PO files hold besides messages.
var noise = []string{"", "#. a note for translators\n", "# a note by the translator\n#\n", "#| msgid \"previous\"\n", "#~ msgid \"obsolete\"\n#~ msgstr \"gone\"\n\n"}

// comments are the comments above the first entry of a PO file.
func (d *Doc) comments() (l []string) {
	if d.Head == nil {
		return []string{"# simulated"}
	}
	for _, s := range d.Head {
		if s = strings.TrimSpace(s); strings.HasPrefix(s, "#") {
			l = append(l, s)
		}
	}
	return l
}

// headOf is the comments above the first entry of an exported text.
func headOf(b []byte) (l []string) {
	for _, s := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(s, "#") {
			break
		}
		l = append(l, s)
	}
	return l
}

// loaded is what parsing d leaves of the comments l.
func (d *Doc) loaded(l []string) []string {
	if c := d.comments(); len(c) > 0 && strings.HasPrefix(d.Kind, "po") {
		return c
	}
	return l
}

// poSpans also tells which bytes each entry occupies.
func (d *Doc) poSpans() ([]byte, [][2]int) {
	var b bytes.Buffer
	if d.Head == nil {
		b.WriteString("# simulated\n")
	}
	for _, l := range d.Head {
		b.WriteString(l + "\n")
	}
	b.WriteString("msgid \"\"\nmsgstr \"\"\n")
	for _, h := range d.headers() {
		b.WriteString(quote(h[0]+": "+h[1]+"\n") + "\n")
	}
	var spans [][2]int
	for _, e := range d.Ents {
		b.WriteByte('\n')
		at := b.Len()
		if d.Noise > 0 {
			b.WriteString(noise[(d.Noise+len(e.ID)+7*len(e.Ctx))%len(noise)])
		}
		switch n := len(e.Refs); {
		case n > 1 && len(e.ID)%2 == 0:
			b.WriteString("#: " + strings.Join(e.Refs[:n/2], " ") + "\n#:  " + strings.Join(e.Refs[n/2:], " ") + " \n")
		case n > 0:
			b.WriteString("#: " + strings.Join(e.Refs, " ") + "\n")
		}
		if d.Noise > 1 && len(e.ID)%3 == 0 {
			b.WriteString("#, fuzzy, c-format\n")
		}
		if e.Ctx != "" {
			d.str(&b, "msgctxt", e.Ctx)
		}
		d.str(&b, "msgid", e.ID)
		if e.PID == "" {
			d.str(&b, "msgstr", e.Trs[0])
		} else {
			d.str(&b, "msgid_plural", e.PID)
			for i, t := range e.Trs {
				d.str(&b, fmt.Sprintf("msgstr[%d]", i), t)
			}
		}
		spans = append(spans, [2]int{at, b.Len()})
	}
	if d.CRLF {
		out := bytes.ReplaceAll(b.Bytes(), []byte("\n"), []byte("\r\n"))
		for i := range spans {
			for j := range spans[i] {
				spans[i][j] += bytes.Count(b.Bytes()[:spans[i][j]], []byte("\n"))
			}
		}
		return out, spans
	}
	return b.Bytes(), spans
}

func (d *Doc) mo(bo binary.ByteOrder) []byte {
	type pair struct{ id, str string }
	var hs strings.Builder
	for _, h := range d.headers() {
		hs.WriteString(h[0] + ": " + h[1] + "\n")
	}
	ps := []pair{{"", hs.String()}}
	for _, e := range d.Ents {
		id := e.ID
		if e.Ctx != "" {
			id = e.Ctx + "\x04" + id
		}
		if e.PID != "" {
			id += "\x00" + e.PID
		}
		ps = append(ps, pair{id, strings.Join(e.Trs, "\x00")})
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].id < ps[j].id })
	n := len(ps)
	idOff := 28
	strOff := idOff + 8*n
	data := strOff + 8*n
	var b, blob bytes.Buffer
	w := func(x uint32) { binary.Write(&b, bo, x) }
	w(0x950412de)
	w(0)
	w(uint32(n))
	w(uint32(idOff))
	w(uint32(strOff))
	w(0)
	w(0)
	put := func(s string) {
		w(uint32(len(s)))
		w(uint32(data + blob.Len()))
		blob.WriteString(s)
		blob.WriteByte(0)
	}
	for _, p := range ps {
		put(p.id)
	}
	for _, p := range ps {
		put(p.str)
	}
	b.Write(blob.Bytes())
	return b.Bytes()
}

func (d *Doc) gob() []byte {
	te := gotext.TranslatorEncoding{Headers: gotext.HeaderMap{}, Language: d.Lang,
		Translations: map[string]*gotext.Translation{}, Contexts: map[string]map[string]*gotext.Translation{}}
	for _, h := range d.headers() {
		te.Headers[h[0]] = append(te.Headers[h[0]], h[1])
	}
	if d.Rule >= 0 {
		te.PluralForms = pluralHeader(d.Rule)
		te.Nplurals = rules[d.Rule].n
		te.Plural = rules[d.Rule].expr
	}
	for _, e := range d.Ents {
		t := gotext.NewTranslation()
		t.ID, t.PluralID = e.ID, e.PID
		for i, s := range e.Trs {
			t.Trs[i] = s
		}
		t.Refs = append([]string(nil), e.Refs...)
		if e.Ctx == "" {
			te.Translations[e.ID] = t
		} else {
			if te.Contexts[e.Ctx] == nil {
				te.Contexts[e.Ctx] = map[string]*gotext.Translation{}
			}
			te.Contexts[e.Ctx][e.ID] = t
		}
	}
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(te); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// Bytes serialises the document.
func (d *Doc) Bytes() []byte {
	var b []byte
	switch {
	case d.Raw != nil:
		b = append([]byte(nil), d.Raw...)
	case d.Feat != 0 && d.Kind == "po":
		b = d.fmtPO()
	case d.Feat != 0 && d.Kind == "mo":
		b = d.fmtMO(binary.LittleEndian)
	case d.Feat != 0 && d.Kind == "mobe":
		b = d.fmtMO(binary.BigEndian)
	case d.Kind == "mo":
		b = d.mo(binary.LittleEndian)
	case d.Kind == "mobe":
		b = d.mo(binary.BigEndian)
	case d.Kind == "gob":
		b = d.gob()
	default:
		b = d.po()
	}
	if d.Cut > 0 && d.Cut < len(b) {
		b = b[:d.Cut]
	}
	return b
}

// Vocabulary of the workloads.
type vocabulary struct{ ids, ctxs []string }

var vocabularies = []vocabulary{
	{[]string{"alpha", "beta", "gamma", "delta", "eps ilon", "zeta", "eta \"q\"", "theta\nline"}, []string{"menu", "dialog", "c3"}},
	// contexts and ids that meet when they are put together, ids that are plurals of others
	{[]string{"b", "ab", "bs", "a:b", "b:b", "|b", "a", "as"}, []string{"a", "aa", "a:b"}},
	{[]string{"Open", "open", "open ", " open", "OPEN", "open\n", "\topen", "ope"}, []string{"Menu", "menu", "menu "}},
	{[]string{"ä", "a\u0308", "日本", "日", "🎉", "é\u00a0é", "ß", "ss"}, []string{"мен", "меню", "m"}},
	{[]string{long + "1", long + "2", "x" + long, long, longer + "1", longer + "2", "y", "z"}, []string{long, long + ".", "c"}},
	{[]string{"%d items", "100%", "%s", "\\n", "\\", "%%d", "{0}", "\"%v\""}, []string{"%d", "100%", "\\"}},
	{[]string{"msgid", "msgstr \"x\"", "#: file", "#~ msgid \"old\"", "msgstr[0]", "Plural-Forms: nplurals=1; plural=0;\n", "msgctxt \"menu\"", "\""}, []string{"msgctxt", "msgid \"a\"", "# c"}},
	{[]string{"0", "1", "00", "-1", "nil", "true", "null", "default"}, []string{"0", "1", "default"}},
}

var (
	long   = strings.Repeat("long word ", 30)
	longer = strings.Repeat("0123456789abcdef", 300)

	ids   = vocabularies[0].ids
	ctxs  = vocabularies[0].ctxs
	nvals = []int{0, 1, 2, 3, 5, 11, 12, 21, 22, 101, 111, 1000001, 257, 65537, 258, 100}
)

func setVocabulary(p *Plan) {
	v := vocabularies[p.P["names"]]
	ids, ctxs = v.ids, v.ctxs
	doms = append(append([]string(nil), domNames[p.P["domnames"]]...), moreDoms...)
}

func pluralOf(id string) string { return id + "s" }

// genDoc makes a document; every translation in it is unique to (tag, message).
func genDoc(g *Rng, tag, kind string, r, maxEnts int, refs bool) Doc {
	d := Doc{Kind: kind, Rule: r, Lang: g.s1("fr", "de", "pl")}
	if kind == "po" && g.p(30) {
		d.Wrap = g.rng(1, 2)
	}
	if kind == "po" && g.p(25) {
		d.Noise = g.rng(1, 9)
	}
	np := 2
	if r >= 0 {
		np = rules[r].n
	}
	seen := map[string]bool{}
	n := g.rng(1, maxEnts)
	for i := 0; i < n; i++ {
		e := Ent{ID: ids[g.n(len(ids))]}
		if g.p(35) {
			e.Ctx = ctxs[g.n(len(ctxs))]
		}
		if seen[e.Ctx+"\x00"+e.ID] {
			continue
		}
		seen[e.Ctx+"\x00"+e.ID] = true
		k := 1
		if g.p(45) {
			e.PID = pluralOf(e.ID)
			k = np
		}
		for j := 0; j < k; j++ {
			t := fmt.Sprintf("%s %s|%s [%d]", tag, e.Ctx, e.ID, j)
			if x := g.n(100); x < 7 {
				t = "" // untranslated form
			} else if x < 10 {
				t = e.ID // translated by itself
			}
			e.Trs = append(e.Trs, t)
		}
		if refs && g.p(75) {
			n := g.s2(1, 1, 2, 3)
			if g.p(5) {
				n = g.s2(4, 7, 12, 25, 40, 250)
			}
			for i := n; i > 0; i-- {
				e.Refs = append(e.Refs, fmt.Sprintf("%s/%d.go:%d", tag, g.n(3), g.rng(1, 30)))
			}
		}
		d.Ents = append(d.Ents, e)
	}
	return d
}

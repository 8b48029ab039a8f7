package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"path"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/leonelquinteros/gotext"
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// C24: catalogue files in every layout that the formats allow.

// Features of a layout. Every decision depends on the seed of the layout, the
// feature and the place only, so that a plan can be shrunk.
const (
	fComments = 1 << iota // comments of every kind
	fBlank                // blank and white lines
	fIndent               // white space around lines
	fSep                  // white space between keyword and string
	fWrap                 // strings in several pieces
	fEsc                  // other escapes for the same characters
	fObsolete             // obsolete entries
	fFlags                // flags
	fOrder                // plural forms in another order
	fCRLF
	fNoEOL   // no end of line at the end
	fMid     // blank lines and comments inside entries
	fRefs    // several lines of references
	fHdrCase // header names in other cases
	fHdrText // header text with other white space
	fPFSpell // plural rule spelled differently
	fNoHeader
	fHuge    // large files: long lines, texts and gaps
	fMoOrder // MO: other order of the sections
	fMoHash  // MO: hash table
	fMoShare // MO: equal strings stored once
	fMoPad   // MO: alignment and unused bytes
	fMoMinor // MO: revisions 0.1, 1.0, 1.1
	fEnd
)

// dice draws a number below n for a place in the layout.
func (d *Doc) dice(feat int, n int, where ...any) int {
	if d.Feat&feat == 0 || n <= 1 {
		return 0
	}
	return newRng(d.LSeed ^ hashStr(fmt.Sprint(feat, where))).n(n)
}

var obsoletes = []string{
	"#~ msgid \"gone\"\n#~ msgstr \"parti\"\n",
	"#~ msgctxt \"menu\"\n#~ msgid \"gone\"\n#~ msgid_plural \"gones\"\n#~ msgstr[0] \"a\"\n#~ msgstr[1] \"b\"\n",
	"#, fuzzy\n#~| msgid \"older\"\n#~ msgid \"\"\n#~ \"multi\"\n#~ \"line\"\n#~ msgstr \"\"\n#~ \"plus\"\n#~ \"sieurs\"\n",
	"#~msgid \"tight\"\n#~msgstr \"serré\"\n",
}

var comments = []string{
	"# by the translator\n", "#\n", "#. by the programmer\n", "#.\n", "# msgid \"not this\"\n", "#. msgstr \"nor that\"\n",
	"#| msgid \"before\"\n", "#| msgctxt \"c\"\n#| msgid \"\"\n#| \"before\"\n#| msgid_plural \"befores\"\n", "# \"quoted\"\n", "#\"\n", "# trailing \\\n", "#   white\t \n", "# ünï\n", "#!x\n",
}

// fmtLines puts one keyword with its string on lines.
func (d *Doc) fmtLines(key, s, where string) []string {
	sep := []string{" ", "\t", "  ", " \t ", ""}[d.dice(fSep, 5, where)]
	var parts []string
	switch d.dice(fWrap, 5, where) {
	case 0:
		parts = []string{s}
	case 1: // the usual way: an empty string, then lines
		parts = append([]string{""}, strings.SplitAfter(s, "\n")...)
	case 2:
		parts = strings.SplitAfter(s, " ")
	default:
		for rest, i := s, 0; ; i++ {
			if len(rest) == 0 && i > 0 && i > 2 {
				break
			}
			n := d.dice(fWrap, len(rest)+1, where, i)
			for n > 0 && n < len(rest) && !utf8.RuneStart(rest[n]) {
				n--
			}
			if i > 12 {
				n = len(rest)
			}
			parts = append(parts, rest[:n])
			rest = rest[n:]
			if rest == "" && d.dice(fWrap, 2, where, "e", i) == 0 {
				break
			}
		}
	}
	var out []string
	for i, x := range parts {
		q := d.fmtQuote(x, fmt.Sprint(where, i))
		if i == 0 {
			q = key + sep + q
		}
		out = append(out, q)
	}
	return out
}

// fmtQuote writes a string with any of the escapes that stand for it.
func (d *Doc) fmtQuote(s, where string) string {
	if d.Feat&fEsc == 0 {
		return quote(s)
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		x := s[i : i+n]
		k := d.dice(fEsc, 8, where, i)
		i += n
		simple := strings.IndexByte("\n\t\r\a\b\f\v\\\"", x[0])
		switch {
		case k == 0 && (n > 1 || x[0] < 32 || x[0] > 126 || d.dice(fEsc, 8, where, i, "p") == 0):
			for j := 0; j < n; j++ {
				fmt.Fprintf(&b, "\\%03o", x[j])
			}
		case k == 1 && (n > 1 || x[0] < 32 || x[0] > 126):
			for j := 0; j < n; j++ {
				fmt.Fprintf(&b, "\\x%02x", x[j])
			}
		case k == 2 && x == "\t":
			b.WriteString(x)
		case n == 1 && simple >= 0:
			b.WriteByte('\\')
			b.WriteByte(`ntrabfv\"`[simple])
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// fmtHeader is the text of the header.
func (d *Doc) fmtHeader() string {
	var b strings.Builder
	hs := d.headers()
	for i, h := range hs {
		if d.dice(fHdrText, 7, "j", h[0]) == 1 { // no header at all: there is no colon
			b.WriteString([]string{"generated by hand", "=", "Plural-Forms", "nplurals=2; plural=0;", " "}[d.dice(fHdrText, 5, "jk", h[0])] + "\n")
		}
		b.WriteString(h[0] + []string{": ", ":", ":  ", " :\t"}[:3][d.dice(fHdrText, 3, "s", h[0])] + h[1])
		b.WriteString([]string{"", " "}[d.dice(fHdrText, 2, "t", h[0])])
		if i < len(hs)-1 || d.dice(fHdrText, 3, "nl") != 1 {
			b.WriteByte('\n')
		}
		if d.dice(fHdrText, 6, "b", h[0]) == 1 {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

// pluralText is the Plural-Forms header in one of its spellings.
func (d *Doc) pluralText() string {
	expr := rules[d.Rule].expr
	k := d.dice(fPFSpell, 6, "k")
	switch k {
	case 1, 2:
		expr = strings.ReplaceAll(expr, " ", "")
	case 3:
		expr = strings.NewReplacer("?", " ? ", ":", " : ", "&&", " && ", "||", " || ").Replace(expr)
	}
	if d.dice(fPFSpell, 2, "p") == 1 && strings.Contains(expr, "n") {
		expr = "(" + expr + ")"
	}
	s := fmt.Sprintf("nplurals=%d;%splural=%s%s", rules[d.Rule].n, []string{" ", "", "  ", " \t"}[d.dice(fPFSpell, 4, "s")], []string{"", " "}[d.dice(fPFSpell, 2, "e")], expr)
	return s + []string{";", "", ";", " ;"}[d.dice(fPFSpell, 4, "t")]
}

// fmtPO writes the document as PO.
func (d *Doc) fmtPO() []byte {
	var out []string
	emit := func(l ...string) { out = append(out, l...) }
	block := func(s string) { emit(strings.Split(strings.TrimSuffix(s, "\n"), "\n")...) }
	blank := func(where string) {
		for i := d.dice(fBlank, 3, where); i > 0; i-- {
			emit([]string{"", " ", "\t", ""}[d.dice(fBlank, 4, where, i)])
		}
	}
	extra := func(where string) {
		switch d.dice(fHuge, 6, where) { // more than any buffer holds
		case 1:
			emit("# " + strings.Repeat("msgid \"x\" ", 5000+d.dice(fHuge, 9000, where, "n")))
		case 2:
			for i := 1000 + d.dice(fHuge, 3000, where, "n"); i > 0; i-- {
				emit("#. line " + strings.Repeat("-", i%70))
			}
		}
		for i := d.dice(fComments, 4, where); i > 0; i-- {
			block(comments[d.dice(fComments, len(comments), where, i)])
		}
	}
	entry := func(where string, parts [][]string) {
		for i, p := range parts {
			for j, l := range p {
				if i+j > 0 {
					switch d.dice(fMid, 8, where, i, j) {
					case 1:
						emit("")
					case 2:
						emit("# in between")
					case 3:
						emit("# \"in between\"", " ")
					}
				}
				emit(l)
			}
		}
	}
	blank("top")
	extra("top")
	if hs := d.headers(); len(hs) > 0 {
		if d.dice(fFlags, 2, "hdr") == 1 {
			emit("#, fuzzy")
		}
		var body [][]string
		if d.dice(fWrap, 4, "header") == 1 { // not one line per header
			body = [][]string{d.fmtLines("msgid", "", "hdr"), d.fmtLines("msgstr", d.fmtHeader(), "hdr2")}
		} else {
			l := []string{`msgstr ""`}
			for i, h := range strings.SplitAfter(d.fmtHeader(), "\n") {
				l = append(l, d.fmtQuote(h, fmt.Sprint("h", i)))
			}
			body = [][]string{{`msgid ""`}, l}
		}
		entry("hdr", body)
		emit("")
	}
	for i := range d.Ents {
		e := &d.Ents[i]
		w := e.Ctx + "\x04" + e.ID
		blank(w)
		if d.dice(fObsolete, 4, w) == 1 {
			block(obsoletes[d.dice(fObsolete, len(obsoletes), w, "k")])
			emit("")
		}
		extra(w)
		if len(e.Refs) > 0 {
			rest := e.Refs
			for j := 0; len(rest) > 0; j++ {
				n := len(rest)
				if d.dice(fRefs, 2, w, j) == 1 {
					n = 1
				}
				emit("#:" + []string{" ", "  ", "\t", ""}[d.dice(fRefs, 4, w, j, "s")] + strings.Join(rest[:n], []string{" ", " ", "  ", "\t", " \t "}[d.dice(fRefs, 5, w, j, "b")]) + []string{"", " "}[d.dice(fRefs, 2, w, j, "t")])
				rest = rest[n:]
				if d.dice(fRefs, 4, w, j, "c") == 1 {
					emit("#. between references")
				}
			}
		}
		if k := d.dice(fFlags, 5, w); k > 0 {
			emit([]string{"#, fuzzy", "#, c-format", "#, fuzzy, python-format", "#,no-wrap"}[k-1])
		}
		if d.dice(fComments, 4, w, "late") == 1 {
			emit("#| msgid \"before\"")
		}
		var parts [][]string
		if e.Ctx != "" {
			parts = append(parts, d.fmtLines("msgctxt", e.Ctx, w+"c"))
		}
		parts = append(parts, d.fmtLines("msgid", e.ID, w+"i"))
		if e.PID == "" {
			parts = append(parts, d.fmtLines("msgstr", e.Trs[0], w+"s"))
		} else {
			parts = append(parts, d.fmtLines("msgid_plural", e.PID, w+"p"))
			order := make([]int, len(e.Trs))
			for j := range order {
				order[j] = j
			}
			sort.SliceStable(order, func(a, b int) bool {
				return d.dice(fOrder, 100, w, order[a]) < d.dice(fOrder, 100, w, order[b])
			})
			for _, j := range order {
				parts = append(parts, d.fmtLines(fmt.Sprintf("msgstr[%d]", j), e.Trs[j], fmt.Sprint(w, "s", j)))
			}
		}
		entry(w, parts)
		if d.dice(fBlank, 4, w, "after") != 1 {
			emit("")
		}
	}
	if d.dice(fObsolete, 2, "end") == 1 {
		emit("")
		block(obsoletes[d.dice(fObsolete, len(obsoletes), "endk")])
	}
	if d.dice(fComments, 4, "end") == 1 {
		emit("# the end")
	}
	var b strings.Builder
	eol := "\n"
	if d.Feat&fCRLF != 0 {
		eol = "\r\n"
	}
	wide := 0
	for i, l := range out {
		b.WriteString([]string{"", " ", "\t", "  "}[d.dice(fIndent, 4, "l", i)])
		b.WriteString(l)
		b.WriteString([]string{"", " ", "\t", "  "}[d.dice(fIndent, 4, "r", i)])
		if wide < 2 && d.dice(fHuge, 40, "r", i) == 1 {
			wide++
			b.WriteString(strings.Repeat(" \t", 33000+d.dice(fHuge, 9000, "r", i, "n")))
		}
		if i < len(out)-1 || d.Feat&fNoEOL == 0 {
			b.WriteString(eol)
		}
	}
	return []byte(b.String())
}

// fmtMO writes the document as MO.
func (d *Doc) fmtMO(bo binary.ByteOrder) []byte {
	type pair struct{ id, str string }
	var ps []pair
	if len(d.headers()) > 0 {
		ps = append(ps, pair{"", d.fmtHeader()})
	}
	for _, e := range d.Ents {
		id := e.ID
		if e.Ctx != "" {
			id = e.Ctx + "\x04" + id
		}
		if e.PID != "" {
			id += "\x00" + e.PID
		}
		ps = append(ps, pair{id, strings.Join(e.Trs, "\x00")})
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].id < ps[j].id })
	n := len(ps)
	minor := uint32(0)
	hdr := 28
	if d.Feat&fMoMinor != 0 {
		minor = []uint32{1, 0x10000, 0x10001, 0}[d.dice(fMoMinor, 4, "v")]
		if minor&1 == 1 {
			hdr = 48 // with system dependent segments: none
		}
	}
	hash := 0
	if d.Feat&fMoHash != 0 {
		hash = n*4/3 + 1 + d.dice(fMoHash, 7, "n")
	}
	buf := make([]byte, hdr)
	pad := func(where string) {
		for i := d.dice(fMoPad, 9, where); i > 0; i-- {
			buf = append(buf, byte(0xA5+i))
		}
		if d.dice(fHuge, 3, where) == 1 {
			buf = append(buf, bytes.Repeat([]byte("gap\x00"), 16000+d.dice(fHuge, 30000, where, "n"))...)
		}
	}
	room := func(n int, where string) int {
		pad(where)
		at := len(buf)
		buf = append(buf, make([]byte, n)...)
		return at
	}
	// sections: i, s tables, h hash table, I, S strings
	order := []string{"i", "s", "h", "I", "S"}
	for k := len(order) - 1; k > 0; k-- {
		if d.Feat&fMoOrder != 0 {
			j := d.dice(fMoOrder, k+1, "o", k)
			order[k], order[j] = order[j], order[k]
		}
	}
	ids, strs := make([]int, n), make([]int, n)
	seen := map[string]int{}
	put := func(s, where string) int {
		if at, ok := seen[s]; ok && d.Feat&fMoShare != 0 {
			return at
		}
		if d.Feat&fMoPad != 0 {
			for a := []int{1, 2, 4, 8}[d.dice(fMoPad, 4, "align")]; len(buf)%a != 0; {
				buf = append(buf, 0)
			}
		}
		at := len(buf)
		buf = append(append(buf, s...), 0)
		seen[s] = at
		return at
	}
	var iAt, sAt, hAt int
	for _, sec := range order {
		switch sec {
		case "i":
			iAt = room(8*n, "i")
		case "s":
			sAt = room(8*n, "s")
		case "h":
			hAt = room(4*hash, "h")
		case "I":
			pad("I")
			for i, p := range ps {
				ids[i] = put(p.id, "I")
			}
		case "S":
			pad("S")
			for i, p := range ps {
				strs[i] = put(p.str, "S")
			}
		}
	}
	pad("end")
	w := func(at int, v int) { bo.PutUint32(buf[at:], uint32(v)) }
	w(0, 0x950412de)
	w(4, int(minor))
	w(8, n)
	w(12, iAt)
	w(16, sAt)
	w(20, hash)
	w(24, hAt)
	for i, p := range ps {
		w(iAt+8*i, len(p.id))
		w(iAt+8*i+4, ids[i])
		w(sAt+8*i, len(p.str))
		w(sAt+8*i+4, strs[i])
	}
	// the hash table as GNU msgfmt writes it
	for i, p := range ps {
		if hash < 3 {
			break
		}
		h := uint32(0)
		for _, c := range []byte(strings.SplitN(p.id, "\x00", 2)[0]) {
			h = h<<4 + uint32(c)
			if g := h & 0xf0000000; g != 0 {
				h ^= g >> 24
				h ^= g
			}
		}
		idx := h % uint32(hash)
		inc := 1 + h%uint32(hash-2)
		for tries := 0; tries < 4*hash; tries++ {
			if bo.Uint32(buf[hAt+4*int(idx):]) == 0 {
				w(hAt+4*int(idx), i+1)
				break
			}
			idx = (idx + inc) % uint32(hash)
		}
	}
	return buf
}

// genFormatDoc makes a document with texts of every kind.
func genFormatDoc(g *Rng, p *Plan, kind string) Doc {
	d := genTextDoc(g, p, kind, g.n(len(rules)+1)-1)
	d.Wrap, d.Noise = 0, 0
	d.LSeed = g.u()
	mo := kind != "po"
	for f := 1; f < fEnd; f <<= 1 {
		isMo := f >= fMoOrder
		both := f == fHuge || f == fHdrCase || f == fHdrText || f == fPFSpell || f == fNoHeader
		pct := 35
		if f == fNoHeader {
			pct = 8
		} else if f == fHuge {
			pct = 3
		}
		if (both || isMo == mo) && g.p(pct) {
			d.Feat |= f
		}
	}
	if d.Feat&fNoHeader != 0 {
		d.Rule, d.Lang, d.Hdr = -1, "", nil
	}
	np := 2
	if d.Rule >= 0 {
		np = rules[d.Rule].n
	}
	clean := func(s string) string {
		if mo {
			s = strings.NewReplacer("\x00", "0", "\x04", "4").Replace(s)
		}
		return s
	}
	seen := map[string]bool{}
	var ents []Ent
	for i, e := range d.Ents {
		e.ID, e.Ctx, e.PID = clean(e.ID), clean(e.Ctx), clean(e.PID)
		if mo {
			e.Refs = nil
		}
		if d.Feat&fNoHeader != 0 && i == 0 {
			e.Refs = nil // without a header they belong to the file
		}
		if seen[e.Ctx+"\x04"+e.ID] || e.ID == "" {
			continue
		}
		seen[e.Ctx+"\x04"+e.ID] = true
		for len(e.Trs) < np && e.PID != "" {
			e.Trs = append(e.Trs, "")
		}
		if e.PID == "" {
			e.Trs = e.Trs[:1]
		}
		for j := range e.Trs {
			e.Trs[j] = clean(e.Trs[j])
			if g.p(40) && e.Trs[j] != "" { // know which message this is
				e.Trs[j] += fmt.Sprintf("<%d.%d>", i, j)
			}
		}
		if d.Feat&fHuge != 0 && g.p(15) {
			j := g.n(len(e.Trs))
			e.Trs[j] += strings.Repeat([]string{"x", " longish", "\n\t", "ü"}[g.n(4)], 9000+g.n(60000))
		}
		ents = append(ents, e)
	}
	d.Ents = ents
	// what a load costs is bounded
	for half := 32000; bytes.Count(d.Bytes(), []byte("\n")) > 6000 && half > 100; half /= 2 {
		for i := range d.Ents {
			for j, t := range d.Ents[i].Trs {
				if len(t) > half {
					d.Ents[i].Trs[j] = strings.ToValidUTF8(t[:half], "")
				}
			}
		}
	}
	return d
}

func genFormat(g *Rng, p *Plan) {
	for i := g.rng(3, 10); i > 0; i-- {
		p.Strs = append(p.Strs, g.str())
	}
	p.Strs = g.twins(p.Strs)
	kind := g.weighted("po:3 mo:1 mobe:1")
	p.P["surf"] = g.n(5) // Parse, ParseFile, ParseFile from an fs.FS, Locale, package
	p.P["mode"] = g.n(3)
	p.P["fsmode"] = g.n(4)
	p.P["lang"] = 0
	switch p.P["surf"] {
	case 1, 4: // through package os
		p.P["mode"] = 0
	case 2:
		p.P["mode"] = g.rng(1, 2)
	}
	d := genFormatDoc(g, p, kind)
	p.Docs = append(p.Docs, d)
	base, _ := locBase(p.P["mode"])
	f := path.Join(base, "cat.x")
	if p.P["surf"] >= 3 {
		ext := "po"
		if kind != "po" {
			ext = "mo"
		}
		cs := candidates(base, locLangs[0], doms[0], ext)
		f = cs[g.n(len(cs))]
	}
	p.Files = []FileSpec{{f, 0}}
	p.Faults = rt.Faults{ShortRead: g.n(60), Stall: g.n(30)}
	if g.p(30) {
		p.Faults = rt.Faults{}
	}
	look := func() Op {
		op := Op{K: g.weighted("get:3 getn:4 getc:3 getnc:4 ist:1 istn:1 istc:1 istnc:1"), N: nvals[g.n(len(nvals))], D: g.p(50)}
		id, ctx := p.Strs[g.n(len(p.Strs))], p.Strs[g.n(len(p.Strs))]
		if len(d.Ents) > 0 && g.p(80) {
			e := &d.Ents[g.n(len(d.Ents))]
			id = e.ID
			if e.Ctx != "" {
				ctx = e.Ctx
				if g.p(70) && !strings.HasSuffix(op.K, "c") {
					op.K += "c"
				}
			}
		}
		if id == "" {
			id = "x"
		}
		if ctx == "" {
			ctx = "c"
		}
		op.A = []string{id, ctx, doms[0]}
		return op
	}
	for t := g.rng(1, 3); t > 0; t-- {
		var ops []Op
		if len(p.Tasks) == 0 || g.p(50) {
			for i := g.n(3); i > 0; i-- {
				ops = append(ops, look())
			}
			ops = append(ops, Op{K: "load"})
		}
		for i := g.rng(1, 6); i > 0; i-- {
			ops = append(ops, look())
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// formatWorld is whatever loads the file.
type formatWorld struct {
	p   *Plan
	raw []byte
	io  *ioWorld
	loc *locWorld
	pkg *pkgWorld
}

func (w *formatWorld) do(op Op, num int) string {
	if op.K == "load" {
		f := w.p.Files[0].Path
		switch {
		case w.loc != nil:
			w.loc.l.AddDomain(doms[0])
		case w.pkg != nil:
			gotext.SetDomain(doms[0])
			gotext.Get("no such message")
		case w.p.P["surf"] == 0:
			b := append([]byte(nil), w.raw...)
			if w.io.obj.po != nil {
				w.io.obj.po.Parse(b)
			} else {
				w.io.obj.mo.Parse(b)
			}
			for i := range b { // the buffer belongs to the caller again
				b[i] = 'Z'
			}
		default:
			w.io.do(Op{K: "reload", A: []string{f, doms[0]}}, num)
		}
		return ""
	}
	switch {
	case w.loc != nil:
		op.D = true
		r, _ := w.loc.do(op, num)
		return r
	case w.pkg != nil:
		op.D = true
		if isIst(op.K) {
			op.A = append(append([]string(nil), op.A[:3]...), locLangs[0])
		}
		return w.pkg.do(op, num)
	}
	return w.io.do(op, num)
}

func runFormat(e *Env) {
	p := e.P
	d := &p.Docs[0]
	ds := prepDocs(p)
	w := &formatWorld{p: p, raw: ds.raw[0]}
	p.P["mo"] = b2i(d.Kind != "po")
	p.P["world"] = 0
	if !e.seq("prepare", func() {
		rt.TheDisk.Install(p.Files[0].Path, w.raw)
		switch p.P["surf"] {
		case 3:
			w.loc = newLocWorld(p, ds)
			w.loc.l.SetDomain(doms[0])
		case 4:
			w.pkg = &pkgWorld{p: p, ds: ds}
			gotext.Configure("/vsim/lib", locLangs[0], "other")
		default:
			w.io = newIOWorld(p, ds)
		}
	}) {
		return
	}
	want := fromDoc(d)
	loaded := int64(-1)
	loads := 0
	base := int64(0)
	exec := func(task, idx, num int, op Op) *Rec {
		r := &Rec{Task: task, Idx: idx, Op: op, Num: num}
		r.Inv = base + rt.Seq()
		r.Panic, _ = guard(func() { r.Res = w.do(op, num) })
		r.Ret = base + rt.Seq()
		if op.K == "load" {
			loads++
			if loaded < 0 {
				loaded = r.Ret
			}
		}
		return r
	}
	check := func(r *Rec) {
		if r.Op.K == "load" || r.Panic != "" {
			return
		}
		right := func(m *mcat) bool {
			if isIst(r.Op.K) {
				return r.Res == fmt.Sprint(istOf(m, r.Op))
			}
			return matches(r.Op, answers(m, r.Op), r.Res)
		}
		after := loaded >= 0 && r.Inv > loaded
		if right(want) || !after && (right(newMcat()) || right(nil)) {
			return
		}
		e.R.fail("format", "%s answers %q, expected %q (%s)\n%s", r.Op, r.Res, answers(want, r.Op), map[bool]string{true: "the file had been loaded", false: "while the file was being loaded"}[after], show(d.Kind, w.raw))
	}
	rt.TheDisk.F = p.Faults
	h, ok := runClients(e, p.Tasks, 0, exec)
	rt.TheDisk.F = rt.Faults{}
	if !ok {
		return
	}
	for _, r := range h {
		check(r)
	}
	base = 1 << 20
	e.seq("final", func() {
		if loads == 0 {
			if r := exec(-2, 0, 0, Op{K: "load"}); r.Panic != "" {
				e.R.fail("panic", "panic while loading: %s\n%s", r.Panic, show(d.Kind, w.raw))
				return
			}
		}
		for _, k := range append(want.sorted(), mkey{"", "never"}, mkey{"never", "never"}) {
			for _, n := range []int{0, 1, 2, 5, 21, 111} {
				for _, kind := range []string{"get", "getn", "ist", "istn"} {
					if k.ctx != "" {
						kind += "c"
					}
					r := exec(-2, 0, 0, Op{K: kind, A: []string{k.id, k.ctx, doms[0]}, N: n})
					if r.Panic != "" {
						e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
						return
					}
					check(r)
				}
			}
		}
		var dom *gotext.Domain
		var o *object
		pub := []string{}
		switch {
		case w.io != nil:
			o = w.io.obj
			dom = o.dom
			if o.po != nil {
				pub = []string{o.po.Language, o.po.PluralForms, hdrs(o.po.Headers).String()}
			} else {
				pub = []string{o.mo.Language, o.mo.PluralForms, hdrs(o.mo.Headers).String()}
			}
		case w.loc != nil:
			dom = w.loc.l.Domains[doms[0]].GetDomain()
		default:
			for _, l := range gotext.GetLocales() {
				if t := l.Domains[doms[0]]; t != nil {
					dom = t.GetDomain()
				}
			}
		}
		if dom == nil {
			e.R.fail("format", "nothing was loaded from\n%s", show(d.Kind, w.raw))
			return
		}
		l, _ := (&object{kind: "dom", dom: dom, c: dom}).contents()
		got := &mcat{ents: l}
		if a, b := got.canon("all", false), want.canon("all", false); a != b {
			e.R.fail("format", "the catalogue holds\n%sinstead of\n%s%s", a, b, show(d.Kind, w.raw))
		}
		{
			wh := hdrs{}.add(d)
			if a, b := hdrs(dom.Headers).String(), wh.String(); a != b {
				e.R.fail("format", "the headers are %s instead of %s\n%s", a, b, show(d.Kind, w.raw))
			}
			pf := ""
			if d.Rule >= 0 {
				pf = d.pluralText()
			}
			for i, v := range []string{d.Lang, strings.TrimSpace(pf), wh.String()} {
				x := append([]string{dom.Language, dom.PluralForms}, wh.String())[i]
				if x != v || len(pub) > 0 && pub[i] != v {
					e.R.fail("format", "the public fields are %q, %q instead of %q\n%s", x, pub, v, show(d.Kind, w.raw))
				}
			}
		}
	})
}

// show renders a file for a report.
func show(kind string, b []byte) string {
	if len(b) > 4000 {
		return fmt.Sprintf("file of %d bytes: %q ... %q", len(b), b[:2000], b[len(b)-1000:])
	}
	if kind == "po" {
		return fmt.Sprintf("--- file:\n%s\n--- end (%q)", b, b)
	}
	if i := bytes.IndexByte(b, 0); i < 0 {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("file: %x", b)
}

func init() {
	register(&Scenario{Name: "format", Gen: genFormat, Run: runFormat})
}

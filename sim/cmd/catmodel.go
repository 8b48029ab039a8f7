package main

import (
	"fmt"
	"sort"
	"strings"
)

// The reference model of a catalogue (Po, Mo or Domain): a sequential object.

type ment struct {
	id, pid string
	trs     map[int]string
	refs    []string
	dirty   bool
}

func (m *ment) clone() *ment {
	n := &ment{id: m.id, pid: m.pid, trs: map[int]string{}, refs: m.refs, dirty: m.dirty}
	for k, v := range m.trs {
		n.trs[k] = v
	}
	return n
}

func (m *ment) String() string {
	ks := make([]int, 0, len(m.trs))
	for k := range m.trs {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var b strings.Builder
	fmt.Fprintf(&b, "%q/%q", m.id, m.pid)
	for _, k := range ks {
		fmt.Fprintf(&b, " %d=%q", k, m.trs[k])
	}
	if len(m.refs) > 0 {
		fmt.Fprintf(&b, " refs=%q", m.refs)
	}
	return b.String()
}

type mkey struct{ ctx, id string }

// mcat is immutable: every mutation copies the top level.
type mcat struct {
	rule int // -1: none
	res  int // custom resolver, -1: none
	lang string
	ents map[mkey]*ment
	k    string // cached key
}

func newMcat() *mcat { return &mcat{rule: -1, res: -1, ents: map[mkey]*ment{}} }

func (m *mcat) clone() *mcat {
	n := &mcat{rule: m.rule, res: m.res, lang: m.lang, ents: make(map[mkey]*ment, len(m.ents)+1)}
	for k, v := range m.ents {
		n.ents[k] = v
	}
	return n
}

func (m *mcat) sorted() []mkey {
	ks := make([]mkey, 0, len(m.ents))
	for k := range m.ents {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].ctx != ks[j].ctx {
			return ks[i].ctx < ks[j].ctx
		}
		return ks[i].id < ks[j].id
	})
	return ks
}

func (m *mcat) key() string {
	if m.k == "" {
		var b strings.Builder
		fmt.Fprintf(&b, "rule=%d res=%d lang=%s\n", m.rule, m.res, m.lang)
		for _, k := range m.sorted() {
			e := m.ents[k]
			fmt.Fprintf(&b, "%q %s dirty=%v\n", k.ctx, e, e.dirty)
		}
		m.k = b.String()
	}
	return m.k
}

func (m *mcat) form(n int) int {
	if m.rule >= 0 {
		return rules[m.rule].f(n)
	}
	if m.res >= 0 {
		return resolvers[m.res](n)
	}
	return germanic(n)
}

// parse merges a document.
func (m *mcat) parse(d *Doc, fromGob bool) *mcat {
	n := m.clone()
	if fromGob {
		n.ents = map[mkey]*ment{}
		n.rule = d.Rule
		n.lang = d.Lang
	} else {
		// what the file says about a header replaces what an earlier one said
		if d.Rule >= 0 {
			n.rule = d.Rule
		}
		if d.Lang != "" {
			n.lang = d.Lang
		}
	}
	for _, e := range d.Ents {
		x := &ment{id: e.ID, pid: e.PID, trs: map[int]string{}, refs: e.Refs}
		if d.Kind == "mo" || d.Kind == "mobe" {
			x.refs = nil
		}
		for i, t := range e.Trs {
			x.trs[i] = t
		}
		n.ents[mkey{e.Ctx, e.ID}] = x
	}
	return n
}

func (m *mcat) set(ctx, id, pid string, idx int, s string, refs []string) *mcat {
	n := m.clone()
	k := mkey{ctx, id}
	var e *ment
	if o := m.ents[k]; o != nil {
		e = o.clone()
	} else {
		e = &ment{id: id, trs: map[int]string{}}
	}
	if e.pid == "" && pid != "" {
		e.pid = pid
	}
	if refs != nil {
		e.refs = refs
	} else {
		e.trs[idx] = s
	}
	e.dirty = true
	n.ents[k] = e
	return n
}

func (m *mcat) drop() *mcat {
	n := m.clone()
	for k, e := range m.ents {
		if !e.dirty {
			delete(n.ents, k)
		}
	}
	return n
}

// lookup returns the answers that are right for a lookup.
func (m *mcat) lookup(ctx, id, plural string, n int, isPlural bool) []string {
	e := m.ents[mkey{ctx, id}]
	if !isPlural {
		if e != nil && e.trs[0] != "" {
			return []string{e.trs[0]}
		}
		return []string{id}
	}
	idx := m.form(n)
	if e != nil {
		if s := e.trs[idx]; s != "" {
			return []string{s}
		}
		if idx == 0 {
			return []string{id}
		}
		if e.pid != "" {
			return []string{e.pid, plural}
		}
		if n == 1 {
			return []string{plural, id}
		}
		return []string{plural}
	}
	// not in the catalogue: the source text, singular or plural either by the
	// catalogue's rule or by the Germanic one
	out := []string{plural}
	if idx == 0 {
		out[0] = id
	}
	if n == 1 {
		out = append(out, id)
	} else {
		out = append(out, plural)
	}
	return out
}

func (m *mcat) translated(ctx, id string, n int, isPlural bool) bool {
	e := m.ents[mkey{ctx, id}]
	if e == nil {
		return false
	}
	idx := 0
	if isPlural {
		idx = m.form(n)
	} else {
		idx = m.form(1)
	}
	return e.trs[idx] != ""
}

// canon renders the messages, what ("", "ctx", "all") says which.
func (m *mcat) canon(what string, text bool) string {
	var b strings.Builder
	for _, k := range m.sorted() {
		if what == "plain" && k.ctx != "" || what == "ctx" && k.ctx == "" {
			continue
		}
		e := m.ents[k]
		if text {
			e = e.clone()
			if e.pid == "" {
				for i := range e.trs {
					if i != 0 {
						delete(e.trs, i)
					}
				}
				if _, ok := e.trs[0]; !ok {
					e.trs[0] = ""
				}
			}
		}
		fmt.Fprintf(&b, "%q %s\n", k.ctx, e)
	}
	return b.String()
}

package main

import "fmt"

// Some runs have catalogues of hundreds or thousands of messages, in many
// contexts: what works for a few has to work for many.

// noMass: properties whose workloads count bytes or have large catalogues of
// their own.
var noMass = map[string]bool{"C12": true, "C13": true, "C15": true, "C18": true, "C19": true, "C20": true, "C26": true, "C28": true, "C29": true}

func genMass(p *Plan) {
	g := newRng(p.Seed*0x9E3779B97F4A7C15 + 77)
	if noMass[p.Prop] || !g.p(2) {
		return
	}
	n := 0
	switch g.n(10) {
	case 0:
		n = g.rng(600, 2500)
	case 1, 2, 3:
		n = g.rng(130, 600)
	default:
		n = g.rng(20, 130)
	}
	if p.Prop == "C24" && n > 600 && g.p(25) {
		n = g.rng(10000, 12000)
	} else if len(p.Tasks) > 3 && n > 600 {
		n /= 4
	}
	most := 0
	for i := range p.Docs {
		d := &p.Docs[i]
		if d.Raw != nil || d.Cut > 0 {
			continue
		}
		d.MTag = fmt.Sprintf("m%d", i)
		d.Mass = n
		if g.p(30) {
			d.Mass = g.rng(1, n)
		}
		if d.Mass > most {
			most = d.Mass
		}
	}
	if most == 0 {
		return
	}
	p.Mean *= g.s2(1, 1, 20)
	// some of the calls are about them
	some := func(l []Op) {
		for i := range l {
			op := &l[i]
			if !massKinds[op.K] || len(op.A) == 0 || !g.p(40) {
				continue
			}
			for _, id := range ids {
				if op.A[0] == id {
					e := massEnt("", g.n(most), 1, p.P["fmt"] == 1)
					op.A[0] = e.ID
					if e.Ctx != "" && len(op.A) > 1 {
						for _, c := range ctxs {
							if op.A[1] == c {
								op.A[1] = e.Ctx
								break
							}
						}
					}
					break
				}
			}
		}
	}
	some(p.Init)
	some(p.Post)
	for _, t := range p.Tasks {
		some(t)
	}
}

var massKinds = map[string]bool{
	"get": true, "getn": true, "getc": true, "getnc": true, "app": true, "appn": true, "appc": true, "appnc": true,
	"ist": true, "istn": true, "istc": true, "istnc": true, "getrefs": true,
	"set": true, "setn": true, "setc": true, "setnc": true, "setrefs": true,
}

// massEnt is message i of the many.
func massEnt(tag string, i, forms int, format bool) Ent {
	e := Ent{ID: fmt.Sprintf("mass %d", i*7919%100003)}
	switch i % 8 {
	case 1, 5:
		e.Ctx = ctxs[i/8%len(ctxs)]
	case 3:
		e.Ctx = fmt.Sprintf("part %d", i/8)
	}
	k := 1
	if i%3 == 1 {
		e.PID = pluralOf(e.ID)
		k = forms
	}
	for j := 0; j < k; j++ {
		t := fmt.Sprintf("%s %s [%d]", tag, e.ID, j)
		if format {
			t += " %d"
		}
		e.Trs = append(e.Trs, t)
	}
	if i%5 == 2 {
		e.Refs = []string{fmt.Sprintf("%s/mass%d.go:%d", tag, i%11, i)}
		for j := 0; i%35 == 2 && j < i%40; j++ {
			e.Refs = append(e.Refs, fmt.Sprintf("%s/again%d.go:%d", tag, j%7, j))
		}
	}
	return e
}

// expand returns the plan with all messages of its documents, and their number.
func (p *Plan) expand() (*Plan, int) {
	total := 0
	for i := range p.Docs {
		total += p.Docs[i].Mass
	}
	if total == 0 {
		return p, 0
	}
	q := *p
	q.Docs = append([]Doc(nil), p.Docs...)
	for i := range q.Docs {
		d := &q.Docs[i]
		if d.Mass == 0 {
			continue
		}
		forms := 2
		if d.Rule >= 0 {
			forms = rules[d.Rule].n
		}
		// the others lie between, before and behind them
		at := make(map[int]int)
		for j := range d.Ents {
			at[int(newRng(p.Seed+uint64(j)).u()>>3)%(d.Mass+1)]++
		}
		var l []Ent
		rest := d.Ents
		for j := 0; j <= d.Mass; j++ {
			k := at[j]
			l = append(l, rest[:k]...)
			rest = rest[k:]
			if j < d.Mass {
				l = append(l, massEnt(d.MTag, j, forms, p.P["fmt"] == 1))
			}
		}
		d.Ents, d.Mass = append(l, rest...), 0
	}
	return &q, total
}

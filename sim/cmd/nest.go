package main

import (
	"fmt"
	"io"
	"strconv"

	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// Callers' code that gotext calls, and that calls gotext in turn.

// argument is a formatting argument that prints as a number.
type argument struct {
	n    int
	call func()
}

func (a argument) Format(f fmt.State, _ rune) {
	if a.call != nil {
		a.call()
	}
	io.WriteString(f, strconv.Itoa(a.n))
}

var (
	nestLook = []string{"get", "getn", "getc", "getnc", "ist", "istn", "istc", "istnc"}
	nestCat  = append([]string{"app", "appn", "appc", "appnc", "getrefs", "mtext", "mbin", "trs"}, nestLook...)
	nestLoc  = append([]string{"getdom", "getlang", "actual", "adddom", "gettrans", "mbin"}, nestLook...)
	nestPkg  = append([]string{"getdom", "getlang", "getlangs", "getlib", "getlocs", "getstor"}, nestLook...)
)

// vars are the formatting arguments of op. Z counts in two digits: the kind of the call
// that the argument makes, and how many more the argument of that call makes.
func (op Op) vars(kinds []string, call func(Op)) []interface{} {
	if !op.V {
		return nil
	}
	if op.Z == 0 {
		return []interface{}{op.N}
	}
	a := argument{n: op.N}
	if call != nil {
		x := op
		x.A = append([]string(nil), op.A...)
		x.Z, x.V = 0, false
		x.K = kinds[op.Z%100%len(kinds)]
		if x.K == "adddom" {
			x.A[0] = "nosuch"
		}
		if x.K == "actual" {
			x.A[0] = x.A[2]
		}
		if op.Z >= 100 {
			x.K = nestLook[op.Z%4]
			x.Z, x.V = op.Z-100+7, true
		}
		x.D = op.Z%3 > 0
		a.call = func() {
			rt.Count("nested-call")
			rt.Y(-1)
			call(x)
		}
	}
	return []interface{}{a}
}

// nested returns what executes and records the calls that arguments make.
func (e *Env) nested(exec func(op Op, num int) *Rec) func(Op) {
	num := 9000000
	return func(op Op) {
		num++
		r := exec(op, num)
		r.Snap = nil
		e.sub = append(e.sub, r)
	}
}

// takeNested returns the calls that arguments made, and whether all went well.
func (e *Env) takeNested() ([]*Rec, bool) {
	for _, r := range e.sub {
		e.log = append(e.log, r.String())
		if r.Panic != "" {
			e.R.fail("panic", "panic in %s: %s", r.Op, r.Panic)
		}
	}
	return e.sub, e.R.Viol == ""
}

// nest makes the formatting arguments of the clients' lookups call.
func (g *Rng) nest(p *Plan) {
	for _, t := range append([][]Op{p.Init}, p.Tasks...) {
		for i := range t {
			switch t[i].K {
			case "get", "getn", "getc", "getnc", "app", "appn", "appc", "appnc":
				if g.p(60) {
					t[i].V, t[i].Z = true, 1+g.n(99)+100*g.weightedInt("0:4 1:2 2:1")
				}
			}
		}
	}
}

func init() {
	lk, wr := mixLookup, mixWrite
	register(&Scenario{Name: "nest-cat",
		Gen: func(g *Rng, p *Plan) {
			p.P["lazy"] = 1
			genCatPlan(g, p, g.rng(1, 2), 3, 5, []string{lk, wr, lk + wr})
			g.nest(p)
		},
		Run: func(e *Env) { runCat(e, true) }})
	register(&Scenario{Name: "nest-loc",
		Gen: func(g *Rng, p *Plan) {
			p.P["lazy"] = 1
			genLocPlan(g, p, "lin")
			g.nest(p)
		},
		Run: func(e *Env) { runLocale(e, "lin") }})
	register(&Scenario{Name: "nest-pkg",
		Gen: func(g *Rng, p *Plan) {
			p.P["lazy"] = 1
			how := g.s1("reconf", "fallback")
			genPkgPlan(g, p, how)
			p.P["fallback"] = b2i(how == "fallback")
			g.nest(p)
		},
		Run: func(e *Env) { runPkg(e, []string{"reconf", "fallback"}[e.P.P["fallback"]]) }})
}

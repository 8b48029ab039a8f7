package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	rt "github.com/leonelquinteros/gotext/vsimrt"
)

var tempN int
var tempMu sync.Mutex

// mkTemp makes a scratch directory. (The random numbers behind os.MkdirTemp
// are constant in a simulator build.)
func mkTemp() (string, error) {
	tempMu.Lock()
	defer tempMu.Unlock()
	for {
		tempN++
		d := filepath.Join(os.TempDir(), fmt.Sprintf("vsim-%d-%d-%d", os.Getpid(), time.Now().UnixNano(), tempN))
		err := os.Mkdir(d, 0o700)
		if err == nil || !os.IsExist(err) {
			return d, err
		}
	}
}

// minimise shrinks the plan, the schedule and the faults of rep while the same
// class of violation persists, each candidate in a fresh process.
func minimise(rep *Replay, deadline time.Time) {
	ops0 := countOps(rep.Plan)
	sched0, flt0 := countSched(rep)
	tried := 0
	cap := 10 * time.Second
	if rep.Class == "hang" {
		rep.Minimised = "not minimised (endless loop)"
		return
	}
	// good evaluates candidates in parallel and adopts the first that still fails.
	good := func(cands []*Replay) bool {
		for len(cands) > 0 {
			if time.Now().After(deadline) {
				return false
			}
			n := 8
			if n > len(cands) {
				n = len(cands)
			}
			res := make([]*Result, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func(i int) { defer wg.Done(); res[i] = attempt(cands[i], cap) }(i)
			}
			wg.Wait()
			tried += n
			for i := 0; i < n; i++ {
				if res[i].Viol != "" && res[i].Class == rep.Class {
					before := rep.Before
					*rep = *cands[i]
					rep.Before = before
					rep.Violation, rep.Report = res[i].Viol, res[i].Report
					return true
				}
			}
			cands = cands[n:]
		}
		return false
	}
	for round := 0; round < 6; round++ {
		progress := false
		// programs
		for {
			cands := planCands(rep)
			// first big chunks, then single steps
			if !good(cands) {
				break
			}
			progress = true
		}
		if !rep.Free {
			// freeze the executed schedule, then shrink it
			if r := attempt(rep, cap); r.Viol != "" && r.Class == rep.Class && r.Sched != nil {
				rep.Sched, rep.Choices = trimStages(r.Sched), r.Choices
			}
			for {
				if !good(faultCands(rep)) {
					break
				}
				progress = true
			}
			for {
				if !good(schedCands(rep)) {
					break
				}
				progress = true
			}
		}
		if !progress || time.Now().After(deadline) {
			break
		}
	}
	s1, f1 := countSched(rep)
	rep.Minimised = fmt.Sprintf("minimised: %d -> %d calls, %d -> %d scheduling decisions, %d -> %d injected choices (%d candidates tried)", ops0, countOps(rep.Plan), sched0, s1, flt0, f1, tried)
}

func countOps(p *Plan) int {
	n := len(p.Init) + len(p.Post)
	for _, t := range p.Tasks {
		n += len(t)
	}
	return n
}

func countSched(r *Replay) (s, f int) {
	for _, l := range r.Sched {
		s += len(l)
	}
	for _, l := range r.Choices {
		for _, c := range l {
			if c != 0 {
				f++
			}
		}
	}
	return
}

func with(rep *Replay, f func(r *Replay)) *Replay {
	c := *rep
	c.Plan = rep.Plan.clone()
	c.Report = ""
	f(&c)
	return &c
}

func cutOps(l []Op, a, b int) []Op {
	return append(append([]Op(nil), l[:a]...), l[b:]...)
}

func planCands(rep *Replay) []*Replay {
	var out []*Replay
	p := rep.Plan
	lists := func(q *Plan) []*[]Op {
		l := []*[]Op{&q.Init, &q.Post}
		for i := range q.Tasks {
			l = append(l, &q.Tasks[i])
		}
		return l
	}
	for size := 16; size >= 1; size /= 2 {
		for li, lp := range lists(p) {
			n := len(*lp)
			if size > n {
				continue
			}
			for at := 0; at+size <= n; at += size {
				li, at, size := li, at, size
				out = append(out, with(rep, func(r *Replay) {
					l := lists(r.Plan)[li]
					*l = cutOps(*l, at, at+size)
				}))
			}
		}
	}
	for size := 4; size >= 1; size /= 2 {
		for at := 0; at+size <= len(p.Dmg); at += size {
			at, size := at, size
			out = append(out, with(rep, func(r *Replay) {
				e := r.Plan.Dmg
				r.Plan.Dmg = append(append([]Dmg(nil), e[:at]...), e[at+size:]...)
			}))
		}
		for at := 0; at+size <= len(p.Strs); at += size {
			at, size := at, size
			out = append(out, with(rep, func(r *Replay) {
				e := r.Plan.Strs
				r.Plan.Strs = append(append([]string(nil), e[:at]...), e[at+size:]...)
			}))
		}
	}
	for d := range p.Docs {
		for f := 1; f < fEnd; f <<= 1 {
			if d, f := d, f; p.Docs[d].Feat&f != 0 && f != fNoHeader {
				out = append(out, with(rep, func(r *Replay) { r.Plan.Docs[d].Feat &^= f }))
			}
		}
		if m := p.Docs[d].Mass; m > 0 {
			d := d
			for _, less := range []int{0, m / 8, m / 2, m - m/8, m - 1} {
				less := less
				out = append(out, with(rep, func(r *Replay) { r.Plan.Docs[d].Mass = less }))
			}
		}
		n := len(p.Docs[d].Ents)
		for size := 4; size >= 1; size /= 2 {
			for at := 0; at+size <= n && n > 0; at += size {
				d, at, size := d, at, size
				out = append(out, with(rep, func(r *Replay) {
					e := r.Plan.Docs[d].Ents
					r.Plan.Docs[d].Ents = append(append([]Ent(nil), e[:at]...), e[at+size:]...)
				}))
			}
		}
	}
	if p.Faults != (rt.Faults{}) && rep.Free {
		out = append(out, with(rep, func(r *Replay) { r.Plan.Faults = rt.Faults{} }))
	}
	return out
}

func faultCands(rep *Replay) []*Replay {
	var out []*Replay
	for st := range rep.Choices {
		for size := len(rep.Choices[st]); size >= 1; size /= 2 {
			for at := 0; at < len(rep.Choices[st]); at += size {
				any := false
				for i := at; i < at+size && i < len(rep.Choices[st]); i++ {
					any = any || rep.Choices[st][i] != 0
				}
				if !any {
					continue
				}
				st, at, size := st, at, size
				out = append(out, with(rep, func(r *Replay) {
					r.Choices = append([][]int32(nil), r.Choices...)
					l := append([]int32(nil), r.Choices[st]...)
					for i := at; i < at+size && i < len(l); i++ {
						l[i] = 0
					}
					r.Choices[st] = l
				}))
				if len(out) > 400 {
					return out
				}
			}
		}
	}
	return out
}

func schedCands(rep *Replay) []*Replay {
	var out []*Replay
	for st := range rep.Sched {
		n := len(rep.Sched[st])
		for size := n; size >= 1; size /= 2 {
			for at := 0; at+size <= n; at += size {
				st, at, size := st, at, size
				out = append(out, with(rep, func(r *Replay) {
					r.Sched = append([][][2]int32(nil), r.Sched...)
					l := r.Sched[st]
					r.Sched[st] = append(append([][2]int32(nil), l[:at]...), l[at+size:]...)
				}))
				if len(out) > 600 {
					return out
				}
			}
		}
	}
	return out
}

// trimStages merges neighbouring decisions for the same task.
func trimStages(s [][][2]int32) [][][2]int32 {
	out := make([][][2]int32, len(s))
	for i, l := range s {
		out[i] = append([][2]int32(nil), l...)
	}
	return out
}

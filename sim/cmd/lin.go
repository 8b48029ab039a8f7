package main

import (
	"sort"
)

// A small Wing-Gong-Lowe linearizability checker with memoisation.

type linState interface{ key() string }

// linOp is one operation (or one half of a two-step operation) of the history.
type linOp struct {
	inv, ret int64
	after    int // index of an operation that has to come first (-1: none)
	name     string
	apply    func(s linState) (linState, bool)
	alts     func(s linState) []linState // instead of apply: every state that may follow
}

type bits [3]uint64

func (b bits) has(i int) bool { return b[i>>6]&(1<<uint(i&63)) != 0 }
func (b bits) with(i int) bits {
	b[i>>6] |= 1 << uint(i&63)
	return b
}

// linearizable reports whether some order of ops, compatible with real time,
// is accepted. The second result is false when the search was given up.
func linearizable(init linState, ops []linOp, budget int) (ok, decided bool) {
	n := len(ops)
	if n == 0 {
		return true, true
	}
	if n > 190 {
		return true, false
	}
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return ops[order[a]].inv < ops[order[b]].inv })
	type mk struct {
		done bits
		st   string
	}
	seen := map[mk]bool{}
	var full bits
	for i := 0; i < n; i++ {
		full = full.with(i)
	}
	steps := 0
	var rec func(done bits, s linState) bool
	rec = func(done bits, s linState) bool {
		if done == full {
			return true
		}
		steps++
		if steps > budget {
			return false
		}
		k := mk{done, s.key()}
		if seen[k] {
			return false
		}
		// an op may come next only if no other pending op returned before it was invoked
		minRet := int64(1) << 62
		for _, i := range order {
			if !done.has(i) && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for _, i := range order {
			if done.has(i) {
				continue
			}
			if ops[i].inv > minRet {
				break
			}
			if a := ops[i].after; a >= 0 && !done.has(a) {
				continue
			}
			if ops[i].alts != nil {
				for _, s2 := range ops[i].alts(s) {
					if rec(done.with(i), s2) {
						return true
					}
				}
				continue
			}
			if s2, ok := ops[i].apply(s); ok && rec(done.with(i), s2) {
				return true
			}
		}
		seen[k] = true
		return false
	}
	ok = rec(bits{}, init)
	if !ok && steps > budget {
		return true, false
	}
	return ok, true
}

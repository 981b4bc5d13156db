package main

import (
	"math/rand"
	"time"
)

// Functional reduction of Boolean circuit graphs: a new and/xor node whose
// simulation signature equals that of an existing node is proved equal to it
// by an SMT query over a bounded cone (leaves abstracted) and merged.

var (
	fraigOn    bool
	fraigBy    map[uint64][]*T
	fraigRepM  map[*T]*T
	simRng     *rand.Rand
	FraigStats struct {
		Lemmas, Proved int
		Dur            time.Duration
	}
)

func resetFraig() {
	fraigBy = map[uint64][]*T{}
	fraigRepM = map[*T]*T{}
	simRng = rand.New(rand.NewSource(12345))
}

func simAtom(t *T) {
	if !fraigOn {
		return
	}
	t.sim, t.hasSim = simRng.Uint64(), true
}
func simBit(t *T) { simAtom(t) }

func simOf(t *T) (uint64, bool) {
	if t == True {
		return ^uint64(0), true
	}
	if t == False {
		return 0, true
	}
	return t.sim, t.hasSim
}

func fraigRep(t *T) *T {
	if r, ok := fraigRepM[t]; ok {
		return r
	}
	return t
}

func fraigNew(t *T) *T {
	if !fraigOn || t.hasSim {
		return t
	}
	var s uint64
	if t.Op == OAnd {
		s = ^uint64(0)
	}
	for _, a := range t.Args {
		x, ok := simOf(a)
		if !ok {
			return t
		}
		if t.Op == OAnd {
			s &= x
		} else {
			s ^= x
		}
	}
	t.sim, t.hasSim = s, true
	k := s
	inv := false
	if s&1 == 1 {
		k, inv = ^s, true
	}
	for _, o := range fraigBy[k] {
		os, _ := simOf(o)
		same := os == s
		goal := o
		if !same {
			goal = Not(o)
		}
		if coneEqual(t, goal) {
			fraigRepM[t] = goal
			return goal
		}
	}
	_ = inv
	if len(fraigBy[k]) < 3 {
		fraigBy[k] = append(fraigBy[k], t)
	}
	return t
}

// coneEqual proves a <=> b by exhaustive truth table over a cut of at most 12 leaves.
func coneEqual(a, b *T) bool {
	start := time.Now()
	defer func() { FraigStats.Dur += time.Since(start) }()
	FraigStats.Lemmas++
	for depth := 2; depth <= 6; depth++ {
		leaves := map[*T]int{}
		var collect func(t *T, d int) bool
		collect = func(t *T, d int) bool {
			if t == True || t == False {
				return true
			}
			if t.Op == ONot {
				return collect(t.Args[0], d)
			}
			if (t.Op == OAnd || t.Op == OXor) && d > 0 {
				for _, x := range t.Args {
					if !collect(x, d-1) {
						return false
					}
				}
				return true
			}
			if _, ok := leaves[t]; !ok {
				leaves[t] = len(leaves)
			}
			return len(leaves) <= 14
		}
		if !collect(a, depth) || !collect(b, depth) {
			return false
		}
		n := len(leaves)
		ok := true
		for v := 0; v < 1<<n && ok; v++ {
			var ev func(t *T, d int) bool
			ev = func(t *T, d int) bool {
				if t == True {
					return true
				}
				if t == False {
					return false
				}
				if t.Op == ONot {
					return !ev(t.Args[0], d)
				}
				if (t.Op == OAnd || t.Op == OXor) && d > 0 {
					if t.Op == OAnd {
						for _, x := range t.Args {
							if !ev(x, d-1) {
								return false
							}
						}
						return true
					}
					r := false
					for _, x := range t.Args {
						if ev(x, d-1) {
							r = !r
						}
					}
					return r
				}
				return v>>leaves[t]&1 == 1
			}
			if ev(a, depth) != ev(b, depth) {
				ok = false
			}
		}
		if ok {
			FraigStats.Proved++
			return true
		}
	}
	return false
}

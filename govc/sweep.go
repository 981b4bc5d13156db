package main

// Term sweeping: subterms that agree on random valuations are proved equal one
// by one, innermost first, and merged.  A proof abstracts the largest subterms
// the two sides share by fresh variables of the same range, so each query stays
// small however deep the terms are.  Every merge is unconditional (it uses the
// declared ranges of the variables only).

import (
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

var sweepMax = 400000

type sweeper struct {
	rep      map[*T]*T
	memo     map[*T]*T
	budget   int
	deadline time.Time
	asked    int
	proved   int
	cache    map[[32]byte]bool
	cut      map[*T]*T
}

// nodesOf lists the distinct subterms, children first
func nodesOf(ts []*T) []*T {
	seen := map[*T]bool{}
	var out []*T
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		out = append(out, t)
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

func hasOp(ns []*T, ops ...Op) bool {
	for _, t := range ns {
		for _, o := range ops {
			if t.Op == o {
				return true
			}
		}
	}
	return false
}

// sweep rewrites the terms of ts modulo proved equalities.
func sweep(ts []*T, hint []*T, dur time.Duration) (out []*T, merged int, ok bool) {
	nodes := nodesOf(ts)
	if len(nodes) > sweepMax || hasOp(nodes, OForall, OEqA, OIteA, OSelect, OStore) {
		return ts, 0, false
	}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(outOfBudget); !is {
				panic(e)
			}
			out, ok = ts, false
		}
	}()
	K := 384
	if len(nodes) > 30000 {
		K = 128
	}
	vals, sok := simulate(nodes, K, picker(false))
	if !sok {
		return ts, 0, false
	}
	sig := make(map[*T]string, len(nodes))
	for _, t := range nodes {
		sig[t] = vals[t].sig(t.Sort)
	}
	for _, c := range []*T{Zero, One, True, False} {
		v := &vec{i: make([]int64, K)}
		for k := range v.i {
			v.i[k] = c.C.Int64()
		}
		sig[c] = v.sig(c.Sort)
	}
	vals = nil
	s := &sweeper{rep: map[*T]*T{}, memo: map[*T]*T{}, budget: 20_000_000, deadline: time.Now().Add(dur), cache: map[[32]byte]bool{}, cut: map[*T]*T{}}
	classes := map[string][]*T{}
	for _, c := range []*T{Zero, One, True, False} {
		classes[sig[c]] = append(classes[sig[c]], c)
	}
	sort.SliceStable(nodes, func(a, b int) bool { return false })
	for _, t := range nodes {
		if t.Op == OConst {
			continue
		}
		r := s.rebuild(t)
		cl := classes[sig[t]]
		done := r.Op == OConst
		for _, c := range cl {
			if c == r {
				done = true
			}
		}
		if !done && t.Op != OVar {
			tries := 0
			for _, c := range cl {
				if tries++; tries > 3 {
					break
				}
				t1 := time.Now()
				eq := s.equal(r, c)
				if d := time.Since(t1); os.Getenv("GOVC_SWEEP") != "" && d > 50*time.Millisecond {
					fmt.Println("pair", eq, d.Milliseconds(), "ms", shallow(r, 3), "=?", shallow(c, 3))
				}
				if eq {
					s.rep[t] = c
					merged++
					done = true
					break
				}
			}
		}
		if !done && r.Op != OConst {
			classes[sig[t]] = append(cl, r)
		}
	}
	out = make([]*T, len(ts))
	for i, t := range ts {
		out[i] = s.rebuild(t)
	}
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Println("sweep", len(nodes), "nodes", s.asked, "asked", s.proved, "proved", merged, "merged", "time left", time.Until(s.deadline))
	}
	return out, merged, true
}

func (s *sweeper) rebuild(t *T) *T {
	if r, ok := s.rep[t]; ok {
		return r
	}
	return subst(t, s.rep, s.memo, &s.budget)
}

// equal proves a = b by cutting at shared subterms, refining the cut a few times
func (s *sweeper) equal(a, b *T) bool {
	if time.Now().After(s.deadline) {
		return false
	}
	goal := Eq(a, b)
	if a.Sort == SBool {
		goal = Not(Xor(a, b))
	}
	if goal == True {
		return true
	}
	if goal == False {
		return false
	}
	in := map[*T]int{}
	for _, n := range nodesOf([]*T{a}) {
		in[n] |= 1
	}
	nb := nodesOf([]*T{b})
	for _, n := range nb {
		in[n] |= 2
	}
	level := map[*T]bool{} // expanded nodes
	prev := ""
	for round := 0; round < 5; round++ {
		cuts := map[*T]*T{}
		seen := map[*T]bool{}
		var frontier []*T
		size := 0
		var walk func(t *T)
		walk = func(t *T) {
			if seen[t] || t.Op == OConst {
				return
			}
			seen[t] = true
			size++
			if t.Op != OVar && in[t] == 3 && !level[t] && (round == 0 || t.Op == OIte || t.Op == OMul) {
				cuts[t] = s.cutVar(t)
				frontier = append(frontier, t)
				return
			}
			for _, x := range t.Args {
				walk(x)
			}
		}
		walk(a)
		walk(b)
		if size > 1500 {
			return false
		}
		budget := 200000
		memo := map[*T]*T{}
		x, y := subst(a, cuts, memo, &budget), subst(b, cuts, memo, &budget)
		g := Eq(x, y)
		if a.Sort == SBool {
			g = Not(Xor(x, y))
		}
		if g == True {
			s.proved++
			return true
		}
		if g != False && s.agree(x, y) {
			script, _ := Script(nil, g, nil)
			if script != prev {
				prev = script
				if s.ask(script) {
					s.proved++
					return true
				}
			}
		}
		if len(frontier) == 0 {
			return false
		}
		if round > 0 {
			for _, f := range frontier {
				level[f] = true
			}
		}
	}
	return false
}

func (s *sweeper) ask(script string) bool {
	k := sha256.Sum256([]byte(script))
	if v, ok := s.cache[k]; ok {
		return v
	}
	s.asked++
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), 6*time.Second)
	defer cancel()
	out, _ := runSolver(ctx, "z3", []string{"z3-new", "-in", "-T:3"}, script)
	v := strings.HasPrefix(strings.TrimSpace(out), "unsat")
	s.cache[k] = v
	if os.Getenv("GOVC_SWEEP") != "" {
		f := strings.TrimSpace(out)
		fmt.Println("ask", len(script), trunc(f, 8), time.Since(t0).Milliseconds(), "ms")
		if !v {
			os.WriteFile("/tmp/w/sweep.smt2", []byte(script), 0o644)
		}
	}
	return v
}

func (s *sweeper) cutVar(t *T) *T {
	if v, ok := s.cut[t]; ok {
		return v
	}
	var v *T
	if t.Sort == SBool {
		v = FreshBool("cut")
	} else {
		v = FreshInt("cut", t.lo, t.hi)
	}
	s.cut[t] = v
	return v
}

// agree: the two terms take the same value on random valuations of their variables
func (s *sweeper) agree(a, b *T) bool {
	ns := nodesOf([]*T{a, b})
	v, ok := simulate(ns, 64, picker(true))
	if !ok {
		return true
	}
	for k := 0; k < 64; k++ {
		if v[a].big(k).Cmp(v[b].big(k)) != 0 {
			return false
		}
	}
	return true
}

// picker chooses the valuations: uniform ones, and ones biased to the ends of
// the range and to the digits that RLP prefixes branch on
func picker(current bool) func(t *T, k int) *big.Int {
	rng := rand.New(rand.NewSource(7))
	return func(t *T, k int) *big.Int {
		lo, hi := declLo[t], declHi[t]
		if current {
			lo, hi = t.lo, t.hi
		}
		if t.Sort == SBool {
			return big.NewInt(rng.Int63n(2))
		}
		if lo == nil || hi == nil {
			return big.NewInt(rng.Int63n(1<<40) - 1<<39)
		}
		d := new(big.Int).Sub(hi, lo)
		d.Add(d, b1)
		v := new(big.Int).Rand(rng, d)
		switch {
		case rng.Intn(4) == 0 && d.Cmp(big.NewInt(64)) > 0:
			v = big.NewInt(rng.Int63n(64))
		case rng.Intn(8) == 0:
			v = new(big.Int)
		case rng.Intn(8) == 0:
			v = new(big.Int).Sub(d, b1)
		case k%2 == 1 && d.Cmp(big.NewInt(16)) == 0:
			v = big.NewInt([]int64{15, 11, 8, 12, 15, 7, 1, 0}[rng.Intn(8)])
		}
		return v.Add(v, lo)
	}
}

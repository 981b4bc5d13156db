package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"sync"
	"time"
)

// free symbols of a term (variables and uninterpreted functions)
var fvMemo map[*T]map[*T]bool

func syms(t *T, seen map[*T]bool, out map[*T]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == OVar {
		out[t] = true
	}
	for _, a := range t.Args {
		syms(a, seen, out)
	}
}

// slice keeps the hypotheses connected to goal through shared variables.
func slice(hyps []*T, goals ...*T) []*T {
	type hs struct {
		t  *T
		vs map[*T]bool
		in bool
	}
	if fvMemo == nil {
		fvMemo = map[*T]map[*T]bool{}
	}
	fv := func(t *T) map[*T]bool {
		if m, ok := fvMemo[t]; ok {
			return m
		}
		m := map[*T]bool{}
		syms(t, map[*T]bool{}, m)
		fvMemo[t] = m
		return m
	}
	cur := map[*T]bool{}
	var todo []*T
	push := func(m map[*T]bool) {
		for v := range m {
			if !cur[v] {
				cur[v] = true
				todo = append(todo, v)
			}
		}
	}
	for _, g := range goals {
		push(fv(g))
	}
	by := map[*T][]*hs{}
	var all []*hs
	seen := map[*T]bool{}
	for _, h := range hyps {
		if h == True || seen[h] {
			continue
		}
		seen[h] = true
		x := &hs{t: h, vs: fv(h)}
		all = append(all, x)
		for v := range x.vs {
			by[v] = append(by[v], x)
		}
		if len(x.vs) == 0 {
			x.in = true
		}
	}
	for len(todo) > 0 {
		v := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, x := range by[v] {
			if !x.in {
				x.in = true
				push(x.vs)
			}
		}
	}
	var out []*T
	for _, x := range all {
		if x.in {
			out = append(out, x.t)
		}
	}
	return out
}

type OblRes struct {
	Name    string            `json:"name"`
	Kind    string            `json:"kind"`
	Pos     string            `json:"pos"`
	Verdict string            `json:"verdict"` // discharged, failed, undecided
	Solver  string            `json:"solver"`
	Ms      int64             `json:"ms"`
	Raw     string            `json:"raw,omitempty"`
	Model   map[string]string `json:"model,omitempty"`
	goal    *T
}

var solverPar = 2

// discharge decides every obligation.
func discharge(obls []Obligation, tmo time.Duration) []OblRes {
	res := make([]OblRes, len(obls))
	// ranges narrowed by constraints during execution hold only under those
	// constraints: decide the obligations from the declared ranges
	for v, hi := range declHi {
		v.lo, v.hi = declLo[v], hi
	}
	sweepAll(obls, res, tmo)
	type group struct {
		idx []int
	}
	var groups []*group
	byKey := map[string]*group{}
	for i, o := range obls {
		sw := res[i].Solver
		res[i] = OblRes{Name: o.Name, Kind: o.Kind, Pos: o.Pos, goal: o.Goal}
		if sw != "" {
			res[i].Verdict, res[i].Solver = "discharged", sw
			continue
		}
		if o.Goal == True {
			res[i].Verdict, res[i].Solver = "discharged", "normaliser"
			continue
		}
		if os.Getenv("GOVC_GOALS") != "" {
			fmt.Println("GOAL", o.Name, trunc(o.Goal.String(), 300000))
			for _, h := range o.Hyps {
				fmt.Println("  HYP", trunc(h.String(), 200))
			}
			if g := o.Goal; len(g.Args) > 0 {
				fmt.Println("  TOP", shallow(g, 9))
			}
		}
		hit := false
		for _, h := range o.Hyps {
			if h == o.Goal || h == False {
				hit = true
			}
		}
		if hit {
			res[i].Verdict, res[i].Solver = "discharged", "normaliser"
			continue
		}
		if splitSmall(o.Hyps, o.Goal) {
			res[i].Verdict, res[i].Solver = "discharged", "normaliser+casesplit"
			continue
		}
		if digitProof(o.Hyps, o.Goal) {
			res[i].Verdict, res[i].Solver = "discharged", "normaliser+digits"
			continue
		}
		k := fmt.Sprintf("%s/%d", o.Kind, len(o.Hyps))
		if o.Kind != "postcondition" && o.Kind != "soundness" {
			k = fmt.Sprintf("u%d", i)
		}
		g := byKey[k]
		if g == nil || len(g.idx) >= 24 || (len(o.Hyps) > 0 && obls[g.idx[0]].Hyps[0] != o.Hyps[0]) {
			g = &group{}
			byKey[k] = g
			groups = append(groups, g)
		}
		g.idx = append(g.idx, i)
	}
	var keep []*group
	for _, g := range groups {
		if len(g.idx) < 2 || obls[g.idx[0]].Kind == "safety" {
			keep = append(keep, g)
			continue
		}
		var gs []*T
		for _, i := range g.idx {
			gs = append(gs, obls[i].Goal)
		}
		var rest []int
		for k, ok := range splitBits(gs) {
			if ok {
				res[g.idx[k]].Verdict, res[g.idx[k]].Solver = "discharged", "normaliser+casesplit"
			} else {
				rest = append(rest, g.idx[k])
			}
		}
		if len(rest) > 0 {
			keep = append(keep, &group{idx: rest})
		}
	}
	groups = keep
	cache := map[[32]byte]SolveRes{}
	var mu sync.Mutex
	ask := func(hyps []*T, goal *T, sl bool, t time.Duration) func() SolveRes {
		h := hyps
		if sl {
			h = slice(hyps, goal)
		}
		script, vars := Script(h, goal, axiomTerms(h, goal))
		k := sha256.Sum256([]byte(script))
		return func() SolveRes {
			mu.Lock()
			r, ok := cache[k]
			mu.Unlock()
			if ok {
				return r
			}
			r = solveScript(script, vars, t)
			mu.Lock()
			cache[k] = r
			mu.Unlock()
			return r
		}
	}
	keep = nil
	for _, g := range groups {
		var gs []*T
		for _, i := range g.idx {
			gs = append(gs, obls[i].Goal)
		}
		if obls[g.idx[0]].Kind != "postcondition" || dagSize(gs) < 250 {
			keep = append(keep, g)
			continue
		}
		h := slice(obls[g.idx[0]].Hyps, gs...)
		if ab, ok := abstractApps(append(append([]*T{}, h...), gs...)); ok {
			h, gs = ab[:len(h)], ab[len(h):]
		}
		t0 := time.Now()
		ok := splitEq(h, gs, func(h []*T, goal *T) bool {
			h = slice(h, goal)
			if goal == False {
				h = slice0(h)
			}
			return ask(h, goal, false, tmo)().Verdict == "unsat"
		})
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Println("splitEq", len(gs), dagSize(gs), time.Since(t0), ok)
		}
		var rest []int
		for k, o := range ok {
			if o {
				res[g.idx[k]].Verdict, res[g.idx[k]].Solver = "discharged", "casesplit+z3"
			} else {
				rest = append(rest, g.idx[k])
			}
		}
		if len(rest) > 0 {
			keep = append(keep, &group{idx: rest})
		}
	}
	groups = keep
	sem := make(chan struct{}, solverPar)
	var wg sync.WaitGroup
	set := func(i int, r SolveRes, d time.Duration) {
		res[i].Solver, res[i].Ms = r.Solver, d.Milliseconds()
		switch r.Verdict {
		case "unsat":
			res[i].Verdict = "discharged"
		case "sat":
			res[i].Verdict = "failed"
			res[i].Model = map[string]string{}
			for k, v := range r.Model {
				res[i].Model[k] = v.String()
			}
			res[i].Raw = trunc(r.Raw, 1500)
		default:
			res[i].Verdict = "undecided"
			res[i].Raw = trunc(r.Raw, 1500)
		}
	}
	var retry []int
	var rm sync.Mutex
	for _, g := range groups {
		var gs []*T
		for _, i := range g.idx {
			gs = append(gs, obls[i].Goal)
		}
		hy := obls[g.idx[0]].Hyps
		abstracted := false
		if sh := slice(hy, gs...); len(sh) >= 0 {
			if ab, ok := abstractApps(append(append([]*T{}, sh...), gs...)); ok {
				hy, gs = ab[:len(sh)], ab[len(sh):]
				abstracted = true
			}
		}
		f := ask(hy, And(gs...), true, tmo)
		wg.Add(1)
		sem <- struct{}{}
		go func(g *group) {
			defer func() { <-sem; wg.Done() }()
			r := f()
			if r.Verdict == "unsat" {
				for k, i := range g.idx {
					d := r.Dur
					if k > 0 {
						d = 0
					}
					set(i, r, d)
				}
				return
			}
			if !abstracted && len(g.idx) == 1 && r.Verdict == "sat" && len(slice0(obls[g.idx[0]].Hyps)) == 0 {
				set(g.idx[0], r, r.Dur)
				return
			}
			rm.Lock()
			retry = append(retry, g.idx...)
			rm.Unlock()
		}(g)
	}
	wg.Wait()
	fails := 0
	for _, i := range retry {
		if fails >= 6 { // enough failures to report; the rest stays undecided
			res[i].Verdict = "undecided"
			res[i].Raw = "not attempted after earlier failures in this function"
			continue
		}
		r := ask(obls[i].Hyps, obls[i].Goal, true, tmo)()
		if r.Verdict == "sat" {
			r2 := ask(obls[i].Hyps, obls[i].Goal, false, tmo)()
			if r2.Verdict != "unknown" {
				r = r2
			}
		}
		set(i, r, r.Dur)
		if r.Verdict != "unsat" {
			fails++
			if os.Getenv("GOVC_DUMP") != "" {
				os.WriteFile(fmt.Sprintf("/tmp/govc_fail_%d.smt2", i), []byte(r.Script), 0o644)
			}
		}
	}
	return res
}

func slice0(h []*T) []*T {
	var o []*T
	for _, t := range h {
		if t != True {
			o = append(o, t)
		}
	}
	return o
}

func axiomTerms(h []*T, goal *T) []string { return nil }

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// shallow: the term printed to depth d
func shallow(t *T, d int) string {
	if t.Op == OConst || t.Op == OVar || d == 0 {
		if d == 0 && len(t.Args) > 0 {
			return fmt.Sprintf("#%d:%d[%v,%v]", t.id, t.Op, t.lo, t.hi)
		}
		return t.String()
	}
	s := fmt.Sprintf("(%d:%v#%d[%v,%v]", t.Op, t.C, t.id, t.lo, t.hi)
	for i, a := range t.Args {
		if i > 5 {
			s += fmt.Sprintf(" ..%d", len(t.Args))
			break
		}
		if t.Op == OLin {
			s += " " + t.Coef[i].String() + "*"
		}
		s += " " + shallow(a, d-1)
	}
	return s + ")"
}

// sweepAll merges provably equal subterms across the obligations that the
// normaliser leaves open, and marks those it closes.
func sweepAll(obls []Obligation, res []OblRes, tmo time.Duration) {
	var ts []*T
	type slot struct{ o, h int }
	var at []slot
	open := 0
	for i, o := range obls {
		if o.Goal == True {
			continue
		}
		hit := false
		for _, h := range o.Hyps {
			hit = hit || h == o.Goal || h == False
		}
		if hit {
			continue
		}
		open++
		ts = append(ts, o.Goal)
		at = append(at, slot{i, -1})
	}
	if open == 0 || !sweepOn {
		return
	}
	n := len(ts)
	seenH := map[*T]int{}
	for i, o := range obls {
		_ = i
		for _, h := range o.Hyps {
			if _, ok := seenH[h]; !ok {
				seenH[h] = len(ts)
				ts = append(ts, h)
			}
		}
	}
	out, merged, ok := sweep(ts, nil, 4*tmo)
	if !ok || merged == 0 {
		return
	}
	for k := 0; k < n; k++ {
		i := at[k].o
		if out[k] == True {
			res[i].Solver = "sweep+z3"
			continue
		}
		obls[i].Goal = out[k]
		var hs []*T
		for _, h := range obls[i].Hyps {
			h = out[seenH[h]]
			if h != True {
				hs = append(hs, h)
			}
			if h == out[k] {
				res[i].Solver = "sweep+z3"
			}
		}
		obls[i].Hyps = hs
	}
}

var sweepOn = false

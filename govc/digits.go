package main

import (
	"math/big"
	"sort"
)

// digitProof proves an obligation about positional digits: a value written as
// two sums of non-overlapping digits determines the digits.  Every step is a
// change of variable under the hypotheses - a variable is replaced by a fresh
// one of the range the hypotheses give it, or by the sum of its fresh digits,
// or by the variable an equation of aligned digit sums makes it equal to - and
// the normaliser must reduce the goal to true, or a hypothesis to false.
func digitProof(hyps []*T, goal *T) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(outOfBudget); !is {
				panic(e)
			}
			ok = false
		}
	}()
	var hs []*T
	cand := false
	var put func(t *T)
	put = func(t *T) {
		if t.Op == OAnd {
			for _, a := range t.Args {
				put(a)
			}
			return
		}
		if t.Op == OEq0 && t.Args[0].Op == OLin && t.Sort == SBool {
			cand = true
		}
		hs = append(hs, t)
	}
	for _, h := range slice(hyps, goal) {
		put(h)
	}
	if !cand || dagSize(append([]*T{goal}, hs...)) > 6000 {
		return false
	}
	budget := 4000000
	apply := func(m map[*T]*T, extra ...*T) bool {
		memo := map[*T]*T{}
		var nh []*T
		var put func(t *T) bool
		put = func(t *T) bool {
			if t == False {
				return true
			}
			if t.Op == OAnd {
				for _, a := range t.Args {
					if put(a) {
						return true
					}
				}
				return false
			}
			if t != True {
				nh = append(nh, t)
			}
			return false
		}
		for _, h := range append(hs, extra...) {
			if put(subst(h, m, memo, &budget)) {
				return true
			}
		}
		hs = nh
		goal = subst(goal, m, memo, &budget)
		return goal == True
	}
	for round := 0; round < 200; round++ {
		for _, h := range hs {
			if h == goal {
				return true
			}
		}
		m, extra := narrowed(hs)
		if len(m) == 0 {
			m, extra = aligned(hs)
		}
		if len(m) == 0 {
			m, extra = cutDivs(append([]*T{goal}, hs...))
		}
		if len(m) == 0 {
			return false
		}
		if apply(m, extra...) {
			return true
		}
	}
	return false
}

// narrowed replaces variables by fresh ones of the tighter range a hypothesis states.
func narrowed(hs []*T) (map[*T]*T, []*T) {
	m := map[*T]*T{}
	for _, h := range hs {
		if v, ds := oneOf(h); v != nil && !v.bound && m[v] == nil && len(ds) > 0 {
			lo, hi := ds[0], ds[0]
			for _, d := range ds {
				if d.Cmp(lo) < 0 {
					lo = d
				}
				if d.Cmp(hi) > 0 {
					hi = d
				}
			}
			if v.lo != nil && lo.Cmp(v.lo) < 0 || v.hi != nil && hi.Cmp(v.hi) > 0 || v.lo != nil && v.hi != nil && v.lo.Cmp(lo) == 0 && v.hi.Cmp(hi) == 0 {
				continue
			}
			m[v] = FreshInt("n", lo, hi)
			continue
		}
		if h.Op != OLe0 {
			continue
		}
		l := h.Args[0]
		if l.Op != OLin || len(l.Args) != 1 || l.Args[0].Op != OVar || l.Args[0].bound {
			continue
		}
		v := l.Args[0]
		if m[v] != nil {
			continue
		}
		lo, hi := v.lo, v.hi
		switch {
		case l.Coef[0].Cmp(b1) == 0: // v <= -c
			hi = new(big.Int).Neg(l.C)
			if v.hi != nil && v.hi.Cmp(hi) <= 0 {
				continue
			}
		case l.Coef[0].Cmp(bm1) == 0: // v >= c
			lo = new(big.Int).Set(l.C)
			if v.lo != nil && v.lo.Cmp(lo) >= 0 {
				continue
			}
		default:
			continue
		}
		if lo != nil && hi != nil && lo.Cmp(hi) > 0 {
			continue
		}
		m[v] = FreshInt("n", lo, hi)
	}
	return m, nil
}

type digit struct {
	v    *T
	k, n int // position and width
}

// digitSum reads the terms of one sign of l as non-overlapping digits.
func digitSum(l *T, neg bool) ([]digit, bool) {
	var ds []digit
	for i, x := range l.Args {
		c := l.Coef[i]
		if (c.Sign() < 0) != neg {
			continue
		}
		a := new(big.Int).Abs(c)
		k := a.BitLen() - 1
		if a.Cmp(pow2(k)) != 0 || x.Op != OVar || x.bound || x.lo == nil || x.hi == nil || x.lo.Sign() < 0 {
			return nil, false
		}
		ds = append(ds, digit{x, k, x.hi.BitLen()})
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].k < ds[j].k })
	for i := 1; i < len(ds); i++ {
		if ds[i-1].k+ds[i-1].n > ds[i].k {
			return nil, false
		}
	}
	return ds, true
}

// cutVarAt replaces v by the sum of its digits between the cut points.
func cutVarAt(v *T, cuts []int) (*T, []*T) {
	sort.Ints(cuts)
	sum, prev := Zero, 0
	var extra []*T
	put := func(from, to int) {
		hi := new(big.Int).Sub(pow2(to-from), b1)
		sum = Add(sum, MulC(FreshInt("d", b0, hi), pow2(from)))
	}
	for _, c := range cuts {
		if c <= prev || c >= v.hi.BitLen() {
			continue
		}
		put(prev, c)
		prev = c
	}
	if prev == 0 {
		return nil, nil
	}
	top := new(big.Int).Rsh(v.hi, uint(prev))
	sum = Add(sum, MulC(FreshInt("d", b0, top), pow2(prev)))
	if new(big.Int).Add(v.hi, b1).Cmp(pow2(v.hi.BitLen())) != 0 {
		extra = append(extra, Le(sum, CB(v.hi)))
	}
	if v.lo.Sign() > 0 {
		extra = append(extra, Le(CB(v.lo), sum))
	}
	return sum, extra
}

// aligned uses one equation between two digit sums.
func aligned(hs []*T) (map[*T]*T, []*T) {
	for _, h := range hs {
		if h.Op != OEq0 || h.Args[0].Sort != SInt {
			continue
		}
		l := h.Args[0]
		if l.Op == OVar && !l.bound {
			return map[*T]*T{l: Zero}, nil
		}
		if l.Op != OLin || l.C.Sign() != 0 {
			continue
		}
		ps, ok1 := digitSum(l, false)
		ns, ok2 := digitSum(l, true)
		if !ok1 || !ok2 {
			continue
		}
		var all []int
		for _, d := range append(append([]digit{}, ps...), ns...) {
			all = append(all, d.k, d.k+d.n)
		}
		m := map[*T]*T{}
		var extra []*T
		for _, d := range append(append([]digit{}, ps...), ns...) {
			var in []int
			for _, c := range all {
				if c > d.k && c < d.k+d.n {
					in = append(in, c-d.k)
				}
			}
			if len(in) > 0 && m[d.v] == nil {
				s, e := cutVarAt(d.v, in)
				if s != nil {
					m[d.v] = s
					extra = append(extra, e...)
				}
			}
		}
		if len(m) > 0 {
			return m, extra
		}
		at := map[int]*T{}
		for _, d := range ps {
			at[d.k] = d.v
		}
		put := func(a, b *T) {
			if m[a] == nil {
				m[a] = b
			}
		}
		// one substitution at a time keeps them independent
		for _, d := range ns {
			if p := at[d.k]; p != nil {
				if p.hi.Cmp(d.v.hi) < 0 {
					put(d.v, p)
				} else {
					put(p, d.v)
				}
			} else {
				put(d.v, Zero)
			}
			delete(at, d.k)
			break
		}
		if len(m) == 0 {
			for _, p := range at {
				put(p, Zero)
				break
			}
		}
		if len(m) > 0 {
			for a, b := range m { // keep the range of the variable that goes
				if b.IsConst() {
					if a.lo.Sign() > 0 {
						extra = append(extra, False)
					}
				} else {
					extra = append(extra, Le(b, CB(a.hi)), Le(CB(a.lo), b))
				}
			}
			return m, extra
		}
	}
	return nil, nil
}

// cutDivs splits one variable at the powers of two it is divided by.
func cutDivs(ts []*T) (map[*T]*T, []*T) {
	cuts := map[*T][]int{}
	var order []*T
	add := func(v *T, k int) {
		if v.Op != OVar || v.bound || v.lo == nil || v.hi == nil || v.lo.Sign() < 0 || k <= 0 || k >= v.hi.BitLen() {
			return
		}
		if cuts[v] == nil {
			order = append(order, v)
		}
		cuts[v] = append(cuts[v], k)
	}
	seen := map[*T]bool{}
	var w func(t *T)
	w = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case ODiv, OMod:
			k := t.C.BitLen() - 1
			if t.C.Cmp(pow2(k)) == 0 {
				a := t.Args[0]
				if t.Op == OMod && a.Op == ODiv {
					if j := a.C.BitLen() - 1; a.C.Cmp(pow2(j)) == 0 {
						add(a.Args[0], j+k)
					}
				}
				add(a, k)
			}
		case OBit:
			add(t.Args[0], t.I)
			add(t.Args[0], t.I+1)
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
	for _, v := range order {
		if s, e := cutVarAt(v, cuts[v]); s != nil {
			return map[*T]*T{v: s}, e
		}
	}
	return nil, nil
}

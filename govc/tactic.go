package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"time"
)

// subst rebuilds t with the variables of m replaced; every node is re-normalised.
func subst(t *T, m map[*T]*T, memo map[*T]*T, budget *int) *T {
	if r, ok := m[t]; ok {
		return r
	}
	if t.Op == OConst || t.Op == OVar {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	*budget -= 1 + len(t.Args)
	if *budget < 0 {
		panic(outOfBudget{})
	}
	var r *T
	switch t.Op {
	case OIte: // follow only the branch taken
		c := subst(t.Args[0], m, memo, budget)
		if c == True {
			r = subst(t.Args[1], m, memo, budget)
		} else if c == False {
			r = subst(t.Args[2], m, memo, budget)
		} else {
			r = Ite(c, subst(t.Args[1], m, memo, budget), subst(t.Args[2], m, memo, budget))
		}
	case OAnd:
		var as []*T
		for _, a := range t.Args {
			x := subst(a, m, memo, budget)
			if x == False {
				as = []*T{False}
				break
			}
			as = append(as, x)
		}
		r = And(as...)
	default:
		as := make([]*T, len(t.Args))
		for i, a := range t.Args {
			as[i] = subst(a, m, memo, budget)
		}
		same := true
		for i := range as {
			same = same && as[i] == t.Args[i]
		}
		if same {
			memo[t] = t
			return t
		}
		switch t.Op {
		case OLin:
			n := newLin()
			n.c.Set(t.C)
			for i, a := range as {
				n.add(a, t.Coef[i])
			}
			r = n.done()
		case OMul:
			r = as[0]
			for _, a := range as[1:] {
				r = Mul(r, a)
			}
		case ODiv:
			r = Div(as[0], t.C)
		case OMod:
			r = Mod(as[0], t.C)
		case OB2I:
			r = B2I(as[0])
		case OSelect:
			r = Select(as[0], as[1])
		case OStore:
			r = Store(as[0], as[1], as[2])
		case ONot:
			r = Not(as[0])
		case OXor:
			r = Xor(as...)
		case OEq0:
			r = Eq0(as[0])
		case OLe0:
			r = Le0(as[0])
		case OBit:
			r = Bit(as[0], t.I)
		case OApp, OBApp:
			if t.Op == OApp {
				r = App(t.Name, as...)
				if r.lo == nil {
					r.lo, r.hi = t.lo, t.hi
				}
			} else {
				r = BApp(t.Name, as...)
			}
		default:
			panic(outOfBudget{}) // quantified or uninterpreted: not handled here
		}
	}
	memo[t] = r
	return r
}

type outOfBudget struct{}

// splitBits proves goals by exhausting the low bits of the variables they
// select on: x is replaced by v + 2^n*y for every v < 2^n (y fresh), and the
// normaliser must reduce each instance to true.
func splitBits(goals []*T) (done []bool) {
	done = make([]bool, len(goals))
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(outOfBudget); !ok {
				panic(e)
			}
			for i := range done {
				done[i] = false
			}
		}
	}()
	occ := map[*T]int{}
	var order []*T
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OBit && t.Args[0].Op == OVar {
			x := t.Args[0]
			if _, ok := occ[x]; !ok {
				order = append(order, x)
			}
			if t.I+1 > occ[x] {
				occ[x] = t.I + 1
			}
		}
		if t.Op == OMod && t.Args[0].Op == OVar && log2(t.C) > 0 && log2(t.C) <= 9 {
			x := t.Args[0]
			if _, ok := occ[x]; !ok {
				order = append(order, x)
			}
			if n := log2(t.C); n > occ[x] {
				occ[x] = n
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, g := range goals {
		walk(g)
	}
	var xs []*T
	tot := 0
	for _, x := range order {
		if n := occ[x]; tot+n <= 9 {
			xs = append(xs, x)
			tot += n
		}
	}
	if len(xs) == 0 {
		return
	}
	budget := 12000000
	for i := range done {
		done[i] = true
	}
	ys := map[*T]*T{}
	for _, x := range xs {
		if x.lo == nil || x.hi == nil {
			for i := range done {
				done[i] = false
			}
			return
		}
		p := pow2(occ[x])
		ys[x] = FreshInt("split", fdiv(x.lo, p), fdiv(x.hi, p))
	}
	for v := int64(0); v < 1<<tot; v++ {
		m := map[*T]*T{}
		w := v
		for _, x := range xs {
			n := occ[x]
			m[x] = Add(CI(w&(1<<n-1)), MulC(ys[x], pow2(n)))
			w >>= n
		}
		memo := map[*T]*T{}
		any := false
		for i, g := range goals {
			if done[i] {
				done[i] = subst(g, m, memo, &budget) == True
				any = any || done[i]
			}
		}
		if !any {
			return
		}
	}
	return
}

var _ = big.NewInt

func dagSize(ts []*T) int {
	seen := map[*T]bool{}
	var w func(t *T)
	w = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
	return len(seen)
}

// unit returns the assignment a hypothesis forces on one variable.
func unit(h *T) (*T, *T) {
	switch h.Op {
	case OVar:
		return h, True
	case ONot:
		if h.Args[0].Op == OVar {
			return h.Args[0], False
		}
		if e := h.Args[0]; e.Op == OEq0 && e.Args[0].Op == OLin && len(e.Args[0].Args) == 1 {
			// x != c for a 0/1 variable
			l := e.Args[0]
			x := l.Args[0]
			if x.Op == OVar && x.lo != nil && x.hi != nil && x.lo.Sign() == 0 && x.hi.Cmp(b1) == 0 && l.Coef[0].Cmp(b1) == 0 && l.C.Cmp(bm1) == 0 {
				return x, Zero
			}
		}
	case OEq0:
		l := h.Args[0]
		if l.Op == OVar {
			return l, Zero
		}
		if l.Op == OLin && len(l.Args) == 1 && l.Args[0].Op == OVar {
			q, r := new(big.Int).QuoRem(new(big.Int).Neg(l.C), l.Coef[0], new(big.Int))
			if r.Sign() == 0 {
				return l.Args[0], CB(q)
			}
		}
	}
	return nil, nil
}

// simplifyUnder substitutes an assignment and everything it forces, to a fixpoint.
func simplifyUnder(hyps, goals []*T, m map[*T]*T, budget *int) ([]*T, []*T) {
	m2 := map[*T]*T{}
	for k, v := range m {
		m2[k] = v
	}
	for round := 0; round < 8; round++ {
		memo := map[*T]*T{}
		var nh []*T
		more := map[*T]*T{}
		contra := false
		var put func(t *T)
		put = func(t *T) {
			if t == True {
				return
			}
			if t == False {
				contra = true
				return
			}
			if t.Op == OAnd {
				for _, a := range t.Args {
					put(a)
				}
				return
			}
			if v, c := unit(t); v != nil {
				if _, dup := more[v]; !dup {
					more[v] = c
					if v.Sort == SInt && (v.lo != nil && c.C.Cmp(v.lo) < 0 || v.hi != nil && c.C.Cmp(v.hi) > 0) {
						contra = true
					}
					return
				}
			}
			nh = append(nh, t)
		}
		for _, h := range hyps {
			put(subst(h, m2, memo, budget))
			if contra {
				return []*T{False}, goals
			}
		}
		var ng []*T
		for _, g := range goals {
			ng = append(ng, subst(g, m2, memo, budget))
		}
		hyps, goals = nh, ng
		if len(more) == 0 {
			break
		}
		m2 = more
	}
	return hyps, goals
}

// splitEq proves goals by cases on a variable that is compared with constants.
// It returns which goals are proved; residual queries go to ask.
func splitEq(hyps, goals []*T, ask func(h []*T, g *T) bool) (done []bool) {
	done = make([]bool, len(goals))
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(outOfBudget); !ok {
				panic(e)
			}
			for i := range done {
				done[i] = false
			}
		}
	}()
	consts := map[*T]map[string]*T{} // var -> const -> the Eq0 atom
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OEq0 {
			l := t.Args[0]
			var x *T
			c := b0
			if l.Op == OVar {
				x = l
			} else if l.Op == OLin && len(l.Args) == 1 && l.Args[0].Op == OVar && new(big.Int).Abs(l.Coef[0]).Cmp(b1) == 0 {
				x = l.Args[0]
				c = new(big.Int).Neg(new(big.Int).Mul(l.C, l.Coef[0]))
			}
			if x != nil {
				if consts[x] == nil {
					consts[x] = map[string]*T{}
				}
				consts[x][c.String()] = t
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, g := range goals {
		walk(g)
	}
	var x *T
	for v, m := range consts {
		if x == nil || len(m) > len(consts[x]) || len(m) == len(consts[x]) && v.id < x.id {
			x = v
		}
	}
	if x == nil || len(consts[x]) < 2 || len(consts[x]) > 260 {
		return
	}
	// small declared ranges are enumerated completely
	budget := 30000000
	if len(consts[x]) > 80 {
		budget = 200000000
	}
	for i := range done {
		done[i] = true
	}
	try := func(m map[*T]*T, extra ...*T) {
		var live []*T
		var idx []int
		for i, g := range goals {
			if done[i] {
				live = append(live, g)
				idx = append(idx, i)
			}
		}
		if len(live) == 0 {
			return
		}
		h, gs := simplifyUnder(append(append([]*T{}, hyps...), extra...), live, m, &budget)
		for _, t := range h {
			if t == False {
				return
			}
		}
		contra := false
		if len(extra) > 0 {
			contra = ask(h, False)
		}
		if contra {
			return
		}
		var open []*T
		for _, g := range gs {
			if g != True {
				open = append(open, g)
			}
		}
		if len(open) == 0 || len(open) > 1 && ask(h, And(open...)) {
			return
		}
		for k, g := range gs {
			if g == True {
				continue
			}
			if !ask(h, g) {
				done[idx[k]] = false
			}
		}
	}
	var keys []string
	for k := range consts[x] {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	other := map[*T]*T{}
	var neg []*T
	for _, k := range keys {
		c, _ := new(big.Int).SetString(k, 10)
		if x.lo != nil && c.Cmp(x.lo) < 0 || x.hi != nil && c.Cmp(x.hi) > 0 {
			continue
		}
		try(map[*T]*T{x: CB(c)})
		neg = append(neg, Not(consts[x][k]))
	}
	_ = other
	try(map[*T]*T{}, neg...)
	return
}

var absVar = map[*T]*T{}

// abstractApps generalises opaque applications to fresh variables (equal terms stay equal).
func abstractApps(ts []*T) ([]*T, bool) {
	m := map[*T]*T{}
	seen := map[*T]bool{}
	bad := false
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] || bad {
			return
		}
		seen[t] = true
		switch t.Op {
		case OForall, OEqA, OIteA:
			bad = true
			return
		case OApp:
			v := absVar[t]
			if v == nil {
				v = FreshInt("app", t.lo, t.hi)
				absVar[t] = v
			}
			m[t] = v
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	if bad || len(m) == 0 {
		return ts, false
	}
	out := make([]*T, len(ts))
	ok := true
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(outOfBudget); !is {
					panic(e)
				}
				ok = false
			}
		}()
		budget := 50000000
		memo := map[*T]*T{}
		for i, t := range ts {
			out[i] = subst(t, m, memo, &budget)
		}
	}()
	if !ok {
		return ts, false
	}
	return out, true
}

// splitSmall proves a goal about opaque applications by enumerating the
// variables of tiny range it mentions; the normaliser must close every case
// (or refute a hypothesis in it).
func splitSmall(hyps []*T, goal *T) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(outOfBudget); !is {
				panic(e)
			}
			ok = false
		}
	}()
	app := false
	var vs []*T
	seen := map[*T]bool{}
	n := 1
	// upper bounds stated by the hypotheses: v + c <= 0
	ub := map[*T]*big.Int{}
	for _, h := range hyps {
		if h.Op == OLe0 {
			if l := h.Args[0]; l.Op == OLin && len(l.Args) == 1 && l.Args[0].Op == OVar && l.Coef[0].Cmp(b1) == 0 && l.C != nil {
				ub[l.Args[0]] = new(big.Int).Neg(l.C)
			}
		}
	}
	// small domains stated by the hypotheses: (v + c) mod m + k <= 0
	dom := map[*T][]*big.Int{}
	for _, h := range hyps {
		if v, ds := oneOf(h); v != nil && dom[v] == nil && len(ds) <= 4 {
			dom[v] = ds
			continue
		}
		if h.Op != OLe0 {
			continue
		}
		l := h.Args[0]
		k := new(big.Int)
		if l.Op == OLin && len(l.Args) == 1 && l.Coef[0].Cmp(b1) == 0 && l.C != nil {
			k.Neg(l.C)
			l = l.Args[0]
		}
		if l.Op != OMod || k.Sign() < 0 || k.Cmp(big.NewInt(8)) > 0 {
			continue
		}
		a, c := l.Args[0], new(big.Int)
		if a.Op == OLin && len(a.Args) == 1 && a.Coef[0].Cmp(b1) == 0 && a.C != nil {
			c, a = a.C, a.Args[0]
		}
		if a.Op != OVar || a.lo == nil || a.hi == nil || a.lo.Sign() != 0 || a.hi.Cmp(l.C) >= 0 || dom[a] != nil {
			continue
		}
		for j := int64(0); j <= k.Int64(); j++ {
			v := new(big.Int).Sub(big.NewInt(j), c)
			v.Mod(v, l.C)
			if v.Cmp(a.hi) <= 0 {
				dom[a] = append(dom[a], v)
			}
		}
	}
	hiOf := func(t *T) *big.Int {
		if u := ub[t]; u != nil && (t.hi == nil || u.Cmp(t.hi) < 0) {
			return u
		}
		return t.hi
	}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OApp, OBApp:
			app = true
		case OVar:
			if ds := dom[t]; ds != nil {
				vs = append(vs, t)
				if n < 1<<20 {
					n *= len(ds)
				}
			} else if t.Sort == SInt && t.lo != nil && hiOf(t) != nil {
				d := new(big.Int).Sub(hiOf(t), t.lo)
				if d.IsInt64() && d.Int64() < 4 {
					vs = append(vs, t)
					if n < 1<<20 {
						n *= int(d.Int64()) + 1
					}
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(goal)
	if !app || len(vs) == 0 || n > 4096 {
		return false
	}
	budget, asks, limit := 80_000_000, 0, 3*time.Second
	var rec func(i int, m map[*T]*T) bool
	rec = func(i int, m map[*T]*T) bool {
		if i == len(vs) {
			memo := map[*T]*T{}
			sg := subst(goal, m, memo, &budget)
			if os.Getenv("GOVC_SPLIT") != "" {
				fmt.Println("SPLIT", m)
				dbgXor(sg)
			}
			if sg == True {
				return true
			}
			for _, h := range hyps {
				if subst(h, m, memo, &budget) == False {
					return true
				}
			}
			var hs []*T
			for _, h := range hyps {
				if k := subst(h, m, memo, &budget); k != True {
					hs = append(hs, k)
				}
			}
			asks++
			if asks > 16 {
				return false
			}
			if sameConjuncts(hs, sg) {
				return true
			}
			ts := append(hs, sg)
			if ab, done := abstractApps(ts); done {
				ts = ab
			}
			return Solve(ts[:len(ts)-1], ts[len(ts)-1], nil, limit).Verdict == "unsat"
		}
		v := vs[i]
		if ds := dom[v]; ds != nil {
			for _, c := range ds {
				m[v] = CB(c)
				if !rec(i+1, m) {
					return false
				}
			}
			delete(m, v)
			return true
		}
		for c := new(big.Int).Set(v.lo); c.Cmp(hiOf(v)) <= 0; c = new(big.Int).Add(c, b1) {
			m[v] = CB(c)
			if !rec(i+1, m) {
				return false
			}
		}
		delete(m, v)
		return true
	}
	if len(dom) > 0 {
		all := vs
		vs = nil
		for _, v := range all {
			if dom[v] != nil {
				vs = append(vs, v)
			}
		}
		limit = 40 * time.Second
		if len(vs) > 0 && rec(0, map[*T]*T{}) {
			return true
		}
		vs, asks, limit = all, 0, 3*time.Second
	}
	return rec(0, map[*T]*T{})
}

// oneOf recognises x = a or x = b or ...
func oneOf(h *T) (x *T, ds []*big.Int) {
	if h.Op != ONot || h.Args[0].Op != OAnd {
		return nil, nil
	}
	for _, a := range h.Args[0].Args {
		if a.Op != ONot {
			return nil, nil
		}
		v, c := unit(a.Args[0])
		if v == nil || v.Sort != SInt || x != nil && v != x {
			return nil, nil
		}
		x = v
		ds = append(ds, c.C)
	}
	return
}

// sameConjuncts proves an equivalence of two conjunctions conjunct by
// conjunct: what only one side states must follow from the small shared or
// opposite conjuncts and hypotheses.
func sameConjuncts(hyps []*T, g *T) bool {
	if g.Op != ONot || g.Args[0].Op != OXor || len(g.Args[0].Args) != 2 {
		return false
	}
	if ab, done := abstractApps(append(append([]*T{}, hyps...), g)); done {
		hyps, g = ab[:len(ab)-1], ab[len(ab)-1]
		if g.Op != ONot || g.Args[0].Op != OXor || len(g.Args[0].Args) != 2 {
			return g == True
		}
	}
	var side [2][]*T
	for i, a := range g.Args[0].Args {
		if a.Op != OAnd {
			return false
		}
		side[i] = a.Args
	}
	small := func(ts []*T) (r []*T) {
		for _, t := range ts {
			if dagSize([]*T{t}) <= 60 {
				r = append(r, t)
			}
		}
		return
	}
	asks := 0
	for i := 0; i < 2; i++ {
		have := map[*T]bool{}
		for _, t := range side[i] {
			have[t] = true
		}
		var ctx []*T
		for _, t := range side[1-i] {
			if have[t] {
				continue
			}
			if ctx == nil {
				ctx = append(small(hyps), small(side[i])...)
			}
			if asks++; asks > 400 {
				return false
			}
			// opposite conjuncts stating the same large atom under another guard
			atoms := map[*T]bool{}
			near(t, 5, func(a *T) { atoms[a] = true })
			big := map[*T]*T{}
			ts := append([]*T{}, ctx...)
			for _, o := range side[i] {
				use := false
				near(o, 5, func(a *T) {
					if !atoms[a] || a == o || a.Sort == SArr || a.Sort == SInt && (a.lo == nil || a.hi == nil) {
						return
					}
					if big[a] == nil && dagSize([]*T{a}) > 60 {
						if a.Sort == SBool {
							big[a] = FreshBool("atom")
						} else {
							big[a] = FreshInt("atom", a.lo, a.hi)
						}
					}
					use = use || big[a] != nil
				})
				if use {
					ts = append(ts, o)
				}
			}
			ts = append(ts, t)
			if len(big) > 0 {
				memo, budget := map[*T]*T{}, 2_000_000
				for k := range ts {
					ts[k] = subst(ts[k], big, memo, &budget)
				}
			}
			if dagSize(ts[len(ts)-1:]) > 2000 {
				if os.Getenv("GOVC_SPLIT") != "" {
					fmt.Println("   BIGCONJ", len(big), trunc(shallow(t, 6), 1000))
				}
				return false
			}
			if Solve(ts[:len(ts)-1], ts[len(ts)-1], nil, 5*time.Second).Verdict != "unsat" {
				if os.Getenv("GOVC_SPLIT") != "" {
					for _, x := range ts {
						fmt.Println("   CONJ", x == ts[len(ts)-1], trunc(x.String(), 900))
					}
				}
				return false
			}
		}
	}
	return true
}

// near visits t and its descendants down to the given depth.
func near(t *T, depth int, f func(*T)) {
	if t.Op == OConst || t.Op == OVar {
		return
	}
	f(t)
	if depth > 0 {
		for _, a := range t.Args {
			near(a, depth-1, f)
		}
	}
}

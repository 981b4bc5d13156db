package main

// Hash-consed first-order terms over Bool, Int and (Array Int Int).  Every
// constructor normalises; the normaliser is part of the trusted base and is
// cross-checked by random evaluation (selfcheck.go).

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SArr
)

type Op uint8

const (
	OConst  Op = iota // Int constant C, or Bool constant (C = 0/1)
	OVar              // free symbol Name
	OLin              // C + sum Coef[i]*Args[i]
	OMul              // product of two non-constant Int terms
	ODiv              // floor(Args[0] / C), C > 0
	OMod              // Args[0] mod C, C > 0, in [0,C)
	OIte              // Int if-then-else
	OB2I              // 1 if Args[0] else 0
	OSelect           // Args[0][Args[1]]
	OStore            // array update
	OIteA             // array if-then-else
	OApp              // uninterpreted / defined function
	ONot
	OAnd
	OXor
	OEq0    // Args[0] = 0
	OLe0    // Args[0] <= 0
	OBit    // bit I of Int Args[0]
	OForall // forall Args[0](bound var) . Args[1]
	OBApp   // Bool-valued application
	OEqA    // array equality
)

type T struct {
	Op     Op
	Sort   Sort
	Args   []*T
	Coef   []*big.Int
	C      *big.Int
	Name   string
	I      int
	id     int
	lo, hi *big.Int // nil = unbounded
	sim    uint64   // Bool: simulation signature (circuit bit graphs)
	hasSim bool
	tz     int
	rank   int // Bool circuit graphs: nesting depth of conjunctions
	mixed  bool
	bound  bool // contains a bound variable
}

var (
	tab    map[string]*T
	allT   []*T
	varSeq int
	True   *T
	False  *T
	Zero   *T
	One    *T
	// declared bounds of a variable (what is emitted as an SMT assumption)
	declLo, declHi map[*T]*big.Int
)

var (
	b0  = big.NewInt(0)
	b1  = big.NewInt(1)
	bm1 = big.NewInt(-1)
	b2  = big.NewInt(2)
)

func resetTerms() {
	tab = map[string]*T{}
	allT = nil
	varSeq = 0
	declLo, declHi = map[*T]*big.Int{}, map[*T]*big.Int{}
	True = mk(&T{Op: OConst, Sort: SBool, C: b1})
	False = mk(&T{Op: OConst, Sort: SBool, C: b0})
	Zero = CI(0)
	One = CI(1)
	resetFraig()
	absVar = map[*T]*T{}
}

func init() { resetTerms() }

func key(t *T) string {
	var b [16]byte
	s := make([]byte, 0, 32+8*len(t.Args))
	s = append(s, byte(t.Op), byte(t.Sort))
	for _, a := range t.Args {
		n := binary.PutUvarint(b[:], uint64(a.id))
		s = append(s, b[:n]...)
		s = append(s, 0xff)
	}
	if t.I != 0 {
		n := binary.PutVarint(b[:], int64(t.I))
		s = append(s, 'i')
		s = append(s, b[:n]...)
	}
	if t.Name != "" {
		s = append(s, 'n')
		s = append(s, t.Name...)
	}
	if t.C != nil {
		s = append(s, 'c')
		s = append(s, t.C.Text(62)...)
	}
	for _, c := range t.Coef {
		s = append(s, ',')
		if c.IsInt64() && c.Int64() == 1 {
			s = append(s, 'u')
		} else {
			s = append(s, c.Text(62)...)
		}
	}
	return string(s)
}

func mk(t *T) *T {
	k := key(t)
	if o, ok := tab[k]; ok {
		return o
	}
	t.id = len(allT) + 1
	for _, a := range t.Args {
		if a.bound {
			t.bound = true
		}
	}
	allT = append(allT, t)
	tab[k] = t
	setBounds(t)
	if t.Sort == SInt {
		t.tz = twos(t)
	}
	return t
}

// twos: trailing zero bits every value of t is known to have (at most 64)
func twos(t *T) int {
	ofInt := func(c *big.Int) int {
		if c.Sign() == 0 {
			return 64
		}
		return min(64, int(c.TrailingZeroBits()))
	}
	switch t.Op {
	case OConst:
		return ofInt(t.C)
	case OLin:
		n := ofInt(t.C)
		for i, a := range t.Args {
			n = min(n, ofInt(t.Coef[i])+a.tz)
		}
		return n
	case OMul:
		n := 0
		for _, a := range t.Args {
			n += a.tz
		}
		return min(n, 64)
	case OIte:
		return min(t.Args[1].tz, t.Args[2].tz)
	case OMod:
		return min(t.Args[0].tz, ofInt(t.C))
	case ODiv:
		if s := log2(t.C); s >= 0 && t.Args[0].tz > s && t.Args[0].tz < 64 {
			return t.Args[0].tz - s
		}
	}
	return 0
}

func setBounds(t *T) {
	if t.Sort != SInt {
		return
	}
	switch t.Op {
	case OConst:
		t.lo, t.hi = t.C, t.C
	case OLin:
		lo, hi := t.C, t.C
		for i, a := range t.Args {
			c := t.Coef[i]
			al, ah := a.lo, a.hi
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil && al != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(c, al))
			} else {
				lo = nil
			}
			if hi != nil && ah != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(c, ah))
			} else {
				hi = nil
			}
		}
		t.lo, t.hi = lo, hi
	case OMul:
		a, b := t.Args[0], t.Args[1]
		if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
			var xs []*big.Int
			for _, p := range []*big.Int{a.lo, a.hi} {
				for _, q := range []*big.Int{b.lo, b.hi} {
					xs = append(xs, new(big.Int).Mul(p, q))
				}
			}
			t.lo, t.hi = xs[0], xs[0]
			for _, x := range xs {
				if x.Cmp(t.lo) < 0 {
					t.lo = x
				}
				if x.Cmp(t.hi) > 0 {
					t.hi = x
				}
			}
		} else if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
			t.lo = b0
		}
	case ODiv:
		a := t.Args[0]
		if a.lo != nil {
			t.lo = fdiv(a.lo, t.C)
		}
		if a.hi != nil {
			t.hi = fdiv(a.hi, t.C)
		}
	case OMod:
		t.lo, t.hi = b0, new(big.Int).Sub(t.C, b1)
	case OIte:
		a, b := t.Args[1], t.Args[2]
		if a.lo != nil && b.lo != nil {
			t.lo = bmin(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = bmax(a.hi, b.hi)
		}
	case OB2I:
		t.lo, t.hi = b0, b1
	}
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func fdiv(a, c *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, c, m) // Euclidean; c>0 => floor
	return q
}
func emod(a, c *big.Int) *big.Int { return new(big.Int).Mod(a, c) }

func CI(n int64) *T { return CB(big.NewInt(n)) }
func CB(n *big.Int) *T {
	return mk(&T{Op: OConst, Sort: SInt, C: new(big.Int).Set(n)})
}
func Bool(b bool) *T {
	if b {
		return True
	}
	return False
}
func (t *T) IsConst() bool { return t.Op == OConst }
func (t *T) Int64() int64  { return t.C.Int64() }

// Fresh integer variable with inclusive bounds (nil = none).
func FreshInt(name string, lo, hi *big.Int) *T {
	varSeq++
	t := mk(&T{Op: OVar, Sort: SInt, Name: fmt.Sprintf("%s!%d", clean(name), varSeq)})
	t.lo, t.hi = lo, hi
	declLo[t], declHi[t] = lo, hi
	return t
}
func FreshBool(name string) *T {
	varSeq++
	t := mk(&T{Op: OVar, Sort: SBool, Name: fmt.Sprintf("%s!%d", clean(name), varSeq)})
	simAtom(t)
	return t
}
func FreshArr(name string) *T {
	varSeq++
	return mk(&T{Op: OVar, Sort: SArr, Name: fmt.Sprintf("%s!%d", clean(name), varSeq)})
}
func BoundVar(name string) *T {
	varSeq++
	t := mk(&T{Op: OVar, Sort: SInt, Name: fmt.Sprintf("%s?%d", clean(name), varSeq)})
	t.bound = true
	return t
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

// ---- linear arithmetic ----

type linB struct {
	c  *big.Int
	m  map[*T]*big.Int
	ks []*T
}

func newLin() *linB { return &linB{c: new(big.Int), m: map[*T]*big.Int{}} }
func (l *linB) add(t *T, k *big.Int) {
	if k.Sign() == 0 {
		return
	}
	switch t.Op {
	case OConst:
		l.c.Add(l.c, new(big.Int).Mul(k, t.C))
	case OLin:
		l.c.Add(l.c, new(big.Int).Mul(k, t.C))
		for i, a := range t.Args {
			l.addAtom(a, new(big.Int).Mul(k, t.Coef[i]))
		}
	default:
		l.addAtom(t, k)
	}
}
func (l *linB) addAtom(a *T, k *big.Int) {
	if o, ok := l.m[a]; ok {
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = n
		}
		return
	}
	l.m[a] = new(big.Int).Set(k)
	if l.ks == nil {
		l.ks = make([]*T, 0, 8)
	}
	l.ks = append(l.ks, a)
}
func (l *linB) done() *T {
	if len(l.m) == 0 {
		return CB(l.c)
	}
	as := make([]*T, 0, len(l.m))
	for a := range l.m {
		as = append(as, a)
	}
	if len(as) == 1 && l.c.Sign() == 0 && l.m[as[0]].Cmp(b1) == 0 {
		return as[0]
	}
	// k*x - k*ite(c,x,0) -> ite(c,0,k*x), and the mirror image
	if len(as) == 2 && l.c.Sign() == 0 {
		for i := 0; i < 2; i++ {
			x, g := as[i], as[1-i]
			k := l.m[x]
			// k*x - k*b2i(x=1 and r) -> k*b2i(x=1 and not r)
			if g.Op == OB2I && g.Args[0].Op == OAnd && isBitTerm(x) && new(big.Int).Neg(k).Cmp(l.m[g]) == 0 {
				y := Eq(x, CI(1))
				var rest []*T
				for _, t := range g.Args[0].Args {
					if t != y {
						rest = append(rest, t)
					}
				}
				if len(rest) < len(g.Args[0].Args) {
					return MulC(B2I(And(y, Not(And(rest...)))), k)
				}
			}
			if g.Op != OIte || new(big.Int).Neg(k).Cmp(l.m[g]) != 0 {
				continue
			}
			if g.Args[1] == x && g.Args[2] == CI(0) {
				return Ite(g.Args[0], CI(0), MulC(x, k))
			}
			if g.Args[2] == x && g.Args[1] == CI(0) {
				return Ite(g.Args[0], MulC(x, k), CI(0))
			}
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return mk(&T{Op: OLin, Sort: SInt, Args: as, Coef: cs, C: new(big.Int).Set(l.c)})
}

func nAtoms(t *T) int {
	switch t.Op {
	case OConst:
		return 0
	case OLin:
		return len(t.Args)
	}
	return 1
}

func Add(ts ...*T) *T {
	l := newLin()
	for _, t := range ts {
		l.add(t, b1)
	}
	// push an addend into a single gated difference: x + ite(c,d,0) -> ite(c, x+d, x)
	if len(ts) == 2 {
		if r := pushIte(ts[0], ts[1]); r != nil {
			return r
		}
		if r := pushIte(ts[1], ts[0]); r != nil {
			return r
		}
	}
	return l.done()
}

func pushIte(x, g *T) *T {
	if g.Op != OIte || nAtoms(x) != 1 {
		return nil
	}
	d := lin2(g.Args[1], b1, x, b1)
	e := lin2(g.Args[2], b1, x, b1)
	if nAtoms(d) <= 1 && nAtoms(e) <= 1 && (nAtoms(g.Args[1]) > 1 || nAtoms(g.Args[2]) > 1) {
		return Ite(g.Args[0], d, e)
	}
	return nil
}
func lin2(a *T, ka *big.Int, b *T, kb *big.Int) *T {
	l := newLin()
	l.add(a, ka)
	l.add(b, kb)
	return l.done()
}
func Sub(a, b *T) *T { return lin2(a, b1, b, bm1) }
func Neg(a *T) *T    { return MulC(a, bm1) }
func MulC(a *T, c *big.Int) *T {
	l := newLin()
	l.add(a, c)
	return l.done()
}
func AddC(a *T, c int64) *T { return lin2(a, b1, CI(c), b1) }

func Mul(a, b *T) *T {
	if a.IsConst() {
		return MulC(b, a.C)
	}
	if b.IsConst() {
		return MulC(a, b.C)
	}
	if c, ok := asBoolInt(a); ok {
		return Gate(c, b)
	}
	if c, ok := asBoolInt(b); ok {
		return Gate(c, a)
	}
	// distribute over short sums of gated constants
	if r := distr(a, b); r != nil {
		return r
	}
	if r := distr(b, a); r != nil {
		return r
	}
	if a.Op == OIte && a.Args[1].IsConst() && a.Args[2].IsConst() {
		return Ite(a.Args[0], MulC(b, a.Args[1].C), MulC(b, a.Args[2].C))
	}
	if b.Op == OIte && b.Args[1].IsConst() && b.Args[2].IsConst() {
		return Ite(b.Args[0], MulC(a, b.Args[1].C), MulC(a, b.Args[2].C))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&T{Op: OMul, Sort: SInt, Args: []*T{a, b}})
}

func distr(a, b *T) *T {
	if a.Op != OLin {
		return nil
	}
	for _, x := range a.Args {
		if x.Op != OB2I {
			return nil
		}
	}
	l := newLin()
	l.add(b, a.C)
	for i, x := range a.Args {
		l.add(Gate(x.Args[0], b), a.Coef[i])
	}
	return l.done()
}

// asBoolInt recognises Int terms that are 0/1 and returns the Bool.
func asBoolInt(a *T) (*T, bool) {
	switch a.Op {
	case OB2I:
		return a.Args[0], true
	case OConst:
		if a.C.Sign() == 0 {
			return False, true
		}
		if a.C.Cmp(b1) == 0 {
			return True, true
		}
		return nil, false
	case OLin:
		if len(a.Args) == 1 && a.Args[0].Op == OB2I && a.C.Cmp(b1) == 0 && a.Coef[0].Cmp(bm1) == 0 {
			return Not(a.Args[0].Args[0]), true
		}
	}
	if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b1) <= 0 {
		return Eq(a, One), true
	}
	return nil, false
}

// Gate(c,x) = x if c else 0.
func Gate(c, x *T) *T {
	if c == True {
		return x
	}
	if c == False || (x.IsConst() && x.C.Sign() == 0) {
		return Zero
	}
	if x.IsConst() {
		return MulC(B2I(c), x.C)
	}
	if x.Op == OB2I {
		return B2I(And(c, x.Args[0]))
	}
	if x.Op == OLin {
		all := len(x.Args) <= 4
		for _, a := range x.Args {
			if a.Op != OB2I {
				all = false
			}
		}
		if all {
			l := newLin()
			l.add(B2I(c), x.C)
			for i, a := range x.Args {
				l.add(B2I(And(c, a.Args[0])), x.Coef[i])
			}
			return l.done()
		}
	}
	return Ite(c, x, Zero)
}

func B2I(c *T) *T {
	if c == True {
		return One
	}
	if c == False {
		return Zero
	}
	if c.Op == ONot {
		return lin2(One, b1, B2I(c.Args[0]), bm1)
	}
	if c.Op == OEq0 {
		// (x = 1) for x in 0..1 is x
		if x, ok := eqOneOf(c); ok {
			return x
		}
	}
	return mk(&T{Op: OB2I, Sort: SInt, Args: []*T{c}})
}

// c is Eq(x,1) with x declared 0..1 : return x
func eqOneOf(c *T) (*T, bool) {
	l := c.Args[0]
	if l.Op == OLin && len(l.Args) == 1 {
		a := l.Args[0]
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b1) <= 0 {
			if (l.Coef[0].Cmp(b1) == 0 && l.C.Cmp(bm1) == 0) || (l.Coef[0].Cmp(bm1) == 0 && l.C.Cmp(b1) == 0) {
				return a, true
			}
		}
	}
	return nil, false
}

func Ite(c, a, b *T) *T {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.IsConst() && b.IsConst() {
		return lin2(b, b1, MulC(B2I(c), new(big.Int).Sub(a.C, b.C)), b1)
	}
	if a.Op == OIte && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == OIte && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	if x, ok := isB2I(a); ok {
		if y, ok := isB2I(b); ok {
			return B2I(IteB(c, x, y))
		}
	}
	if a.Op == OLin || b.Op == OLin {
		if d := Sub(a, b); d.IsConst() {
			return Add(b, MulC(B2I(c), d.C))
		}
	}
	if t := iteMod(c, a, b); t != nil {
		return t
	}
	return mk(&T{Op: OIte, Sort: SInt, Args: []*T{c, a, b}})
}

// iteMod recognises conditional reduction: (x >= m ? x mod m : x) = x mod m, and
// (c ? p mod m : q mod m) = (q + (p-q)*[c]) mod m when p-q is a constant.
func iteMod(c, a, b *T) *T {
	if a.Op == OMod && nonNeg(b) && c == Le(CB(a.C), b) && a == Mod(b, a.C) {
		return a
	}
	if b.Op == OMod && nonNeg(a) && c == Lt(a, CB(b.C)) && b == Mod(a, b.C) {
		return b
	}
	var m *big.Int
	switch {
	case a.Op == OMod:
		m = a.C
	case b.Op == OMod:
		m = b.C
	default:
		return nil
	}
	inner := func(t *T) *T {
		if t.Op == OMod && t.C.Cmp(m) == 0 {
			return t.Args[0]
		}
		if t.lo != nil && t.hi != nil && t.lo.Sign() >= 0 && t.hi.Cmp(m) < 0 {
			return t
		}
		return nil
	}
	p, q := inner(a), inner(b)
	if p == nil || q == nil {
		return nil
	}
	d := Sub(p, q)
	if d.Op == OLin {
		for _, k := range d.Coef {
			if emod(k, m).Sign() != 0 {
				return nil
			}
		}
	} else if !d.IsConst() {
		return nil
	}
	return Mod(Add(q, MulC(B2I(c), d.C)), m)
}
func isB2I(a *T) (*T, bool) {
	switch {
	case a == Zero:
		return False, true
	case a == One:
		return True, true
	case a.Op == OB2I:
		return a.Args[0], true
	case a.Op == OLin && len(a.Args) == 1 && a.Args[0].Op == OB2I && a.C.Cmp(b1) == 0 && a.Coef[0].Cmp(bm1) == 0:
		return Not(a.Args[0].Args[0]), true
	}
	return nil, false
}

func Div(a *T, c *big.Int) *T {
	if c.Cmp(b1) == 0 {
		return a
	}
	if a.IsConst() {
		return CB(fdiv(a.C, c))
	}
	if a.lo != nil && a.hi != nil && fdiv(a.lo, c).Cmp(fdiv(a.hi, c)) == 0 {
		return CB(fdiv(a.lo, c))
	}
	if a.Op == ODiv {
		return Div(a.Args[0], new(big.Int).Mul(a.C, c))
	}
	if a.Op == OLin {
		// split off the part divisible by c
		q, r := newLin(), newLin()
		for i, x := range a.Args {
			if emod(a.Coef[i], c).Sign() == 0 {
				q.add(x, fdiv(a.Coef[i], c))
			} else {
				r.add(x, a.Coef[i])
			}
		}
		q.c = fdiv(a.C, c)
		r.c = emod(a.C, c)
		if len(q.m) > 0 || q.c.Sign() != 0 {
			q.add(Div(r.done(), c), b1)
			return q.done()
		}
		// reduce by common factor of all coefficients and c (constant floored)
		g := new(big.Int).Set(c)
		for _, k := range a.Coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(b1) > 0 {
			l := newLin()
			for i, x := range a.Args {
				l.add(x, fdiv(a.Coef[i], g))
			}
			l.c = fdiv(a.C, g)
			return Div(l.done(), fdiv(c, g))
		}
	}
	return mk(&T{Op: ODiv, Sort: SInt, Args: []*T{a}, C: new(big.Int).Set(c)})
}

func Mod(a *T, c *big.Int) *T {
	if c.Cmp(b1) == 0 {
		return Zero
	}
	if a.IsConst() {
		return CB(emod(a.C, c))
	}
	if a.lo != nil && a.hi != nil {
		ql := fdiv(a.lo, c)
		if ql.Cmp(fdiv(a.hi, c)) == 0 {
			if ql.Sign() == 0 {
				return a
			}
			return lin2(a, b1, CB(new(big.Int).Mul(ql, c)), bm1)
		}
	}
	if a.Op == OMod && emod(a.C, c).Sign() == 0 {
		return Mod(a.Args[0], c)
	}
	if a.Op == OLin {
		l := newLin()
		ch := false
		for i, x := range a.Args {
			k := emod(a.Coef[i], c)
			if k.Cmp(a.Coef[i]) != 0 {
				ch = true
			}
			if x.Op == OMod && emod(new(big.Int).Mul(x.C, k), c).Sign() == 0 {
				l.add(x.Args[0], k)
				ch = true
				continue
			}
			if x.Op == OMod && emod(x.C, c).Sign() == 0 {
				l.add(x.Args[0], k)
				ch = true
				continue
			}
			l.add(x, k)
		}
		kc := emod(a.C, c)
		if kc.Cmp(a.C) != 0 {
			ch = true
		}
		l.c.Add(l.c, kc)
		if ch {
			return Mod(l.done(), c)
		}
		// symmetric representatives: the residue may be the sum itself
		half := new(big.Int).Rsh(c, 1)
		sym := newLin()
		neg, bounded := false, true
		for i, x := range a.Args {
			k := a.Coef[i]
			if x.lo == nil || x.hi == nil {
				bounded = false
				break
			}
			if k.Cmp(half) > 0 {
				k, neg = new(big.Int).Sub(k, c), true
			}
			if k.BitLen() > 64 {
				bounded = false // large weights stay as they are
				break
			}
			sym.add(x, k)
		}
		if bounded && neg {
			sym.c.Set(a.C)
			if sym.c.Cmp(half) > 0 {
				sym.c.Sub(sym.c, c)
			}
			r := sym.done()
			if r.lo != nil && r.hi != nil {
				if ql := fdiv(r.lo, c); ql.Cmp(fdiv(r.hi, c)) == 0 {
					return lin2(r, b1, CB(new(big.Int).Mul(ql, c)), bm1)
				}
			}
		}
		// common factor
		g := new(big.Int).Set(c)
		for _, k := range a.Coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if a.C.Sign() != 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(a.C))
		}
		if g.Cmp(b1) > 0 {
			l := newLin()
			for i, x := range a.Args {
				l.add(x, fdiv(a.Coef[i], g))
			}
			l.c = fdiv(a.C, g)
			return MulC(Mod(l.done(), fdiv(c, g)), g)
		}
	}
	return mk(&T{Op: OMod, Sort: SInt, Args: []*T{a}, C: new(big.Int).Set(c)})
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(b1, uint(n)) }

// Ext(x,k,n) = floor(x/2^k) mod 2^n
func Ext(x *T, k, n int) *T {
	return Mod(Div(x, pow2(k)), pow2(n))
}

// ---- Bool ----

func Not(a *T) *T {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.Op == ONot {
		return a.Args[0]
	}
	if a.Op == OLe0 { // not (l <= 0)  <=>  1-l <= 0
		return Le0(lin2(One, b1, a.Args[0], bm1))
	}
	t := mk(&T{Op: ONot, Sort: SBool, Args: []*T{a}, rank: a.rank})
	if a.hasSim {
		t.sim, t.hasSim = ^a.sim, true
	}
	return t
}

func And(as ...*T) *T {
	set := map[*T]bool{}
	var out []*T
	var walk func(a *T) bool
	walk = func(a *T) bool {
		if a == True {
			return true
		}
		if a == False {
			return false
		}
		if a.Op == OAnd {
			for _, x := range a.Args {
				if !walk(x) {
					return false
				}
			}
			return true
		}
		if set[a] {
			return true
		}
		if set[negKey(a)] {
			return false
		}
		set[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !walk(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	t := &T{Op: OAnd, Sort: SBool, Args: out}
	for _, a := range out {
		if a.rank >= t.rank {
			t.rank = a.rank + 1
		}
	}
	if o, ok := tab[key(t)]; ok {
		return fraigRep(o)
	}
	t = mk(t)
	return fraigNew(t)
}
func negKey(a *T) *T {
	if a.Op == ONot {
		return a.Args[0]
	}
	if a.Op == OLe0 {
		return Not(a)
	}
	if o, ok := tab[key(&T{Op: ONot, Sort: SBool, Args: []*T{a}})]; ok {
		return o
	}
	return nil
}
func Or(as ...*T) *T {
	ns := make([]*T, len(as))
	for i, a := range as {
		ns[i] = Not(a)
	}
	return Not(And(ns...))
}
func Implies(a, b *T) *T { return Or(Not(a), b) }

const xorFlat = 24

func Xor(as ...*T) *T {
	par := false
	cnt := map[*T]bool{}
	var order []*T
	put := func(a *T) {
		if !cnt[a] {
			order = append(order, a)
		}
		cnt[a] = !cnt[a]
	}
	total := 0
	for _, a := range as {
		x := a
		if x.Op == ONot {
			x = x.Args[0]
		}
		if x.Op == OXor {
			total += len(x.Args)
		} else {
			total++
		}
	}
	for _, a := range as {
		if a == True {
			par = !par
			continue
		}
		if a == False {
			continue
		}
		if a.Op == ONot {
			par = !par
			a = a.Args[0]
		}
		if a.Op == OXor && (!fraigOn && total <= xorFlat || len(as) == 1 || fraigOn && !a.mixed && total <= 4096) {
			for _, x := range a.Args {
				put(x)
			}
			continue
		}
		put(a)
	}
	var out []*T
	for _, a := range order {
		if cnt[a] {
			cnt[a] = false
			out = append(out, a)
		}
	}
	var r *T
	switch len(out) {
	case 0:
		r = False
	case 1:
		r = out[0]
	default:
		sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
		t := &T{Op: OXor, Sort: SBool, Args: out}
		for i, a := range out {
			if a.rank > t.rank {
				t.rank = a.rank
			}
			if a.rank != out[0].rank {
				t.mixed = true
			}
			_ = i
		}
		if o, ok := tab[key(t)]; ok {
			r = fraigRep(o)
		} else {
			r = fraigNew(mk(t))
		}
	}
	if par {
		return Not(r)
	}
	return r
}
func Iff(a, b *T) *T { return Not(Xor(a, b)) }
func IteB(c, a, b *T) *T {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a == True {
		return Or(c, b)
	}
	if a == False {
		return And(Not(c), b)
	}
	if b == True {
		return Or(Not(c), a)
	}
	if b == False {
		return And(c, a)
	}
	return Xor(b, And(c, Xor(a, b)))
}

func Eq(a, b *T) *T {
	if a.Sort == SBool {
		return Iff(a, b)
	}
	if a.Sort == SArr {
		if a == b {
			return True
		}
		return mk(&T{Op: OEqA, Sort: SBool, Args: []*T{a, b}})
	}
	return Eq0(Sub(a, b))
}

func Eq0(l *T) *T {
	if l.IsConst() {
		return Bool(l.C.Sign() == 0)
	}
	if (l.lo != nil && l.lo.Sign() > 0) || (l.hi != nil && l.hi.Sign() < 0) {
		return False
	}
	if l.Op == OB2I {
		return Not(l.Args[0])
	}
	if l.Op == OMul || l.Op == OMod && l.Args[0].Op == OMul && isPrimeField(l.C) {
		// a product vanishes only with one of its factors (in Z, and modulo a prime)
		fs := l.Args
		if l.Op == OMod {
			fs = l.Args[0].Args
		}
		var or []*T
		for _, f := range fs {
			if l.Op == OMod {
				f = Mod(f, l.C)
			}
			or = append(or, Eq0(f))
		}
		return Or(or...)
	}
	if t := threeWay(l, func(n *big.Int) bool { return n.Sign() == 0 }); t != nil {
		return t
	}
	if l.Op == OLin {
		// gcd test and division by content, sign normalise
		g := new(big.Int)
		for _, k := range l.Coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if emod(l.C, g).Sign() != 0 {
			return False
		}
		if l.Coef[0].Sign() < 0 {
			g.Neg(g)
		}
		if g.Cmp(b1) != 0 {
			n := newLin()
			for i, x := range l.Args {
				n.add(x, new(big.Int).Quo(l.Coef[i], g))
			}
			n.c = new(big.Int).Quo(l.C, g)
			return Eq0(n.done())
		}
		if n := len(l.Args); n > 1 && n <= 4 && l.lo != nil && l.hi != nil && (l.lo.Sign() == 0 || l.hi.Sign() == 0) {
			// the sum is at one end of its range: so is every term
			var and []*T
			for i, x := range l.Args {
				if x.lo == nil || x.hi == nil {
					and = nil
					break
				}
				at := x.lo
				if (l.Coef[i].Sign() > 0) != (l.lo.Sign() == 0) {
					at = x.hi
				}
				and = append(and, Eq(x, CB(at)))
			}
			tot := new(big.Int).Set(l.C)
			for i, x := range l.Args {
				if and == nil {
					break
				}
				at := x.lo
				if (l.Coef[i].Sign() > 0) != (l.lo.Sign() == 0) {
					at = x.hi
				}
				tot.Add(tot, new(big.Int).Mul(l.Coef[i], at))
			}
			if and != nil && tot.Sign() == 0 {
				return And(and...)
			}
		}
		if len(l.Args) == 1 {
			a := l.Args[0] // a + C = 0
			if a.Op == OB2I {
				if l.C.Cmp(bm1) == 0 {
					return a.Args[0]
				}
				return False // C=0 impossible (OLin), others out of range
			}
			if a.Op == OIte {
				v := new(big.Int).Neg(l.C)
				if a.Args[1].IsConst() || a.Args[2].IsConst() {
					return IteB(a.Args[0], Eq(a.Args[1], CB(v)), Eq(a.Args[2], CB(v)))
				}
			}
			if a.lo != nil && a.hi != nil && a.lo.Sign() == 0 && a.hi.Cmp(b1) == 0 && l.C.Cmp(bm1) == 0 {
				// stays as Eq0(a-1)
			}
		}
		if len(l.Args) == 2 && l.Args[0].Op == OB2I && l.Args[1].Op == OB2I {
			p, q := l.Args[0].Args[0], l.Args[1].Args[0]
			if l.Coef[0].Cmp(b1) == 0 && l.Coef[1].Cmp(bm1) == 0 && l.C.Sign() == 0 {
				return Iff(p, q)
			}
			if l.Coef[0].Cmp(b1) == 0 && l.Coef[1].Cmp(b1) == 0 && l.C.Cmp(bm1) == 0 {
				return Xor(p, q)
			}
			if l.Coef[0].Cmp(b1) == 0 && l.Coef[1].Cmp(b1) == 0 && l.C.Cmp(big.NewInt(-2)) == 0 {
				return And(p, q)
			}
		}
	}
	if l.Op == OIte && (l.Args[1].IsConst() || l.Args[2].IsConst()) {
		return IteB(l.Args[0], Eq0(l.Args[1]), Eq0(l.Args[2]))
	}
	// x = 0 with x in 0..1  ->  not (x = 1)
	if l.Op != OLin && l.lo != nil && l.hi != nil && l.lo.Sign() == 0 && l.hi.Cmp(b1) == 0 {
		return Not(Eq0(AddC(l, -1)))
	}
	// extremes: l >= 0 and all non-negative parts with zero const -> conjunction
	if l.Op == OLin && l.lo != nil && l.lo.Sign() == 0 && len(l.Args) > 1 && len(l.Args) <= 64 {
		var cs []*T
		ok := true
		for i, a := range l.Args {
			if l.Coef[i].Sign() > 0 && a.lo != nil {
				cs = append(cs, Eq0(lin2(a, b1, CB(a.lo), bm1)))
			} else if l.Coef[i].Sign() < 0 && a.hi != nil {
				cs = append(cs, Eq0(lin2(a, b1, CB(a.hi), bm1)))
			} else {
				ok = false
			}
		}
		if ok {
			return And(cs...)
		}
	}
	if l.Op == OLin && l.hi != nil && l.hi.Sign() == 0 && len(l.Args) > 1 && len(l.Args) <= 64 {
		var cs []*T
		ok := true
		for i, a := range l.Args {
			if l.Coef[i].Sign() > 0 && a.hi != nil {
				cs = append(cs, Eq0(lin2(a, b1, CB(a.hi), bm1)))
			} else if l.Coef[i].Sign() < 0 && a.lo != nil {
				cs = append(cs, Eq0(lin2(a, b1, CB(a.lo), bm1)))
			} else {
				ok = false
			}
		}
		if ok {
			return And(cs...)
		}
	}
	return mk(&T{Op: OEq0, Sort: SBool, Args: []*T{l}})
}

func Le(a, b *T) *T { return Le0(Sub(a, b)) }
func Lt(a, b *T) *T { return Le0(Sub(AddC(a, 1), b)) }

// cmpOf remembers three-way comparison results: sign(d) -> d.
var cmpOf = map[*T]*T{}

// Cmp3 is the sign of d.
func Cmp3(d *T) *T {
	r := Sub(B2I(Lt(Zero, d)), B2I(Lt(d, Zero)))
	if r.Op == OLin {
		cmpOf[r] = d
	}
	return r
}

// threeWay simplifies a predicate of c + k*sign(d).
func threeWay(l *T, f func(*big.Int) bool) *T {
	if l.Op != OLin || len(l.Args) > 2 || len(cmpOf) == 0 {
		return nil
	}
	d, neg := cmpOf[l], false
	c := b0
	if d == nil {
		c = l.C
		base := Sub(l, CB(c))
		if d = cmpOf[base]; d == nil {
			d, neg = cmpOf[Neg(base)], true
		}
		if d == nil {
			return nil
		}
	}
	if neg {
		d = Neg(d)
	}
	pa := f(new(big.Int).Add(c, b1))
	pb := f(new(big.Int).Sub(c, b1))
	pe := f(c)
	switch {
	case pa && pb && pe:
		return True
	case pa && pb:
		return Not(Eq0(d))
	case pa && pe:
		return Le(Zero, d)
	case pb && pe:
		return Le0(d)
	case pa:
		return Lt(Zero, d)
	case pb:
		return Lt(d, Zero)
	case pe:
		return Eq0(d)
	}
	return False
}

func Le0(l *T) *T {
	if l.IsConst() {
		return Bool(l.C.Sign() <= 0)
	}
	if l.hi != nil && l.hi.Sign() <= 0 {
		return True
	}
	if l.lo != nil && l.lo.Sign() > 0 {
		return False
	}
	if l.Op == OB2I {
		return Not(l.Args[0])
	}
	if t := threeWay(l, func(n *big.Int) bool { return n.Sign() <= 0 }); t != nil {
		return t
	}
	if l.Op == OLin {
		g := new(big.Int)
		for _, k := range l.Coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(b1) > 0 {
			n := newLin()
			for i, x := range l.Args {
				n.add(x, new(big.Int).Quo(l.Coef[i], g))
			}
			// sum <= -C  => sum/g <= floor(-C/g)
			n.c = new(big.Int).Neg(fdiv(new(big.Int).Neg(l.C), g))
			return Le0(n.done())
		}
		if len(l.Args) == 1 && l.Args[0].Op == OB2I {
			a := l.Args[0].Args[0]
			// k*b + C <= 0
			at0 := l.C.Sign() <= 0
			at1 := new(big.Int).Add(l.C, l.Coef[0]).Sign() <= 0
			switch {
			case at0 && at1:
				return True
			case at0:
				return Not(a)
			case at1:
				return a
			default:
				return False
			}
		}
	}
	// l in [lo, ..] with lo == 0: l<=0 iff l=0
	if l.lo != nil && l.lo.Sign() == 0 {
		return Eq0(l)
	}
	return mk(&T{Op: OLe0, Sort: SBool, Args: []*T{l}})
}

// Bit(x,i): bit i of the (non-negative or two's complement) integer x.
func Bit(x *T, i int) *T {
	if x.IsConst() {
		return Bool(new(big.Int).Rsh(x.C, uint(i)).Bit(0) == 1 && x.C.Sign() >= 0 || x.C.Sign() < 0 && emod(fdiv(x.C, pow2(i)), b2).Sign() != 0)
	}
	if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(pow2(i)) < 0 {
		return False
	}
	if i < x.tz {
		return False
	}
	switch x.Op {
	case OB2I:
		return x.Args[0] // i==0 by the bound test
	case ODiv:
		if s := log2(x.C); s >= 0 {
			return Bit(x.Args[0], i+s)
		}
	case OMod:
		if s := log2(x.C); s >= 0 {
			if i >= s {
				return False
			}
			return Bit(x.Args[0], i)
		}
	case OIte:
		if nAtoms(x.Args[1]) == 0 || nAtoms(x.Args[2]) == 0 || isBitSum(x.Args[1]) || isBitSum(x.Args[2]) {
			return IteB(x.Args[0], Bit(x.Args[1], i), Bit(x.Args[2], i))
		}
	case OLin:
		// drop everything that is a multiple of 2^(i+1); strip low parts that
		// cannot carry.
		m := pow2(i + 1)
		l := newLin()
		for k, a := range x.Args {
			c := emod(x.Coef[k], m)
			if c.Sign() == 0 {
				continue
			}
			if a.Op == OMod {
				if s := log2(a.C); s >= 0 && emod(new(big.Int).Mul(c, a.C), m).Sign() == 0 {
					l.add(a.Args[0], c)
					continue
				}
			}
			l.add(a, c)
		}
		l.c.Add(l.c, emod(x.C, m))
		for _, a := range l.keysLin() {
			l.m[a] = emod(l.m[a], m)
			if l.m[a].Sign() == 0 {
				delete(l.m, a)
			}
		}
		l.c = emod(l.c, m)
		y := l.done()
		if y.IsConst() || y.Op != OLin {
			if y != x {
				return Bit(y, i)
			}
		}
		if y.Op == OLin {
			// split into high part (multiples of 2^j) and low part < 2^j, pick j<=i maximal
			best := digitSplit(y, i)
			if best != nil {
				return Bit(best, 0)
			}
		}
		x = y
		if x.Op != OLin {
			return Bit(x, i)
		}
		if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(pow2(i)) < 0 {
			return False
		}
	}
	if i == 0 && x.lo != nil && x.hi != nil && x.lo.Sign() == 0 && x.hi.Cmp(b1) == 0 {
		return Eq(x, One)
	}
	t := mk(&T{Op: OBit, Sort: SBool, Args: []*T{x}, I: i})
	if !t.hasSim {
		simBit(t)
	}
	return t
}

func (l *linB) keysLin() []*T {
	var ks []*T
	for a := range l.m {
		ks = append(ks, a)
	}
	return ks
}

func isBitSum(x *T) bool {
	if x.Op == OB2I {
		return true
	}
	if x.Op != OLin {
		return false
	}
	for _, a := range x.Args {
		if a.Op != OB2I {
			return false
		}
	}
	return true
}

// digitSplit: y = L + 2^i*H with 0 <= L < 2^i : returns H (bit i of y is bit 0 of H), or nil.
func digitSplit(y *T, i int) *T {
	if i == 0 {
		return nil
	}
	m := pow2(i)
	lo, hi := newLin(), newLin()
	for k, a := range y.Args {
		if emod(y.Coef[k], m).Sign() == 0 {
			hi.add(a, fdiv(y.Coef[k], m))
		} else {
			lo.add(a, y.Coef[k])
		}
	}
	lo.c = emod(y.C, m)
	hi.c = fdiv(y.C, m)
	L := lo.done()
	if L.lo != nil && L.hi != nil && L.lo.Sign() >= 0 && L.hi.Cmp(m) < 0 {
		return hi.done()
	}
	// Try a digit straddling position i: L = L0 + 2^j*a with a single atom covering bit i, rest below 2^j
	if L.Op == OLin || nAtoms(L) == 1 {
		as, cs := L.Args, L.Coef
		if L.Op != OLin {
			return nil
		}
		// largest coefficient atom that is a power of two
		bi := -1
		for k := range as {
			if s := log2(cs[k]); s >= 0 && (bi < 0 || cs[k].Cmp(cs[bi]) > 0) {
				bi = k
			}
		}
		if bi < 0 {
			return nil
		}
		rest := newLin()
		for k := range as {
			if k != bi {
				rest.add(as[k], cs[k])
			}
		}
		rest.c = new(big.Int).Set(L.C)
		R := rest.done()
		if R.lo != nil && R.hi != nil && R.lo.Sign() >= 0 && R.hi.Cmp(cs[bi]) < 0 {
			j := log2(cs[bi])
			H := hi.done()
			// bit i of y = bit 0 of (H + floor(a*2^j / 2^i)) = bit0(H + div(a, 2^(i-j)))
			return Add(H, Div(as[bi], pow2(i-j)))
		}
	}
	return nil
}

func log2(c *big.Int) int {
	if c.Sign() <= 0 {
		return -1
	}
	n := c.BitLen() - 1
	if c.TrailingZeroBits() == uint(n) {
		return n
	}
	return -1
}

// FromBits builds sum 2^i b_i, recombining runs of consecutive bits of one source.
func FromBits(bs []*T) *T {
	l := newLin()
	for i := 0; i < len(bs); {
		b := bs[i]
		if b.Op == OBit {
			x, k := b.Args[0], b.I
			j := i + 1
			for j < len(bs) && bs[j].Op == OBit && bs[j].Args[0] == x && bs[j].I == k+(j-i) {
				j++
			}
			n := j - i
			// trailing constant-false bits beyond x's range are part of x
			if n >= 2 || fits(x, k+n) && k == 0 {
				l.add(Ext(x, k, n), pow2(i))
				i = j
				continue
			}
		}
		l.add(B2I(b), pow2(i))
		i++
	}
	return l.done()
}
func fits(x *T, n int) bool {
	return x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(pow2(n)) < 0
}

// ---- arrays ----

func Select(a, i *T) *T {
	for a.Op == OStore {
		d := Sub(a.Args[1], i)
		if d.IsConst() {
			if d.C.Sign() == 0 {
				return a.Args[2]
			}
			a = a.Args[0]
			continue
		}
		if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
			a = a.Args[0]
			continue
		}
		break
	}
	t := mk(&T{Op: OSelect, Sort: SInt, Args: []*T{a, i}})
	if b, ok := arrBounds[rootArr(a)]; ok && t.lo == nil {
		t.lo, t.hi = b[0], b[1]
	}
	return t
}

var arrBounds = map[*T][2]*big.Int{}

func rootArr(a *T) *T {
	for a.Op == OStore {
		a = a.Args[0]
	}
	return a
}
func Store(a, i, v *T) *T {
	if a.Op == OStore && a.Args[1] == i {
		a = a.Args[0]
	}
	return mk(&T{Op: OStore, Sort: SArr, Args: []*T{a, i, v}})
}

func App(name string, args ...*T) *T {
	return mk(&T{Op: OApp, Sort: SInt, Name: name, Args: args})
}
func BApp(name string, args ...*T) *T {
	t := mk(&T{Op: OBApp, Sort: SBool, Name: name, Args: args})
	if !t.hasSim {
		simAtom(t)
	}
	return t
}
func Forall(v *T, body *T) *T {
	if body == True || body == False {
		return body
	}
	t := &T{Op: OForall, Sort: SBool, Args: []*T{v, body}}
	r := mk(t)
	r.bound = freeBound(r)
	return r
}
func freeBound(t *T) bool { return false }

// ---- substitution / evaluation ----

func (t *T) String() string { return render(t, 0) }

func render(t *T, d int) string {
	if d > 8 {
		return fmt.Sprintf("#%d", t.id)
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, render(a, d+1))
		}
		return strings.Join(s, " ")
	}
	switch t.Op {
	case OConst:
		if t.Sort == SBool {
			return fmt.Sprint(t.C.Sign() != 0)
		}
		return t.C.String()
	case OVar:
		return t.Name
	case OLin:
		var s []string
		if t.C.Sign() != 0 {
			s = append(s, t.C.String())
		}
		for i, a := range t.Args {
			if len(s) > 12 {
				s = append(s, "...")
				break
			}
			if t.Coef[i].Cmp(b1) == 0 {
				s = append(s, render(a, d+1))
			} else {
				s = append(s, t.Coef[i].String()+"*"+render(a, d+1))
			}
		}
		return "(+ " + strings.Join(s, " ") + ")"
	case OMul:
		return "(* " + as() + ")"
	case ODiv:
		return "(div " + as() + " " + t.C.String() + ")"
	case OMod:
		return "(mod " + as() + " " + t.C.String() + ")"
	case OIte:
		return "(ite " + as() + ")"
	case OB2I:
		return "(b2i " + as() + ")"
	case OSelect:
		return "(select " + as() + ")"
	case OStore:
		return "(store " + as() + ")"
	case OApp, OBApp:
		return "(" + t.Name + " " + as() + ")"
	case ONot:
		return "(not " + as() + ")"
	case OAnd:
		return "(and " + as() + ")"
	case OXor:
		return "(xor " + as() + ")"
	case OEq0:
		return "(= 0 " + as() + ")"
	case OLe0:
		return "(<= " + as() + " 0)"
	case OBit:
		return fmt.Sprintf("(bit%d %s)", t.I, as())
	case OForall:
		return "(forall " + as() + ")"
	case OEqA:
		return "(=A " + as() + ")"
	}
	return "?"
}

func isPrimeField(p *big.Int) bool {
	for _, q := range curveFields {
		if q.Cmp(p) == 0 {
			return true
		}
	}
	return false
}

func isBitTerm(x *T) bool {
	return x.Sort == SInt && x.lo != nil && x.hi != nil && x.lo.Sign() == 0 && x.hi.Cmp(b1) == 0
}

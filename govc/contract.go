package main

// Contracts: preconditions, circuit-constraint conditions, results and
// postconditions of the repository's functions, and the verification of one
// function against its contract on one circuit/argument shape.

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Contract of one function.
type Contract struct {
	Prop     string
	Pkg      string // full import path
	Fn       string // "decode", "(*T).M", "Flip[uint]"
	Native   string // in-package expression denoting the function (default: Fn)
	NoNative bool
	Cases    []*Case
	Spec     func(e *Env)
	Mutates  bool // may write memory reachable from its arguments (no frame obligation)
	Summary  bool // callers are verified against this contract, not the body
	PanicsOK bool
	NoPrune  bool // keep infeasible branches (their pruning would hide a uniform structure)
	Optional bool // unexported helper: if it no longer exists its callers are still verified with whatever replaced it
	Fraig    bool
	Sweep    bool // merge provably equal subterms before deciding the obligations
	Field    *big.Int
	Inline   bool
	Bounded  string // non-empty: the parameter sizes covered, when the shapes do not cover the whole property
	ResBits  bool
}

// Case: one shape of the arguments (for circuits: one circuit instance).
type Case struct {
	Name     string
	Build    func(b *B) []Val
	Sample   func(r *rand.Rand, m map[string]*big.Int, b *B) // optional sampler for the concrete search
	Thorough bool
	Samples  int
	Timeout  time.Duration
	Weight   int
	Also     string // further properties this case is run for
	UseSum   bool   // use summaries of callees
}

func (c *Contract) SSAName() string {
	if strings.HasPrefix(c.Fn, "(*") {
		return "(*" + c.Pkg + "." + c.Fn[2:]
	}
	if strings.HasPrefix(c.Fn, "(") {
		return "(" + c.Pkg + "." + c.Fn[1:]
	}
	return c.Pkg + "." + c.Fn
}
func (c *Contract) Key() string { return strings.TrimPrefix(c.SSAName(), mod) }

var contracts []*Contract
var byName = map[string]*Contract{}

func reg(c *Contract) *Contract {
	if !strings.Contains(c.Pkg, ".") {
		c.Pkg = mod + c.Pkg
	}
	if c.Native == "" && !c.NoNative {
		c.Native = c.Fn
	}
	contracts = append(contracts, c)
	if c.Summary {
		byName[c.SSAName()] = c
	}
	return c
}

// Env is what a specification sees.
type Env struct {
	x    *Exec
	st   *State
	fn   *ssa.Function
	b    *B
	Args []Val
	Call bool

	Pre      []*T
	Cons     []Clause // satisfiable iff all hold
	PanicIff *T
	Results  []Val
	PostF    func(p *Post)
	After    map[int]Val // expected contents of an argument slice afterwards
	Skipped  bool
}

type Clause struct {
	Name string
	T    *T
}

type Post struct {
	e       *Env
	Res     []Val
	st      *State // state in which results are read
	Clauses []Clause
}

func (p *Post) Ensure(name string, t *T) { p.Clauses = append(p.Clauses, Clause{name, t}) }
func (e *Env) Require(t *T)              { e.Pre = append(e.Pre, t) }
func (e *Env) Constrain(name string, t *T) {
	e.Cons = append(e.Cons, Clause{name, t})
}
func (e *Env) Return(vs ...Val)        { e.Results = vs }
func (e *Env) Ensures(f func(p *Post)) { e.PostF = f }
func (e *Env) Skip()                   { e.Skipped = true }

func asInt(v Val) *T {
	t, ok := tryFe(v)
	if !ok {
		unsup("spec: not an integer: %T", v)
	}
	// specifications speak of canonical field elements
	switch x := v.(type) {
	case Fe:
		t = canonFe(t)
	case IfaceV:
		switch x.v.(type) {
		case Fe, *T:
			t = canonFe(t)
		}
	}
	return t
}

func canonFe(t *T) *T {
	if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && t.hi.Cmp(fieldP) < 0 {
		return t
	}
	return Mod(t, fieldP)
}

func (e *Env) Int(i int) *T { return asInt(e.Args[i]) }
func (e *Env) N(i int) int {
	t := e.Int(i)
	if !t.IsConst() {
		unsup("spec: symbolic size")
	}
	return int(t.Int64())
}
func (e *Env) Len(i int) int {
	switch s := e.Args[i].(type) {
	case SliceV:
		if !s.len.IsConst() {
			unsup("spec: symbolic length")
		}
		return int(s.len.Int64())
	case *ArrV:
		return len(s.e)
	case StrV:
		return int(strLen(s).Int64())
	}
	unsup("spec: len of %T", e.Args[i])
	return 0
}
func elemsOf(st *State, v Val) []Val {
	switch s := v.(type) {
	case SliceV:
		return st.elems(s)
	case *ArrV:
		return s.e
	case Ptr:
		return elemsOf(st, st.load(s))
	case IfaceV:
		return elemsOf(st, s.v)
	}
	unsup("spec: elements of %T", v)
	return nil
}
func intsOf(st *State, v Val) []*T {
	if s, ok := v.(StrV); ok {
		var out []*T
		for i := 0; i < len(s.s) && !s.sym; i++ {
			out = append(out, CI(int64(s.s[i])))
		}
		if s.sym {
			for i := int64(0); i < s.n.Int64(); i++ {
				out = append(out, Select(s.a, Add(s.off, CI(i))))
			}
		}
		return out
	}
	var out []*T
	for _, e := range elemsOf(st, v) {
		out = append(out, valInt(st, e))
	}
	return out
}
func valInt(st *State, e Val) *T {
	switch x := e.(type) {
	case Ptr:
		return asInt(st.load(x))
	case IfaceV:
		if p, ok := x.v.(Ptr); ok {
			return asInt(st.load(p))
		}
	}
	return asInt(e)
}
func (e *Env) Ints(i int) []*T   { return intsOf(e.st, e.Args[i]) }
func (e *Env) Elems(i int) []Val { return elemsOf(e.st, e.Args[i]) }
func (e *Env) Field(i, f int) Val {
	v := e.Args[i]
	if p, ok := v.(Ptr); ok {
		v = e.st.load(p)
	}
	return v.(*StructV).f[f]
}
func (p *Post) Ints(i int) []*T   { return intsOf(p.st, p.Res[i]) }
func (p *Post) Elems(i int) []Val { return elemsOf(p.st, p.Res[i]) }
func (p *Post) Int(i int) *T      { return valInt(p.st, p.Res[i]) }
func (p *Post) Len(i int) *T {
	switch s := p.Res[i].(type) {
	case SliceV:
		return s.len
	case *ArrV:
		return CI(int64(len(s.e)))
	case StrV:
		return strLen(s)
	}
	return CI(-1)
}

// bits of 0/1 terms
func toBool(t *T) *T {
	c, ok := asBoolInt(t)
	if !ok {
		return Eq(t, One)
	}
	return c
}
func bools(ts []*T) []*T {
	out := make([]*T, len(ts))
	for i, t := range ts {
		out[i] = toBool(t)
	}
	return out
}

// constructors of result values
var anyT = types.NewInterfaceType(nil, nil)
var u8T = types.Typ[types.Uint8]

func (e *Env) FeSlice(ts []*T) Val {
	vs := make([]Val, len(ts))
	for i := range ts {
		vs[i] = feVal(ts[i])
	}
	return e.st.newSlice(vs, anyT)
}
func (e *Env) IntSlice(ts []*T) Val {
	vs := make([]Val, len(ts))
	for i := range ts {
		vs[i] = ts[i]
	}
	return e.st.newSlice(vs, types.Typ[types.Int])
}
func (e *Env) SliceOf(vs []Val) Val { return e.st.newSlice(vs, anyT) }
func (e *Env) Big(t *T) Val {
	o := e.x.newObj("big", nil)
	e.st.mem[o] = BigV{t}
	return Ptr{o: o}
}
func FeArr(ts []*T) Val {
	a := &ArrV{}
	for _, t := range ts {
		a.e = append(a.e, feVal(t))
	}
	return a
}
func IntArr(ts []*T) Val {
	a := &ArrV{}
	for _, t := range ts {
		a.e = append(a.e, t)
	}
	return a
}

// ---- argument builder ----

type B struct {
	x    *Exec
	st   *State
	vars []*T
	feas map[*T]bool
	fn   *ssa.Function
}

func (b *B) v(name string, lo, hi *big.Int) *T {
	t := FreshInt(name, lo, hi)
	b.vars = append(b.vars, t)
	return t
}
func pm1() *big.Int { return new(big.Int).Sub(fieldP, b1) }

func (b *B) API() Val           { return IfaceV{feType, apiOpaque} }
func (b *B) Fe(name string) Val { return feVal(b.v(name, b0, pm1())) }
func (b *B) FeB(name string, hi int64) Val {
	return feVal(b.v(name, b0, big.NewInt(hi)))
}
func (b *B) FeBits(name string, n int) Val {
	return feVal(b.v(name, b0, new(big.Int).Sub(pow2(n), b1)))
}
func (b *B) ConstFe(n int64) Val { return IfaceV{types.Typ[types.Int], CI(n)} }
func (b *B) I(n int) Val         { return CI(int64(n)) }
func (b *B) U(name string, bits int) *T {
	return b.v(name, b0, new(big.Int).Sub(pow2(bits), b1))
}
func (b *B) S(name string, bits int) *T {
	return b.v(name, new(big.Int).Neg(pow2(bits-1)), new(big.Int).Sub(pow2(bits-1), b1))
}
func (b *B) R(name string, lo, hi int64) *T { return b.v(name, big.NewInt(lo), big.NewInt(hi)) }
func (b *B) Bool(name string) Val           { return Eq(b.v(name, b0, b1), One) }
func (b *B) Fes(name string, n int) Val {
	vs := make([]Val, n)
	for i := range vs {
		vs[i] = b.Fe(fmt.Sprintf("%s_%d", name, i))
	}
	return b.st.newSlice(vs, anyT)
}
func (b *B) FesB(name string, n int, hi int64) Val {
	vs := make([]Val, n)
	for i := range vs {
		vs[i] = b.FeB(fmt.Sprintf("%s_%d", name, i), hi)
	}
	return b.st.newSlice(vs, anyT)
}
func (b *B) FesBits(name string, n, w int) Val {
	vs := make([]Val, n)
	for i := range vs {
		vs[i] = b.FeBits(fmt.Sprintf("%s_%d", name, i), w)
	}
	return b.st.newSlice(vs, anyT)
}
func (b *B) FeArr(name string, n int, hi *big.Int) Val {
	a := &ArrV{}
	if hi == nil {
		hi = pm1()
	}
	for i := 0; i < n; i++ {
		a.e = append(a.e, feVal(b.v(fmt.Sprintf("%s_%d", name, i), b0, hi)))
	}
	return a
}
func (b *B) Slice(vs ...Val) Val { return b.st.newSlice(vs, anyT) }

// Spare is a slice of the values with spare capacity behind its length.
func (b *B) Spare(n int, vs ...Val) Val {
	l := len(vs)
	for i := 0; i < n && l > 0; i++ {
		vs = append(vs, vs[l-1])
	}
	s := b.st.newSlice(vs, anyT)
	s.len = CI(int64(l))
	return s
}
func (b *B) Arr(vs ...Val) Val   { return &ArrV{e: vs} }
func (b *B) Bytes(name string, n int) Val {
	vs := make([]Val, n)
	for i := range vs {
		vs[i] = b.U(fmt.Sprintf("%s_%d", name, i), 8)
	}
	return b.st.newSlice(vs, u8T)
}
func (b *B) BytesCap(name string, n, c int) Val {
	vs := make([]Val, c)
	for i := range vs {
		if i < n {
			vs[i] = b.U(fmt.Sprintf("%s_%d", name, i), 8)
		} else {
			vs[i] = Zero
		}
	}
	s := b.st.newSlice(vs, u8T)
	s.len = CI(int64(n))
	return s
}
func (b *B) UintSlice(name string, n, w int) Val {
	vs := make([]Val, n)
	for i := range vs {
		vs[i] = b.U(fmt.Sprintf("%s_%d", name, i), w)
	}
	return b.st.newSlice(vs, types.Typ[types.Uint])
}
func (b *B) Bools(name string, n int) Val {
	vs := make([]Val, n)
	for i := range vs {
		vs[i] = b.Bool(fmt.Sprintf("%s_%d", name, i))
	}
	return b.st.newSlice(vs, types.Typ[types.Bool])
}
func (b *B) ByteArr(name string, n int) Val {
	a := &ArrV{}
	for i := 0; i < n; i++ {
		a.e = append(a.e, b.U(fmt.Sprintf("%s_%d", name, i), 8))
	}
	return a
}
func (b *B) Big(name string, lo, hi *big.Int) Val {
	o := b.x.newObj("big", nil)
	b.st.mem[o] = BigV{b.v(name, lo, hi)}
	return Ptr{o: o}
}
func (b *B) BigC(v *big.Int) Val {
	o := b.x.newObj("big", nil)
	b.st.mem[o] = BigV{CB(v)}
	return Ptr{o: o}
}
func (b *B) PtrTo(v Val) Val {
	o := b.x.newObj("arg", nil)
	b.st.mem[o] = v
	return Ptr{o: o}
}
func (b *B) Str(s string) Val { return StrV{s: s} }
func (b *B) SymStr(name string, n int) Val {
	a := FreshArr(name + "z")
	arrBounds[a] = [2]*big.Int{b0, big.NewInt(255)}
	for i := 0; i < n; i++ {
		a = Store(a, CI(int64(i)), b.U(fmt.Sprintf("%s_%d", name, i), 8))
	}
	return StrV{sym: true, a: a, off: Zero, n: CI(int64(n))}
}

// ---- verification of one case ----

type CaseResult struct {
	C         *Contract
	Case      *Case
	Err       string // engine could not process the function
	Obls      []Obligation
	Env       *Env
	B         *B
	Exec      *Exec
	Start     *State
	Outs      []Outcome
	Vacuous   bool
	SymTime   time.Duration
	StartArgs []Val
}

func runCase(P *Program, c *Contract, cs *Case, noSum ...string) (r *CaseResult) {
	r = &CaseResult{C: c, Case: cs}
	t0 := time.Now()
	defer func() { r.SymTime = time.Since(t0) }()
	fieldP = bn254
	if c.Field != nil {
		fieldP = c.Field
	}
	fraigOn = c.Fraig
	pendingAxioms = nil
	x := NewExec(P)
	x.active = c
	if c.NoPrune {
		x.feasSpent = time.Hour
	}
	tm := cs.Timeout
	if tm == 0 {
		tm = 240 * time.Second
	}
	x.deadline = t0.Add(tm)
	x.contract = func(fn *ssa.Function) *Contract {
		if s, ok := byName[fnName(fn)]; ok && s.Summary {
			for _, n := range noSum {
				if n == s.Key() {
					return nil
				}
			}
			return s
		}
		return nil
	}
	r.Exec = x
	st := &State{x: x, mem: map[*Obj]Val{}}
	r.B = &B{x: x, st: st}
	fn := P.Lookup(c.SSAName())
	if fn == nil {
		r.Err = "function not found: " + c.SSAName()
	}
	r.B.fn = fn
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(Unsupported); ok {
				r.Err = u.msg + " (at " + x.posOf(x.curPos) + ")"
				return
			}
			if os.Getenv("GOVC_CRASH") != "" {
				panic(e)
			}
			r.Err = fmt.Sprint("engine: ", e, " (at ", x.posOf(x.curPos), ")")
		}
	}()
	args := cs.Build(r.B)
	r.StartArgs = args
	e := &Env{x: x, st: st, fn: fn, b: r.B, Args: args}
	r.Env = e
	c.Spec(e)
	r.Start = st.clone()
	if fn == nil {
		return
	}
	if len(fn.Params) != len(args) {
		r.Err = "signature changed"
		return
	}
	for _, p := range e.Pre {
		st.assume(p)
	}
	ca := make([]Val, len(args))
	for i := range args {
		ca[i] = copyVal(args[i])
	}
	// package initialisation happens before
	if fn.Pkg != nil && !x.initDone[fn.Pkg] {
		x.runInit(fn.Pkg)
	}
	x.push(st, fn, ca, nil, nil)
	x.run(st, nil)
	r.Outs = x.outs
	if len(x.outs) == 0 {
		r.Err = "no path reaches the end"
		return
	}
	for i := range x.obls {
		x.obls[i].Kind = "safety"
	}
	var consT []*T
	for _, k := range e.Cons {
		consT = append(consT, k.T)
	}
	add := func(kind, name, pos string, h []*T, g *T) {
		x.obls = append(x.obls, Obligation{Name: name, Pos: pos, Hyps: h, Goal: g, Kind: kind})
	}
	pIff := e.PanicIff
	if pIff == nil {
		pIff = False
	}
	for oi, o := range x.outs {
		sfx := ""
		if len(x.outs) > 1 {
			sfx = fmt.Sprintf(" [path %d]", oi)
		}
		if o.kind == "panic" {
			// a panic while building the circuit is legitimate only under PanicIff (or when no assignment can satisfy the contract)
			add("no-panic", "no panic: "+o.msg+sfx, o.pos, o.st.pc, Or(pIff, Not(And(consT...))))
			continue
		}
		h := o.st.hyps()
		add("no-panic", "panics when required"+sfx, o.pos, o.st.pc, Not(pIff))
		for _, k := range e.Cons {
			add("soundness", "constraints imply: "+k.Name+sfx, o.pos, h, k.T)
		}
		// completeness of every constraint
		hc := append(append([]*T{}, o.st.pc...), consT...)
		hc = append(hc, o.st.honest...)
		for ci, k := range o.st.cons {
			add("completeness", fmt.Sprintf("satisfiable by honest prover: %s #%d%s", k.desc, ci, sfx), k.pos, append([]*T{}, hc...), k.t)
			hc = append(hc, k.t)
		}
		// soundness-side result obligations may assume the contract's own condition
		h = append(h, consT...)
		func() {
			p := &Post{e: e, Res: o.vals, st: o.st}
			if e.Results != nil {
				if len(e.Results) != len(o.vals) {
					p.Ensure("result count", False)
				} else {
					for i := range e.Results {
						eqClauses(p, e.st2(r), e.Results[i], o.st, o.vals[i], fmt.Sprintf("result%d", i))
					}
				}
			}
			if e.PostF != nil {
				e.PostF(p)
			}
			for i, exp := range e.After {
				eqClauses(p, r.Start, exp, o.st, args[i], fmt.Sprintf("arg%d afterwards", i))
			}
			for _, k := range p.Clauses {
				add("postcondition", k.Name+sfx, o.pos, h, k.T)
			}
		}()
		if !c.Mutates {
			frame(add, r, o, h, sfx)
		}
	}
	r.Obls = x.obls
	r.Exec = x
	return
}

func (e *Env) st2(r *CaseResult) *State { return r.Start }

func frame(add func(kind, name, pos string, h []*T, g *T), r *CaseResult, o Outcome, h []*T, sfx string) {
	n := 0
	goal := []*T{}
	var args []*Obj
	seen := map[*Obj]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		switch y := v.(type) {
		case Ptr:
			if y.o != nil && !seen[y.o] {
				seen[y.o] = true
				args = append(args, y.o)
				walk(r.Start.mem[y.o])
			}
		case SliceV:
			walk(y.base)
		case IfaceV:
			walk(y.v)
		case *StructV:
			for _, f := range y.f {
				walk(f)
			}
		case *ArrV:
			for _, f := range y.e {
				walk(f)
			}
		}
	}
	for _, a := range r.StartArgs {
		walk(a)
	}
	for _, ob := range args {
		p := &Post{}
		eqClauses(p, r.Start, r.Start.mem[ob], o.st, o.st.mem[ob], "frame")
		for _, k := range p.Clauses {
			goal = append(goal, k.T)
			n++
		}
	}
	if n > 0 {
		add("frame", "arguments unchanged"+sfx, o.pos, h, And(goal...))
	}
}

// eqClauses adds the clauses "expected = actual", leaf by leaf.
func eqClauses(p *Post, es *State, exp Val, as *State, act Val, name string) {
	switch x := exp.(type) {
	case nil:
		return
	case *T:
		y, ok := tryFe(act)
		if !ok {
			p.Ensure(name, False)
			return
		}
		if x.Sort == SBool {
			if t, ok := act.(*T); ok && t.Sort == SBool {
				p.Ensure(name, Iff(x, t))
				return
			}
			x = B2I(x)
		}
		if x.Sort == SArr {
			p.Ensure(name, Eq(x, act.(*T)))
			return
		}
		p.Ensure(name, Eq(x, y))
	case Fe:
		y, ok := tryFe(act)
		if !ok {
			p.Ensure(name, False)
			return
		}
		p.Ensure(name, eqMod(x.t, y))
	case BigV:
		y, ok := tryFe(act)
		if !ok {
			p.Ensure(name, False)
			return
		}
		p.Ensure(name, Eq(x.t, y))
	case IfaceV:
		y, ok := act.(IfaceV)
		if !ok {
			p.Ensure(name, False)
			return
		}
		if x.t == nil || y.t == nil {
			p.Ensure(name+" is nil", Bool(x.t == nil && y.t == nil))
			return
		}
		if fx, ok := tryFe(x); ok {
			var fy *T
			if q, isP := y.v.(Ptr); isP && q.o != nil {
				if bv, ok := as.load(q).(BigV); ok {
					fy = bv.t
				}
			} else if t, ok := tryFe(y); ok {
				fy = t
			}
			if fy == nil {
				p.Ensure(name, False)
				return
			}
			p.Ensure(name, eqMod(fx, fy))
			return
		}
		if _, isOp := x.v.(Opaque); isOp { // any non-nil value
			p.Ensure(name+" is non-nil", True)
			return
		}
		eqClauses(p, es, x.v, as, y.v, name)
	case *StructV:
		y, ok := act.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			p.Ensure(name, False)
			return
		}
		for i := range x.f {
			eqClauses(p, es, x.f[i], as, y.f[i], fmt.Sprintf("%s.%d", name, i))
		}
	case *ArrV:
		y, ok := act.(*ArrV)
		if !ok || len(x.e) != len(y.e) {
			p.Ensure(name, False)
			return
		}
		for i := range x.e {
			eqClauses(p, es, x.e[i], as, y.e[i], fmt.Sprintf("%s[%d]", name, i))
		}
	case SliceV:
		y, ok := act.(SliceV)
		if !ok {
			p.Ensure(name, False)
			return
		}
		if !y.len.IsConst() && x.len.IsConst() {
			p.Ensure("len("+name+")", Eq(x.len, y.len))
			for i := int64(0); i < x.len.Int64(); i++ {
				if y.base.o == nil {
					p.Ensure(name, False)
					return
				}
				eqClauses(p, es, es.load(x.at(CI(i))), as, as.load(y.at(CI(i))), fmt.Sprintf("%s[%d]", name, i))
			}
			return
		}
		if Eq(x.len, y.len) != True {
			p.Ensure("len("+name+")", Eq(x.len, y.len))
			return
		}
		a, b := es.elems(x), as.elems(y)
		for i := range a {
			eqClauses(p, es, a[i], as, b[i], fmt.Sprintf("%s[%d]", name, i))
		}
	case StrV:
		y, ok := act.(StrV)
		if !ok {
			p.Ensure(name, False)
			return
		}
		if !x.sym && !y.sym {
			p.Ensure(name, Bool(x.s == y.s))
			return
		}
		xl, yl := strLen(x), strLen(y)
		p.Ensure("len("+name+")", Eq(xl, yl))
		n := xl
		if !n.IsConst() {
			n = yl
		}
		if !n.IsConst() {
			unsup("string comparison of symbolic length")
		}
		for i := int64(0); i < n.Int64(); i++ {
			g := Eq(strAt(x, i), strAt(y, i))
			p.Ensure(fmt.Sprintf("%s[%d]", name, i), g)
		}
	case Ptr:
		y, ok := act.(Ptr)
		if !ok {
			p.Ensure(name, False)
			return
		}
		if x.o == nil || y.o == nil {
			p.Ensure(name+" is nil", Bool(x.o == nil && y.o == nil))
			return
		}
		if es == as && samePtr(x, y) {
			return
		}
		eqClauses(p, es, es.load(x), as, as.load(y), "*"+name)
	case Tuple:
		y := act.(Tuple)
		for i := range x {
			eqClauses(p, es, x[i], as, y[i], name)
		}
	case ArrS:
		y, ok := act.(ArrS)
		if !ok {
			p.Ensure(name, False)
			return
		}
		p.Ensure(name, Eq(x.a, y.a))
	case Opaque, FuncV, MapV, *MapRoot, IterV, *IterRoot:
		return
	default:
		unsup("spec: compare %T", exp)
	}
}

func strAt(s StrV, i int64) *T {
	if s.sym {
		return Select(s.a, Add(s.off, CI(i)))
	}
	if int(i) >= len(s.s) {
		return CI(-1)
	}
	return CI(int64(s.s[i]))
}

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(st *State, f *Frame, i *ssa.Call, fn *ssa.Function, c *Contract, args []Val) ([]*State, bool) {
	e := &Env{x: x, st: st, fn: fn, Args: args, Call: true}
	c.Spec(e)
	if e.Skipped || (e.Results == nil && fn.Signature.Results().Len() > 0) {
		x.inlined[fnName(fn)] = true
		x.push(st, fn, args, nil, i)
		return nil, false
	}
	x.used[c.Key()] = true
	for k, p := range e.Pre {
		x.oblige(st, "precondition", fmt.Sprintf("precondition %d of %s", k, c.Key()), p)
	}
	if e.PanicIff != nil {
		if !x.check(st, "panic in "+c.Key(), Not(e.PanicIff)) {
			return nil, true
		}
	}
	for _, k := range e.Cons {
		x.constrain(st, k.T, c.Key()+": "+k.Name)
	}
	for ai, v := range e.After {
		if q, ok := args[ai].(Ptr); ok {
			st.store(q, st.load(v.(Ptr)))
			continue
		}
		s := args[ai].(SliceV)
		for j, ev := range elemsOf(st, v) {
			st.store(s.at(CI(int64(j))), ev)
		}
	}
	var v Val
	switch len(e.Results) {
	case 0:
		v = Tuple{}
	case 1:
		v = e.Results[0]
	default:
		v = Tuple(e.Results)
	}
	return x.finish(st, f, i)(v, true)
}

// ---- encoding of concrete values for the native driver ----

type J = map[string]interface{}

func encVal(st *State, v Val, t types.Type, m *Model) J {
	ev := func(t *T) *big.Int { return m.Eval(t) }
	switch x := v.(type) {
	case nil:
		return J{"z": true}
	case *T:
		n := ev(x)
		if x.Sort == SBool || t != nil && isBoolT(t) {
			return J{"b": n.Sign() != 0}
		}
		return J{"i": n.String()}
	case Fe:
		return J{"v": emod(ev(x.t), fieldP).String()}
	case BigV:
		return J{"big": ev(x.t).String()}
	case IfaceV:
		if x.t == nil {
			return J{"nil": true}
		}
		switch y := x.v.(type) {
		case Fe:
			return J{"v": emod(ev(y.t), fieldP).String()}
		case *T:
			return J{"ci": ev(y).String(), "ty": x.t.String()}
		case Opaque:
			if y.kind == "api" {
				return J{"api": true}
			}
			return J{"err": true}
		case Ptr:
			if b, ok := st.load(y).(BigV); ok {
				return J{"ci": ev(b.t).String()}
			}
		}
		return encVal(st, x.v, x.t, m)
	case StrV:
		if !x.sym {
			return J{"s": hex.EncodeToString([]byte(x.s))}
		}
		n := ev(x.n).Int64()
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(ev(Select(x.a, Add(x.off, CI(int64(i))))).Int64())
		}
		return J{"s": hex.EncodeToString(b)}
	case SliceV:
		if x.base.o == nil {
			return J{"l": []interface{}{}}
		}
		n := ev(x.len).Int64()
		off := ev(x.off).Int64()
		et := elemT(t)
		l := make([]interface{}, n)
		for i := range l {
			p := x.base.sub(PE{idx: CI(off + int64(i))})
			l[i] = encVal(st, st.load(p), et, m)
		}
		var j J
		if isU8(et) {
			b := make([]byte, n)
			for i := range b {
				k, _ := new(big.Int).SetString(l[i].(J)["i"].(string), 10)
				b[i] = byte(k.Int64())
			}
			j = J{"x": hex.EncodeToString(b)}
		} else {
			j = J{"l": l}
		}
		if c := ev(x.cap).Int64(); c != n {
			j["cap"] = c
		}
		return j
	case *ArrV:
		et := elemT(t)
		l := make([]interface{}, len(x.e))
		for i := range l {
			l[i] = encVal(st, x.e[i], et, m)
		}
		if isU8(et) {
			b := make([]byte, len(l))
			for i := range b {
				k, _ := new(big.Int).SetString(l[i].(J)["i"].(string), 10)
				b[i] = byte(k.Int64())
			}
			return J{"x": hex.EncodeToString(b)}
		}
		return J{"l": l}
	case *StructV:
		if t != nil && t.String() == mimcType {
			return J{"mimc": true}
		}
		l := make([]interface{}, len(x.f))
		var u *types.Struct
		if t != nil {
			u, _ = t.Underlying().(*types.Struct)
		}
		for i := range l {
			var ft types.Type
			if u != nil && i < u.NumFields() {
				ft = u.Field(i).Type()
			}
			l[i] = encVal(st, x.f[i], ft, m)
		}
		return J{"o": l}
	case Ptr:
		if x.o == nil {
			return J{"nil": true, "z": true}
		}
		var pt types.Type
		if t != nil {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				pt = p.Elem()
			}
		}
		in := st.load(x)
		if b, ok := in.(BigV); ok {
			return J{"big": ev(b.t).String()}
		}
		return J{"p": encVal(st, in, pt, m)}
	case FuncV, MapV, Opaque:
		return J{"z": true}
	}
	unsup("encode %T", v)
	return nil
}

func elemT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}
func isU8(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// decVal turns a native result back into a constant value.
func decVal(st *State, j interface{}, t types.Type) Val {
	n, ok := j.(map[string]interface{})
	if !ok {
		return zeroVal(t)
	}
	num := func(s interface{}) *T {
		b, ok := new(big.Int).SetString(s.(string), 10)
		if !ok {
			unsup("native number %v", s)
		}
		return CB(b)
	}
	if n["api"] != nil {
		return IfaceV{feType, apiOpaque}
	}
	if s, ok := n["i"]; ok {
		if isBoolT(t) {
			return Bool(s.(string) != "0")
		}
		return num(s)
	}
	if s, ok := n["b"]; ok {
		return Bool(s.(bool))
	}
	if s, ok := n["v"]; ok {
		return feVal(num(s))
	}
	if s, ok := n["big"]; ok {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			_ = p
			o := st.x.newObj("nbig", nil)
			st.mem[o] = BigV{num(s)}
			return Ptr{o: o}
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return feVal(num(s))
		}
		return BigV{num(s)}
	}
	if s, ok := n["s"]; ok {
		h, _ := hex.DecodeString(s.(string))
		if _, isIf := t.Underlying().(*types.Interface); isIf {
			return IfaceV{types.Typ[types.String], StrV{s: string(h)}}
		}
		return StrV{s: string(h)}
	}
	if e, ok := n["err"]; ok {
		if e.(bool) {
			return IfaceV{feType, Opaque{kind: "error"}}
		}
		return IfaceV{}
	}
	var es []Val
	et := elemT(t)
	isL := false
	if s, ok := n["x"]; ok {
		h, _ := hex.DecodeString(s.(string))
		for _, c := range h {
			es = append(es, CI(int64(c)))
		}
		isL = true
	}
	if l, ok := n["l"]; ok {
		for _, e := range l.([]interface{}) {
			es = append(es, decVal(st, e, et))
		}
		isL = true
	}
	if isL {
		if _, ok := t.Underlying().(*types.Array); ok {
			return &ArrV{e: es}
		}
		return st.newSlice(es, et)
	}
	if l, ok := n["o"]; ok {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return zeroVal(t)
		}
		s := &StructV{}
		for i, e := range l.([]interface{}) {
			s.f = append(s.f, decVal(st, e, u.Field(i).Type()))
		}
		return s
	}
	if p, ok := n["p"]; ok {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			o := st.x.newObj("nptr", nil)
			st.mem[o] = decVal(st, p, pt.Elem())
			return Ptr{o: o}
		}
	}
	return zeroVal(t)
}

// Ptr: a result pointing to a fresh object holding v
func (e *Env) Ptr(v Val) Val {
	o := e.x.newObj("res", nil)
	e.st.mem[o] = v
	return Ptr{o: o}
}

// callSpec: the results of another contract applied to args, with its
// preconditions and constraints taken over
func (e *Env) callSpec(c *Contract, args ...Val) []Val {
	sub := *e
	sub.Args, sub.Cons, sub.Pre, sub.Results = args, nil, nil, nil
	sub.Call = true
	c.Spec(&sub)
	e.Cons = append(e.Cons, sub.Cons...)
	e.Pre = append(e.Pre, sub.Pre...)
	return sub.Results
}

func contractOf(prop, pkg, fn string) *Contract {
	for _, c := range contracts {
		if c.Prop == prop && c.Fn == fn && strings.HasSuffix(c.Pkg, pkg) {
			return c
		}
	}
	panic("no contract for " + pkg + "." + fn)
}

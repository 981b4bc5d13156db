package main

// Symbolic execution of go/ssa (naive form) with contracts and loop cuts.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Name string
	Pos  string
	Hyps []*T
	Goal *T
	Kind string
}

type Cons struct {
	t    *T
	desc string
	pos  string
}

type Outcome struct {
	kind string // return, panic, stop
	vals []Val
	msg  string
	pos  string
	st   *State
}

type Frame struct {
	fn      *ssa.Function
	info    *fnInfo
	regs    []Val
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	call    ssa.Instruction // call instruction in the caller (nil for entry)
	loops   []*activeLoop
	defers  []*ssa.Defer
	deferA  [][]Val
	visits  map[*ssa.BasicBlock]int
	entryGh map[string]Val // old() values
}

type State struct {
	x      *Exec
	mem    map[*Obj]Val
	stack  []*Frame
	pc     []*T
	cons   []Cons
	honest []*T
	notes  []string
}

type Exec struct {
	P         *Program
	outs      []Outcome
	obls      []Obligation
	objN      int
	globals   map[ssa.Value]*Obj
	inInit    bool
	initDone  map[*ssa.Package]bool
	baseMem   map[*Obj]Val
	trackers  []*tracker
	contract  func(fn *ssa.Function) *Contract
	active    *Contract // contract under verification (not applied to itself)
	steps     int64
	maxSteps  int64
	used      map[string]bool // contracts applied
	inlined   map[string]bool
	trusted   map[string]bool
	curPos    token.Pos
	feas      int
	feasSpent time.Duration
	loopUnr   int
	deadline  time.Time
	probing   int // >0: obligations suppressed
	hints     []*HintInst
}

type HintInst struct {
	fn   string
	in   []*T
	outs []*T
}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	loops []*loopInfo
	byHdr map[*ssa.BasicBlock]*loopInfo
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock
}
type loopInfo struct {
	ord    int
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	pos    token.Pos
}

func NewExec(p *Program) *Exec {
	return &Exec{P: p, globals: map[ssa.Value]*Obj{}, initDone: map[*ssa.Package]bool{}, baseMem: map[*Obj]Val{},
		maxSteps: 400_000_000, used: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, loopUnr: 3000}
}

func (x *Exec) newObj(name string, t types.Type) *Obj {
	x.objN++
	return &Obj{id: x.objN, name: name, typ: t}
}

func (st *State) clone() *State {
	n := &State{x: st.x, mem: make(map[*Obj]Val, len(st.mem))}
	for k, v := range st.mem {
		n.mem[k] = copyVal(v)
	}
	for _, f := range st.stack {
		g := *f
		g.regs = append([]Val{}, f.regs...)
		g.loops = append([]*activeLoop{}, f.loops...)
		g.visits = map[*ssa.BasicBlock]int{}
		for k, v := range f.visits {
			g.visits[k] = v
		}
		n.stack = append(n.stack, &g)
	}
	n.pc = append([]*T{}, st.pc...)
	n.cons = append([]Cons{}, st.cons...)
	n.honest = append([]*T{}, st.honest...)
	n.notes = append([]string{}, st.notes...)
	return n
}

func (st *State) top() *Frame { return st.stack[len(st.stack)-1] }

func (st *State) hyps() []*T {
	h := append([]*T{}, st.pc...)
	for _, c := range st.cons {
		h = append(h, c.t)
	}
	return h
}

func (st *State) assume(t *T) {
	if t == True {
		return
	}
	st.pc = append(st.pc, t)
}

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.P.Fset.Position(p)
	f := strings.TrimPrefix(ps.Filename, x.P.Repo+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) oblige(st *State, kind, name string, goal *T) {
	if x.probing > 0 || goal == True {
		if goal == True && x.probing == 0 {
			x.obls = append(x.obls, Obligation{Name: name, Pos: x.posOf(x.curPos), Goal: goal, Kind: kind})
		}
		return
	}
	x.obls = append(x.obls, Obligation{Name: name, Pos: x.posOf(x.curPos), Hyps: st.hyps(), Goal: goal, Kind: kind})
}

// constrain records a circuit constraint.
func (x *Exec) constrain(st *State, t *T, desc string) {
	st.cons = append(st.cons, Cons{t, desc, x.posOf(x.curPos)})
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.P.infos[fn]; ok {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}, byHdr: map[*ssa.BasicBlock]*loopInfo{}}
	add := func(v ssa.Value) { i.idx[v] = i.n; i.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := i.byHdr[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					i.byHdr[s] = l
					i.loops = append(i.loops, l)
				}
				var stack = []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	for _, l := range i.loops {
		l.pos = token.NoPos
		for b := range l.blocks {
			for _, ins := range b.Instrs {
				if _, isPhi := ins.(*ssa.Phi); isPhi {
					continue
				}
				if p := ins.Pos(); p.IsValid() && (!l.pos.IsValid() || p < l.pos) {
					l.pos = p
				}
			}
		}
	}
	sort.Slice(i.loops, func(a, b int) bool {
		la, lb := i.loops[a], i.loops[b]
		if la.blocks[lb.header] && la != lb {
			return true
		}
		if lb.blocks[la.header] && la != lb {
			return false
		}
		return la.pos < lb.pos
	})
	for k, l := range i.loops {
		l.ord = k
	}
	i.ipdom = postDoms(fn)
	x.P.infos[fn] = i
	return i
}

// immediate post-dominators (simple iterative; functions are small)
func postDoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	full := new(big.Int).Sub(pow2(n), b1)
	pd := make([]*big.Int, n)
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			pd[i] = pow2(i)
		} else {
			pd[i] = full
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			var m *big.Int
			for _, s := range b.Succs {
				// panicking blocks do not count as exits
				if isPanicBlock(s) {
					continue
				}
				if m == nil {
					m = new(big.Int).Set(pd[s.Index])
				} else {
					m.And(m, pd[s.Index])
				}
			}
			if m == nil {
				m = new(big.Int)
			}
			m = new(big.Int).SetBit(m, i, 1)
			if m.Cmp(pd[i]) != 0 {
				pd[i] = m
				ch = true
			}
		}
	}
	res := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		// the closest strict post-dominator: the one with most post-dominators itself
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && pd[i].Bit(j) == 1 {
				c := 0
				for k := 0; k < n; k++ {
					if pd[j].Bit(k) == 1 {
						c++
					}
				}
				if c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			res[b] = fn.Blocks[best]
		}
	}
	return res
}
func isPanicBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// ---- memory ----

func nav(v Val, path []PE) Val {
	for _, p := range path {
		switch c := v.(type) {
		case *StructV:
			v = c.f[p.f]
		case *ArrV:
			if p.idx == nil || !p.idx.IsConst() {
				unsup("symbolic index into concrete array")
			}
			i := int(p.idx.Int64())
			if i < 0 || i >= len(c.e) {
				unsup("index %d out of concrete array %d", i, len(c.e))
			}
			v = c.e[i]
		default:
			unsup("navigate into %T", v)
		}
	}
	return v
}

func (st *State) load(p Ptr) Val {
	root, ok := st.mem[p.o]
	if !ok && st.x != nil {
		if b, has := st.x.baseMem[p.o]; has {
			root, ok = copyVal(b), true
			st.mem[p.o] = root
		}
	}
	if !ok {
		unsup("load of unknown object %s", p.o.name)
	}
	n := len(p.path)
	if n > 0 && p.path[n-1].idx != nil {
		par := nav(root, p.path[:n-1])
		switch a := par.(type) {
		case ArrS:
			return fromElem(st, Select(a.a, p.path[n-1].idx), a.elem)
		case *ArrV:
			ix := p.path[n-1].idx
			if !ix.IsConst() {
				return st.selectConc(a, ix)
			}
		}
	}
	return copyVal(nav(root, p.path))
}

func (st *State) selectConc(a *ArrV, ix *T) Val {
	if len(a.e) == 0 {
		unsup("select in empty array")
	}
	v := a.e[len(a.e)-1]
	for i := len(a.e) - 2; i >= 0; i-- {
		m, ok := mergeVal(Eq(ix, CI(int64(i))), a.e[i], v)
		if !ok {
			unsup("symbolic index over unmergeable elements")
		}
		v = m
	}
	return copyVal(v)
}

func (st *State) store(p Ptr, v Val) {
	v = copyVal(v)
	st.x.track(st, p)
	if len(p.path) == 0 {
		st.mem[p.o] = v
		return
	}
	st.mem[p.o] = st.storeIn(st.mem[p.o], p.path, v)
}

func (st *State) storeIn(root Val, path []PE, v Val) Val {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	switch c := root.(type) {
	case *StructV:
		c.f[p.f] = st.storeIn(c.f[p.f], path[1:], v)
		return c
	case *ArrV:
		if p.idx.IsConst() {
			i := int(p.idx.Int64())
			if i < 0 || i >= len(c.e) {
				unsup("store index %d out of concrete array %d", i, len(c.e))
			}
			c.e[i] = st.storeIn(c.e[i], path[1:], v)
			return c
		}
		for i := range c.e {
			cond := Eq(p.idx, CI(int64(i)))
			if cond == False {
				continue
			}
			nv := st.storeIn(copyVal(c.e[i]), path[1:], v)
			m, ok := mergeVal(cond, nv, c.e[i])
			if !ok {
				unsup("symbolic store over unmergeable elements")
			}
			c.e[i] = m
		}
		return c
	case ArrS:
		if len(path) != 1 {
			unsup("nested store in symbolic array")
		}
		e, ok := toElem(st, v, c.elem)
		if !ok {
			unsup("store of non-scalar %T in symbolic array", v)
		}
		return ArrS{Store(c.a, p.idx, e), c.n, c.elem}
	}
	unsup("store into %T", root)
	return nil
}

func (p Ptr) sub(e PE) Ptr {
	np := make([]PE, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = e
	return Ptr{p.o, np}
}

// element pointer of slice s at i
func (s SliceV) at(i *T) Ptr { return s.base.sub(PE{idx: Add(s.off, i)}) }

func (st *State) newSlice(elems []Val, et types.Type) SliceV {
	o := st.x.newObj("slice", types.NewArray(et, int64(len(elems))))
	st.mem[o] = &ArrV{e: elems}
	n := CI(int64(len(elems)))
	return SliceV{Ptr{o: o}, Zero, n, n}
}

func (st *State) newSymSlice(a, n *T, et types.Type) SliceV {
	o := st.x.newObj("symslice", types.NewSlice(et))
	st.mem[o] = ArrS{a, n, et}
	return SliceV{Ptr{o: o}, Zero, n, n}
}

// elements of a slice of concrete length
func (st *State) elems(s SliceV) []Val {
	if s.base.o == nil {
		return nil
	}
	if !s.len.IsConst() {
		unsup("slice of symbolic length where a concrete one is needed")
	}
	n := int(s.len.Int64())
	out := make([]Val, n)
	for i := range out {
		out[i] = st.load(s.at(CI(int64(i))))
	}
	return out
}

// ---- registers ----

func (st *State) get(f *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Global:
		return Ptr{o: st.x.global(st, c)}
	case *ssa.Function:
		return FuncV{fn: c}
	case *ssa.Builtin:
		return Opaque{kind: "builtin", data: c.Name()}
	}
	i, ok := f.info.idx[v]
	if !ok {
		unsup("no register for %s", v.Name())
	}
	return f.regs[i]
}

func (st *State) set(f *Frame, v ssa.Value, val Val) { f.regs[f.info.idx[v]] = val }

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	if bt, ok := c.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Float64 {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return Opaque{kind: "float64", data: f}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return StrV{s: constant.StringVal(c.Value)}
	case constant.Int:
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsup("const %s", c.Value)
		}
		if _, _, ok := intInfo(c.Type()); ok {
			return CB(n)
		}
		return Opaque{kind: "const"}
	}
	if _, _, ok := intInfo(c.Type()); ok {
		if n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10); ok {
			return CB(n)
		}
	}
	return Opaque{kind: "const", data: c.Value.ExactString()}
}

func (x *Exec) global(st *State, g *ssa.Global) *Obj {
	if o, ok := x.globals[g]; ok {
		if _, ok := st.mem[o]; !ok {
			if v, ok := x.baseMem[o]; ok {
				st.mem[o] = copyVal(v)
			} else {
				st.mem[o] = zeroVal(g.Type().(*types.Pointer).Elem())
			}
		}
		return o
	}
	if x.P.scope(g.Pkg.Pkg.Path()) && !x.initDone[g.Pkg] {
		x.runInit(g.Pkg)
		return x.global(st, g)
	}
	o := x.newObj(g.String(), g.Type().(*types.Pointer).Elem())
	x.globals[g] = o
	if v, ok := globalModel(st, g); ok {
		st.mem[o] = v
		x.baseMem[o] = copyVal(v)
	} else {
		st.mem[o] = zeroVal(g.Type().(*types.Pointer).Elem())
	}
	return o
}

// runInit interprets the package initialiser concretely to obtain the values of package variables.
func (x *Exec) runInit(p *ssa.Package) {
	x.initDone[p] = true
	init := p.Func("init")
	// pre-create globals
	st := &State{x: x, mem: map[*Obj]Val{}}
	for o, v := range x.baseMem {
		st.mem[o] = copyVal(v)
	}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := x.globals[g]; !ok {
				o := x.newObj(g.String(), g.Type().(*types.Pointer).Elem())
				x.globals[g] = o
				st.mem[o] = zeroVal(g.Type().(*types.Pointer).Elem())
			}
		}
	}
	saved := x.outs
	savedObl := x.obls
	x.outs = nil
	was := x.inInit
	x.inInit = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					dbg("init of %s: %s", p.Pkg.Path(), u.msg)
					return
				}
				panic(r)
			}
		}()
		x.push(st, init, nil, nil, nil)
		x.run(st, nil)
	}()
	x.inInit = was
	var fin *State = st
	if len(x.outs) > 0 {
		fin = x.outs[0].st
	}
	for o, v := range fin.mem {
		x.baseMem[o] = v
	}
	x.outs = saved
	x.obls = savedObl
}

func (x *Exec) push(st *State, fn *ssa.Function, args []Val, bind []Val, call ssa.Instruction) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn.String())
	}
	if len(st.stack) > 400 {
		unsup("call depth")
	}
	info := x.info(fn)
	f := &Frame{fn: fn, info: info, regs: make([]Val, info.n), block: fn.Blocks[0], call: call, visits: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		f.regs[info.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[info.idx[p]] = bind[i]
	}
	st.stack = append(st.stack, f)
}

type stopAt struct {
	depth int
	block *ssa.BasicBlock
}

// run executes st until all paths end or (if stop != nil) reach the stop block at the stop depth.
func (x *Exec) run(st *State, stop *stopAt) (arrived []*State) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if len(s.stack) == 0 {
				break
			}
			f := s.top()
			if stop != nil && len(s.stack) == stop.depth && f.block == stop.block && f.pc == phiEnd(f.block) && f.prev != nil {
				// phis already evaluated on entry
				arrived = append(arrived, s)
				break
			}
			if f.pc >= len(f.block.Instrs) {
				unsup("fell off block")
			}
			more, done := x.step(s, f)
			work = append(work, more...)
			if done {
				break
			}
		}
	}
	return
}

func phiEnd(b *ssa.BasicBlock) int {
	n := 0
	for n < len(b.Instrs) {
		if _, ok := b.Instrs[n].(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

// enter moves frame f to block b (evaluating phis). Returns false if the path ended (loop back-edge).
func (x *Exec) enter(st *State, f *Frame, b *ssa.BasicBlock) bool {
	from := f.block
	var vals []Val
	n := phiEnd(b)
	if n > 0 {
		k := -1
		for i, p := range b.Preds {
			if p == from {
				k = i
			}
		}
		for i := 0; i < n; i++ {
			vals = append(vals, st.get(f, b.Instrs[i].(*ssa.Phi).Edges[k]))
		}
		for i := 0; i < n; i++ {
			st.set(f, b.Instrs[i].(*ssa.Phi), vals[i])
		}
	}
	f.prev = from
	f.block = b
	f.pc = n
	// leaving loops
	for len(f.loops) > 0 {
		l := f.loops[len(f.loops)-1]
		if l.info.blocks[b] {
			break
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	if li := f.info.byHdr[b]; li != nil {
		return x.atHeader(st, f, li)
	}
	return true
}

func dbg(f string, a ...interface{}) {
	if debugOn {
		fmt.Printf("# "+f+"\n", a...)
	}
}

func (x *Exec) end(st *State, kind string, vals []Val, msg string) {
	x.outs = append(x.outs, Outcome{kind: kind, vals: vals, msg: msg, pos: x.posOf(x.curPos), st: st})
	st.stack = nil
}

func (x *Exec) doPanic(st *State, msg string) { x.end(st, "panic", nil, msg) }

// check emits a safety obligation (or ends the path if definitely violated). Returns false if the path ended.
func (x *Exec) check(st *State, what string, cond *T) bool {
	if cond == True {
		return true
	}
	if cond == False {
		x.doPanic(st, what)
		return false
	}
	if x.active != nil && x.active.PanicsOK {
		// fork: the violating side is a panic outcome
		n := st.clone()
		n.assume(Not(cond))
		x.doPanic(n, what)
		st.assume(cond)
		return true
	}
	x.oblige(st, "safety", what, cond)
	st.assume(cond)
	return true
}

// step executes one instruction. done=true: this state ended or was replaced by more.
func (x *Exec) step(st *State, f *Frame) (more []*State, done bool) {
	x.steps++
	if x.steps > x.maxSteps {
		unsup("step limit")
	}
	if x.steps&0xfffff == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
		unsup("symbolic execution time limit")
	}
	ins := f.block.Instrs[f.pc]
	if p := ins.Pos(); p.IsValid() && x.P.inRepo(p) {
		x.curPos = p
	}
	f.pc++
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := x.newObj(i.Comment, i.Type().Underlying().(*types.Pointer).Elem())
		st.mem[o] = zeroVal(o.typ)
		st.set(f, i, Ptr{o: o})
	case *ssa.UnOp:
		return nil, !x.unop(st, f, i)
	case *ssa.BinOp:
		a, b := st.get(f, i.X), st.get(f, i.Y)
		r, ok := x.binop(st, i.Op, a, b, i.X.Type(), i.Y.Type(), i.Type())
		if !ok {
			return nil, true
		}
		if len(pendingAxioms) > 0 {
			for _, a := range pendingAxioms {
				st.assume(a)
			}
			pendingAxioms = nil
		}
		st.set(f, i, r)
	case *ssa.Store:
		p := st.get(f, i.Addr).(Ptr)
		if p.o == nil {
			x.doPanic(st, "nil pointer store")
			return nil, true
		}
		st.store(p, st.get(f, i.Val))
	case *ssa.FieldAddr:
		p, isP := st.get(f, i.X).(Ptr)
		if !isP {
			unsup("field of opaque value %v", st.get(f, i.X))
		}
		if p.o == nil {
			x.doPanic(st, "nil pointer dereference")
			return nil, true
		}
		st.set(f, i, p.sub(PE{f: i.Field}))
	case *ssa.Field:
		v, ok := st.get(f, i.X).(*StructV)
		if !ok {
			unsup("field of %T", st.get(f, i.X))
		}
		st.set(f, i, v.f[i.Field])
	case *ssa.IndexAddr:
		ix := st.get(f, i.Index).(*T)
		switch c := st.get(f, i.X).(type) {
		case Ptr: // pointer to array
			if c.o == nil {
				x.doPanic(st, "nil array pointer")
				return nil, true
			}
			n := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !x.check(st, "index out of range", And(Le(Zero, ix), Lt(ix, CI(n)))) {
				return nil, true
			}
			st.set(f, i, c.sub(PE{idx: ix}))
		case SliceV:
			if !x.check(st, "index out of range", And(Le(Zero, ix), Lt(ix, c.len))) {
				return nil, true
			}
			st.set(f, i, c.at(ix))
		default:
			unsup("IndexAddr of %T", c)
		}
	case *ssa.Index:
		ix := st.get(f, i.Index).(*T)
		switch c := st.get(f, i.X).(type) {
		case *ArrV:
			if !x.check(st, "index out of range", And(Le(Zero, ix), Lt(ix, CI(int64(len(c.e)))))) {
				return nil, true
			}
			if ix.IsConst() {
				st.set(f, i, copyVal(c.e[ix.Int64()]))
			} else {
				st.set(f, i, st.selectConc(c, ix))
			}
		case ArrS:
			st.set(f, i, fromElem(st, Select(c.a, ix), c.elem))
		case StrV:
			v, ok := x.strIndex(st, c, ix)
			if !ok {
				return nil, true
			}
			st.set(f, i, v)
		default:
			unsup("Index of %T", c)
		}
	case *ssa.Lookup:
		switch c := st.get(f, i.X).(type) {
		case StrV:
			v, ok := x.strIndex(st, c, st.get(f, i.Index).(*T))
			if !ok {
				return nil, true
			}
			st.set(f, i, v)
		case MapV:
			v, found := x.mapGet(st, c, st.get(f, i.Index))
			if !found {
				v = zeroVal(i.X.Type().Underlying().(*types.Map).Elem())
			}
			if i.CommaOk {
				st.set(f, i, Tuple{v, Bool(found)})
			} else {
				st.set(f, i, v)
			}
		default:
			unsup("Lookup in %T", c)
		}
	case *ssa.MapUpdate:
		m := st.get(f, i.Map).(MapV)
		if m.o == nil {
			x.doPanic(st, "assignment to entry in nil map")
			return nil, true
		}
		x.mapSet(st, m, st.get(f, i.Key), st.get(f, i.Value))
	case *ssa.MakeMap:
		o := x.newObj("map", i.Type())
		st.mem[o] = &MapRoot{}
		st.set(f, i, MapV{o})
	case *ssa.MakeSlice:
		n, c := st.get(f, i.Len).(*T), st.get(f, i.Cap).(*T)
		if !x.check(st, "makeslice: len out of range", And(Le(Zero, n), Le(n, c))) {
			return nil, true
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		if n.IsConst() && c.IsConst() {
			o := x.newObj("make", i.Type())
			a := &ArrV{e: make([]Val, c.Int64())}
			for k := range a.e {
				a.e[k] = zeroVal(et)
			}
			st.mem[o] = a
			st.set(f, i, SliceV{Ptr{o: o}, Zero, n, c})
		} else {
			if !symElemOK(et) {
				unsup("make of symbolic length with element %s", et)
			}
			arr := constArr()
			o := x.newObj("make", i.Type())
			st.mem[o] = ArrS{arr, c, et}
			st.set(f, i, SliceV{Ptr{o: o}, Zero, n, c})
		}
	case *ssa.Slice:
		return nil, !x.sliceOp(st, f, i)
	case *ssa.SliceToArrayPointer:
		s := st.get(f, i.X).(SliceV)
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !x.check(st, "slice to array: length", Le(CI(n), s.len)) {
			return nil, true
		}
		// only used for copying conversions: materialise
		if a, ok := nav(st.mem[s.base.o], s.base.path).(*ArrV); ok && s.off == Zero && len(a.e) == int(n) {
			st.set(f, i, s.base)
		} else {
			es := make([]Val, n)
			for k := range es {
				es[k] = st.load(s.at(CI(int64(k))))
			}
			o := x.newObj("arrcopy", nil)
			st.mem[o] = &ArrV{e: es}
			st.set(f, i, Ptr{o: o})
		}
	case *ssa.Convert:
		st.set(f, i, x.convert(st, st.get(f, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		st.set(f, i, x.convert(st, st.get(f, i.X), i.X.Type(), i.Type()))
	case *ssa.ChangeType:
		st.set(f, i, st.get(f, i.X))
	case *ssa.ChangeInterface:
		st.set(f, i, st.get(f, i.X))
	case *ssa.MakeInterface:
		v := st.get(f, i.X)
		switch v.(type) {
		case Fe:
			st.set(f, i, IfaceV{feType, v})
		default:
			st.set(f, i, IfaceV{i.X.Type(), v})
		}
	case *ssa.TypeAssert:
		return nil, !x.typeAssert(st, f, i)
	case *ssa.MakeClosure:
		var bind []Val
		for _, b := range i.Bindings {
			bind = append(bind, st.get(f, b))
		}
		st.set(f, i, FuncV{fn: i.Fn.(*ssa.Function), bind: bind})
	case *ssa.Extract:
		tv, ok := st.get(f, i.Tuple).(Tuple)
		if !ok {
			unsup("extract from %T", st.get(f, i.Tuple))
		}
		st.set(f, i, tv[i.Index])
	case *ssa.Phi:
		unsup("phi in the middle of a block")
	case *ssa.Jump:
		return nil, !x.enter(st, f, f.block.Succs[0])
	case *ssa.If:
		return x.branch(st, f, i)
	case *ssa.Return:
		var vals []Val
		for _, r := range i.Results {
			vals = append(vals, st.get(f, r))
		}
		return nil, x.ret(st, f, vals)
	case *ssa.Panic:
		msg := "panic"
		if iv, ok := st.get(f, i.X).(IfaceV); ok {
			if s, ok := iv.v.(StrV); ok {
				msg = "panic: " + s.s
			}
		}
		x.doPanic(st, msg)
		return nil, true
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			f.defers = nil // deferred calls have no effect on modelled state (Close, recover, logging)
		}
	case *ssa.Defer:
		f.defers = append(f.defers, i)
	case *ssa.Call:
		return x.call(st, f, i)
	case *ssa.Range:
		st.set(f, i, x.makeIter(st, st.get(f, i.X)))
	case *ssa.Next:
		it := st.get(f, i.Iter).(IterV)
		r := st.mem[it.o].(*IterRoot)
		if r.i < len(r.keys) {
			st.set(f, i, Tuple{True, r.keys[r.i], r.vals[r.i]})
			r.i++
		} else {
			tt := i.Type().(*types.Tuple)
			z := func(t types.Type) Val {
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return Zero
				}
				return zeroVal(t)
			}
			st.set(f, i, Tuple{False, z(tt.At(1).Type()), z(tt.At(2).Type())})
		}
	case *ssa.Go:
		unsup("goroutine")
	default:
		unsup("instruction %T", ins)
	}
	return nil, false
}

// returns true if the state ended (entry frame returned)
func (x *Exec) ret(st *State, f *Frame, vals []Val) bool {
	st.stack = st.stack[:len(st.stack)-1]
	if f.call == nil {
		x.outs = append(x.outs, Outcome{kind: "return", vals: vals, pos: x.posOf(x.curPos), st: st})
		return true
	}
	c := st.top()
	if v, ok := f.call.(ssa.Value); ok {
		switch len(vals) {
		case 0:
			st.set(c, v, Tuple{})
		case 1:
			st.set(c, v, vals[0])
		default:
			st.set(c, v, Tuple(vals))
		}
	}
	return false
}

func (x *Exec) strIndex(st *State, s StrV, ix *T) (Val, bool) {
	n := strLen(s)
	if !x.check(st, "string index out of range", And(Le(Zero, ix), Lt(ix, n))) {
		return nil, false
	}
	if s.sym {
		return Select(s.a, Add(s.off, ix)), true
	}
	if ix.IsConst() {
		return CI(int64(s.s[ix.Int64()])), true
	}
	v := CI(int64(s.s[len(s.s)-1]))
	for i := len(s.s) - 2; i >= 0; i-- {
		v = Ite(Eq(ix, CI(int64(i))), CI(int64(s.s[i])), v)
	}
	return v, true
}

// strChars lists the bytes of a string of known length.
func strChars(s StrV) []*T {
	n := strLen(s)
	if !n.IsConst() {
		unsup("string of symbolic length")
	}
	out := make([]*T, n.Int64())
	for i := range out {
		out[i] = strAt(s, int64(i))
	}
	return out
}

// strOf builds a string from its bytes.
func strOf(cs []*T) StrV {
	bs := make([]byte, len(cs))
	conc := true
	for i, c := range cs {
		if !c.IsConst() {
			conc = false
			break
		}
		bs[i] = byte(c.Int64())
	}
	if conc {
		return StrV{s: string(bs)}
	}
	a := FreshArr("str")
	arrBounds[a] = [2]*big.Int{b0, big.NewInt(255)}
	for i, c := range cs {
		a = Store(a, CI(int64(i)), c)
	}
	return StrV{sym: true, a: a, off: Zero, n: CI(int64(len(cs)))}
}
func strLit(s string) StrV  { return StrV{s: s} }
func strCat(s, t StrV) StrV { return strOf(append(strChars(s), strChars(t)...)) }

func strLen(s StrV) *T {
	if s.sym {
		return s.n
	}
	return CI(int64(len(s.s)))
}

func constArr() *T {
	return mk(&T{Op: OVar, Sort: SArr, Name: "zeroarr"})
}

func (x *Exec) mapKeyEq(a, b Val) bool {
	switch p := a.(type) {
	case *T:
		q, ok := b.(*T)
		if !ok {
			return false
		}
		e := Eq(p, q)
		if e != True && e != False {
			unsup("symbolic map key")
		}
		return e == True
	case StrV:
		q, ok := b.(StrV)
		if p.sym || ok && q.sym {
			unsup("symbolic map key")
		}
		return ok && p.s == q.s
	case *ArrV:
		q, ok := b.(*ArrV)
		if !ok || len(p.e) != len(q.e) {
			return false
		}
		for i := range p.e {
			if !x.mapKeyEq(p.e[i], q.e[i]) {
				return false
			}
		}
		return true
	case IfaceV:
		q, ok := b.(IfaceV)
		return ok && p.t != nil && q.t != nil && types.Identical(p.t, q.t) && x.mapKeyEq(p.v, q.v)
	}
	unsup("map key %T", a)
	return false
}
func (x *Exec) mapGet(st *State, m MapV, k Val) (Val, bool) {
	if m.o == nil {
		return nil, false
	}
	r := x.mapRoot(st, m.o)
	for i := range r.keys {
		if x.mapKeyEq(r.keys[i], k) {
			return copyVal(r.vals[i]), true
		}
	}
	return nil, false
}
func (x *Exec) mapSet(st *State, m MapV, k, v Val) {
	r := x.mapRoot(st, m.o)
	for i := range r.keys {
		if x.mapKeyEq(r.keys[i], k) {
			r.vals[i] = v
			return
		}
	}
	r.keys = append(r.keys, k)
	r.vals = append(r.vals, v)
}

func (x *Exec) makeIter(st *State, v Val) Val {
	o := x.newObj("iter", nil)
	r := &IterRoot{}
	switch c := v.(type) {
	case StrV:
		if c.sym {
			unsup("range over symbolic string")
		}
		for i, ch := range c.s {
			r.keys = append(r.keys, CI(int64(i)))
			r.vals = append(r.vals, CI(int64(ch)))
		}
	case MapV:
		if c.o != nil {
			m := x.mapRoot(st, c.o)
			r.keys = append(r.keys, m.keys...)
			r.vals = append(r.vals, m.vals...)
			if len(m.keys) > 1 {
				x.trusted["map iteration explored in insertion order only"] = true
			}
		}
	default:
		unsup("range over %T", v)
	}
	st.mem[o] = r
	return IterV{o}
}

// ---- branches ----

func (x *Exec) branch(st *State, f *Frame, i *ssa.If) ([]*State, bool) {
	c := st.get(f, i.Cond).(*T)
	b := f.block
	if c == True {
		return nil, !x.enter(st, f, b.Succs[0])
	}
	if c == False {
		return nil, !x.enter(st, f, b.Succs[1])
	}
	// loop header of an uncut loop with symbolic condition, or ordinary branch
	depth := len(st.stack)
	join := f.info.ipdom[b]
	mergeOK := join != nil
	// never merge across the boundary of an enclosing loop
	for _, li := range f.info.loops {
		if li.blocks[b] && join != nil && !li.blocks[join] {
			mergeOK = false
		}
		if join != nil && li.header == join {
			mergeOK = false
		}
		if li.header == b {
			mergeOK = false
		}
	}
	s1 := st
	s2 := st.clone()
	s1.assume(c)
	s2.assume(Not(c))
	ok1, ok2 := x.feasible(s1), x.feasible(s2)
	if !ok1 && !ok2 {
		st.stack = nil
		return nil, true
	}
	if !ok1 {
		if !x.enter(s2, s2.top(), b.Succs[1]) {
			return nil, true
		}
		return []*State{s2}, true
	}
	if !ok2 {
		return nil, !x.enter(s1, s1.top(), b.Succs[0])
	}
	var starts []*State
	if x.enter(s1, s1.top(), b.Succs[0]) {
		starts = append(starts, s1)
	}
	if x.enter(s2, s2.top(), b.Succs[1]) {
		starts = append(starts, s2)
	}
	if !mergeOK || len(starts) < 2 {
		return starts, true
	}
	base := len(s1.pc) - 1
	var arrived [2][]*State
	for k, s := range starts {
		arrived[k] = x.run(s, &stopAt{depth, join})
	}
	if len(arrived[0]) == 1 && len(arrived[1]) == 1 {
		if m := mergeStates(c, arrived[0][0], arrived[1][0], base); m != nil {
			return []*State{m}, true
		}
	}
	return append(arrived[0], arrived[1]...), true
}

func mergeStates(c *T, a, b *State, base int) *State {
	fa, fb := a.top(), b.top()
	if len(a.stack) != len(b.stack) {
		return nil
	}
	if len(a.cons) != len(b.cons) {
		// constraints under a Go-level branch on a symbolic value: keep separate
		return nil
	}
	regs := make([]Val, len(fa.regs))
	for i := range fa.regs {
		if sameVal(fa.regs[i], fb.regs[i]) {
			regs[i] = fa.regs[i]
			continue
		}
		v, ok := mergeVal(c, fa.regs[i], fb.regs[i])
		if !ok {
			// registers of one branch are dead after the join unless they are phis
			regs[i] = nil
			continue
		}
		regs[i] = v
	}
	mem := map[*Obj]Val{}
	for o, va := range a.mem {
		vb, ok := b.mem[o]
		if !ok {
			mem[o] = va
			continue
		}
		v, ok := mergeVal(c, va, vb)
		if !ok {
			return nil
		}
		mem[o] = v
	}
	for o, vb := range b.mem {
		if _, ok := a.mem[o]; !ok {
			mem[o] = vb
		}
	}
	pc := append([]*T{}, a.pc[:base]...)
	for _, t := range a.pc[base+1:] {
		pc = append(pc, Implies(c, t))
	}
	for _, t := range b.pc[base+1:] {
		pc = append(pc, Implies(Not(c), t))
	}
	a.mem = mem
	fa.regs = regs
	a.pc = pc
	return a
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *T:
		y, ok := b.(*T)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && samePtr(x, y)
	}
	return false
}

func (x *Exec) feasible(st *State) bool {
	l := st.pc[len(st.pc)-1]
	if l == False {
		return false
	}
	for _, p := range st.pc[:len(st.pc)-1] {
		if p == l {
			return true
		}
		if negKey(p) == l || Not(l) == p {
			return false
		}
	}
	x.feas++
	if x.feas > 4000 {
		unsup("too many symbolic branches")
	}
	lim := 2 * time.Second
	switch {
	case x.feasSpent > 15*time.Second:
		lim = 0
	case x.feasSpent > 5*time.Second:
		lim = 100 * time.Millisecond
	}
	if lim == 0 { // pruning is only an optimisation
		return true
	}
	t0 := time.Now()
	r := quickSat(st.hyps(), lim)
	if r && time.Since(t0) > lim/2 {
		x.feasSpent += time.Since(t0)
	}
	return r
}

func (x *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) bool {
	v, isI := st.get(f, i.X).(IfaceV)
	if !isI {
		unsup("type assert on %T", st.get(f, i.X))
	}
	ok := false
	if v.t != nil {
		if it, isIf := i.AssertedType.Underlying().(*types.Interface); isIf {
			if _, op := v.v.(Opaque); op {
				ok = opaqueImplements(v.v.(Opaque), i.AssertedType)
			} else if it.NumMethods() == 0 {
				ok = true
			} else {
				ok = types.Implements(v.t, it)
			}
		} else {
			ok = types.Identical(v.t, i.AssertedType)
		}
	}
	var res Val
	if ok {
		if _, isIf := i.AssertedType.Underlying().(*types.Interface); isIf {
			res = v
		} else {
			res = v.v
		}
	} else {
		res = zeroVal(i.AssertedType)
	}
	if i.CommaOk {
		st.set(f, i, Tuple{res, Bool(ok)})
		return true
	}
	if !ok {
		x.doPanic(st, "type assertion failed")
		return false
	}
	st.set(f, i, res)
	return true
}

func (x *Exec) sliceOp(st *State, f *Frame, i *ssa.Slice) bool {
	var lo, hi, max *T
	if i.Low != nil {
		lo = st.get(f, i.Low).(*T)
	} else {
		lo = Zero
	}
	if i.High != nil {
		hi = st.get(f, i.High).(*T)
	}
	if i.Max != nil {
		max = st.get(f, i.Max).(*T)
	}
	switch c := st.get(f, i.X).(type) {
	case StrV:
		n := strLen(c)
		if hi == nil {
			hi = n
		}
		if !x.check(st, "string slice bounds", And(Le(Zero, lo), Le(lo, hi), Le(hi, n))) {
			return false
		}
		if c.sym {
			st.set(f, i, StrV{sym: true, a: c.a, off: Add(c.off, lo), n: Sub(hi, lo)})
		} else {
			if !lo.IsConst() || !hi.IsConst() {
				unsup("symbolic slice of concrete string")
			}
			st.set(f, i, StrV{s: c.s[lo.Int64():hi.Int64()]})
		}
	case Ptr:
		n := CI(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if max != nil {
			cp = max
		}
		if !x.check(st, "slice bounds out of range", And(Le(Zero, lo), Le(lo, hi), Le(hi, cp), Le(cp, n))) {
			return false
		}
		st.set(f, i, SliceV{c, lo, Sub(hi, lo), Sub(cp, lo)})
	case SliceV:
		if hi == nil {
			hi = c.len
		}
		cp := c.cap
		if max != nil {
			cp = max
		}
		if !x.check(st, "slice bounds out of range", And(Le(Zero, lo), Le(lo, hi), Le(hi, cp), Le(cp, c.cap))) {
			return false
		}
		st.set(f, i, SliceV{c.base, Add(c.off, lo), Sub(hi, lo), Sub(cp, lo)})
	default:
		unsup("slice of %T", c)
	}
	return true
}

func (x *Exec) unop(st *State, f *Frame, i *ssa.UnOp) bool {
	v := st.get(f, i.X)
	switch i.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			unsup("load through %T", v)
		}
		if p.o == nil {
			x.doPanic(st, "nil pointer dereference")
			return false
		}
		st.set(f, i, st.load(p))
	case token.NOT:
		st.set(f, i, Not(v.(*T)))
	case token.SUB:
		st.set(f, i, wrapInt(Neg(v.(*T)), i.Type()))
	case token.XOR:
		t := v.(*T)
		_, s, _ := intInfo(i.Type())
		if s {
			st.set(f, i, wrapInt(Sub(CI(-1), t), i.Type()))
		} else {
			_, hi := typeBounds(i.Type())
			st.set(f, i, Sub(CB(hi), t))
		}
	default:
		unsup("unop %s", i.Op)
	}
	return true
}

func nonNeg(t *T) bool { return t.lo != nil && t.lo.Sign() >= 0 }

func truncDiv(a *T, c *big.Int) *T {
	neg := false
	if c.Sign() < 0 {
		c = new(big.Int).Neg(c)
		neg = true
	}
	var q *T
	if nonNeg(a) {
		q = Div(a, c)
	} else if a.hi != nil && a.hi.Sign() <= 0 {
		q = Neg(Div(Neg(a), c))
	} else {
		q = Ite(Le(Zero, a), Div(a, c), Neg(Div(Neg(a), c)))
	}
	if neg {
		return Neg(q)
	}
	return q
}

func bitwise(op token.Token, a, b *T, w int) *T {
	bs := make([]*T, w)
	for i := range bs {
		p, q := Bit(a, i), Bit(b, i)
		switch op {
		case token.AND:
			bs[i] = And(p, q)
		case token.OR:
			bs[i] = Or(p, q)
		case token.XOR:
			bs[i] = Xor(p, q)
		case token.AND_NOT:
			bs[i] = And(p, Not(q))
		}
	}
	return FromBits(bs)
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, ta, tb, tr types.Type) (Val, bool) {
	if op == token.EQL || op == token.NEQ {
		e := x.eqVal(st, a, b)
		if op == token.NEQ {
			e = Not(e)
		}
		return e, true
	}
	if s, ok := a.(StrV); ok {
		t, ok := b.(StrV)
		if !ok {
			unsup("string op")
		}
		if op == token.ADD {
			return strConcat(s, t), true
		}
		if s.sym || t.sym {
			unsup("symbolic string compare")
		}
		switch op {
		case token.LSS:
			return Bool(s.s < t.s), true
		case token.GTR:
			return Bool(s.s > t.s), true
		case token.LEQ:
			return Bool(s.s <= t.s), true
		case token.GEQ:
			return Bool(s.s >= t.s), true
		}
	}
	p, ok1 := a.(*T)
	q, ok2 := b.(*T)
	if !ok1 || !ok2 {
		unsup("binop %s on %T,%T", op, a, b)
	}
	if p.Sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(p, q), true
		case token.OR, token.LOR:
			return Or(p, q), true
		}
	}
	w, signed, _ := intInfo(tr)
	switch op {
	case token.ADD:
		return wrapInt(Add(p, q), tr), true
	case token.SUB:
		return wrapInt(Sub(p, q), tr), true
	case token.MUL:
		return wrapInt(Mul(p, q), tr), true
	case token.QUO, token.REM:
		if !x.check(st, "division by zero", Not(Eq(q, Zero))) {
			return nil, false
		}
		if !q.IsConst() {
			unsup("division by a symbolic value")
		}
		d := truncDiv(p, q.C)
		if op == token.QUO {
			return wrapInt(d, tr), true
		}
		if nonNeg(p) && q.C.Sign() > 0 {
			return Mod(p, q.C), true
		}
		return Sub(p, MulC(d, q.C)), true
	case token.LSS:
		return Lt(p, q), true
	case token.LEQ:
		return Le(p, q), true
	case token.GTR:
		return Lt(q, p), true
	case token.GEQ:
		return Le(q, p), true
	case token.SHL:
		if q.IsConst() {
			if q.C.Sign() < 0 {
				x.doPanic(st, "negative shift")
				return nil, false
			}
			if q.C.Cmp(big.NewInt(int64(w))) >= 0 {
				return Zero, true
			}
			return wrapInt(MulC(p, pow2(int(q.Int64()))), tr), true
		}
		return x.symShift(st, q, w, func(k int) *T { return wrapInt(MulC(p, pow2(k)), tr) }, Zero)
	case token.SHR:
		ext := Zero
		if signed && !nonNeg(p) {
			ext = Ite(Lt(p, Zero), CI(-1), Zero)
		}
		if q.IsConst() {
			if q.C.Sign() < 0 {
				x.doPanic(st, "negative shift")
				return nil, false
			}
			if q.C.Cmp(big.NewInt(int64(w))) >= 0 {
				return ext, true
			}
			return Div(p, pow2(int(q.Int64()))), true
		}
		return x.symShift(st, q, w, func(k int) *T { return Div(p, pow2(k)) }, ext)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if p.IsConst() && q.IsConst() && p.C.Sign() >= 0 && q.C.Sign() >= 0 {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(p.C, q.C)
			case token.OR:
				r.Or(p.C, q.C)
			case token.XOR:
				r.Xor(p.C, q.C)
			case token.AND_NOT:
				r.AndNot(p.C, q.C)
			}
			return CB(r), true
		}
		if signed && (!nonNeg(p) || !nonNeg(q)) {
			h := pow2(w)
			return wrapInt(bitwise(op, Mod(p, h), Mod(q, h), w), tr), true
		}
		ww := w
		for ww > 1 && p.hi != nil && q.hi != nil && p.hi.BitLen() < ww && q.hi.BitLen() < ww {
			ww--
		}
		if op == token.AND || op == token.AND_NOT && false {
			for ww > 1 && (p.hi != nil && p.hi.BitLen() < ww || q.hi != nil && q.hi.BitLen() < ww) {
				ww--
			}
		}
		return bitwise(op, p, q, ww), true
	}
	unsup("binop %s", op)
	return nil, false
}

func (x *Exec) symShift(st *State, q *T, w int, f func(int) *T, big_ *T) (Val, bool) {
	if !x.check(st, "negative shift amount", Le(Zero, q)) {
		return nil, false
	}
	r := big_
	for k := w - 1; k >= 0; k-- {
		r = Ite(Eq(q, CI(int64(k))), f(k), r)
	}
	return r, true
}

func strConcat(s, t StrV) Val {
	if !s.sym && !t.sym {
		return StrV{s: s.s + t.s}
	}
	if !s.sym && s.s == "" {
		return t
	}
	if !t.sym && t.s == "" {
		return s
	}
	if strLen(s).IsConst() && strLen(t).IsConst() {
		return strOf(append(strChars(s), strChars(t)...))
	}
	if !s.sym && t.sym {
		// prefix with constant characters: fresh array shifted -- represent through stores on a shifted array
		n := len(s.s)
		a := App2Shift(t.a, t.off, n)
		for i := 0; i < n; i++ {
			a = Store(a, CI(int64(i)), CI(int64(s.s[i])))
		}
		return StrV{sym: true, a: a, off: Zero, n: AddC(t.n, int64(n))}
	}
	unsup("symbolic string concatenation")
	return nil
}

func (x *Exec) eqVal(st *State, a, b Val) *T {
	switch p := a.(type) {
	case *T:
		q, ok := b.(*T)
		if !ok {
			unsup("compare %T %T", a, b)
		}
		return Eq(p, q)
	case StrV:
		q, ok := b.(StrV)
		if !ok {
			unsup("compare string with %T", b)
		}
		if !p.sym && !q.sym {
			return Bool(p.s == q.s)
		}
		if p.sym {
			p, q = q, p
		}
		if !p.sym { // constant p vs symbolic q
			cs := []*T{Eq(q.n, CI(int64(len(p.s))))}
			for i := range []byte(p.s) {
				cs = append(cs, Eq(Select(q.a, AddC(q.off, int64(i))), CI(int64(p.s[i]))))
			}
			return And(cs...)
		}
		unsup("compare symbolic strings")
	case Ptr:
		q, ok := b.(Ptr)
		if !ok {
			unsup("compare ptr with %T", b)
		}
		return Bool(samePtr(p, q))
	case SliceV:
		q, ok := b.(SliceV)
		if ok && q.base.o == nil {
			return Bool(p.base.o == nil)
		}
		if ok && p.base.o == nil {
			return Bool(q.base.o == nil)
		}
	case MapV:
		q, ok := b.(MapV)
		if ok {
			return Bool(p.o == q.o)
		}
	case FuncV:
		q, ok := b.(FuncV)
		if ok {
			return Bool(p.fn == nil && q.fn == nil && p.native == q.native)
		}
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			unsup("compare iface with %T", b)
		}
		if p.t == nil || q.t == nil {
			return Bool(p.t == nil && q.t == nil)
		}
		if !types.Identical(p.t, q.t) {
			if _, ok := p.v.(Fe); ok {
				unsup("Go comparison of a symbolic Variable")
			}
			if _, ok := q.v.(Fe); ok {
				unsup("Go comparison of a symbolic Variable")
			}
			return False
		}
		return x.eqVal(st, p.v, q.v)
	case *StructV:
		q := b.(*StructV)
		var cs []*T
		for i := range p.f {
			cs = append(cs, x.eqVal(st, p.f[i], q.f[i]))
		}
		return And(cs...)
	case *ArrV:
		q := b.(*ArrV)
		var cs []*T
		for i := range p.e {
			cs = append(cs, x.eqVal(st, p.e[i], q.e[i]))
		}
		return And(cs...)
	case Opaque:
		q, ok := b.(Opaque)
		if ok {
			return Bool(p.kind == q.kind && p.data == q.data)
		}
		return False
	}
	unsup("compare %T %T", a, b)
	return nil
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	if t, ok := v.(*T); ok && t.Sort == SInt {
		if _, _, ok := intInfo(to); ok {
			return wrapInt(t, to)
		}
		if isStringT(to) {
			if t.IsConst() {
				return StrV{s: string(rune(t.Int64()))}
			}
			unsup("string(int)")
		}
		if t.IsConst() && to.String() == "float64" && t.C.IsInt64() {
			return Opaque{kind: "float64", data: float64(t.C.Int64())}
		}
		return Opaque{kind: "conv:" + to.String()}
	}
	switch c := v.(type) {
	case Opaque:
		if f, ok := c.data.(float64); ok && c.kind == "float64" {
			if _, _, ok := intInfo(to); ok {
				return wrapInt(CI(int64(f)), to)
			}
		}
	case StrV:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if c.sym && c.n.IsConst() {
				var es []Val
				for _, t := range strChars(c) {
					es = append(es, t)
				}
				return st.newSlice(es, sl.Elem())
			}
			if c.sym {
				return SliceV{symBase(st, c.a, Add(c.off, c.n), sl.Elem()), c.off, c.n, c.n}
			}
			var es []Val
			for i := 0; i < len(c.s); i++ {
				es = append(es, CI(int64(c.s[i])))
			}
			return st.newSlice(es, sl.Elem())
		}
		return c
	case SliceV:
		if isStringT(to) {
			if c.base.o == nil {
				return StrV{}
			}
			if c.len.IsConst() {
				es := st.elems(c)
				bs := make([]byte, len(es))
				conc := true
				for i, e := range es {
					t := e.(*T)
					if !t.IsConst() {
						conc = false
						break
					}
					bs[i] = byte(t.Int64())
				}
				if conc {
					return StrV{s: string(bs)}
				}
				a := FreshArr("str")
				arrBounds[a] = [2]*big.Int{b0, big.NewInt(255)}
				for i, e := range es {
					a = Store(a, CI(int64(i)), e.(*T))
				}
				return StrV{sym: true, a: a, off: Zero, n: c.len}
			}
			if a, ok := nav(st.mem[c.base.o], c.base.path).(ArrS); ok {
				return StrV{sym: true, a: a.a, off: c.off, n: c.len}
			}
		}
		return c
	case Ptr:
		return c
	}
	unsup("convert %T %s -> %s", v, from, to)
	return nil
}

func symBase(st *State, a, n *T, et types.Type) Ptr {
	o := st.x.newObj("strbytes", nil)
	st.mem[o] = ArrS{a, n, et}
	return Ptr{o: o}
}

// App2Shift(a, off, n): array b with b[i+n] = a[off+i]
func App2Shift(a, off *T, n int) *T {
	b := FreshArr("cat")
	if bd, ok := arrBounds[rootArr(a)]; ok {
		arrBounds[b] = bd
	}
	k := BoundVar("k")
	pendingAxioms = append(pendingAxioms, Forall(k, Eq(Select(b, AddC(k, int64(n))), Select(a, Add(off, k)))))
	return b
}

var pendingAxioms []*T

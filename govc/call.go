package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type CallCtx struct {
	x    *Exec
	st   *State
	f    *Frame
	call *ssa.Call
	fn   *ssa.Function
	name string
	args []Val
}

type modelFn func(c *CallCtx) (Val, bool) // ok=false: the path ended

func (x *Exec) call(st *State, f *Frame, i *ssa.Call) ([]*State, bool) {
	cc := i.Call
	var args []Val
	for _, a := range cc.Args {
		args = append(args, st.get(f, a))
	}
	if cc.IsInvoke() {
		recv, ok := st.get(f, cc.Value).(IfaceV)
		if !ok {
			unsup("invoke on %T", st.get(f, cc.Value))
		}
		if recv.t == nil {
			x.doPanic(st, "method call on nil interface")
			return nil, true
		}
		name := cc.Method.Name()
		if op, isOp := recv.v.(Opaque); isOp {
			c := &CallCtx{x: x, st: st, f: f, call: i, name: name, args: args}
			return x.finish(st, f, i)(opaqueCall(c, op, name))
		}
		m := x.P.Prog.LookupMethod(recv.t, cc.Method.Pkg(), name)
		if m == nil {
			unsup("method %s on %s", name, recv.t)
		}
		return x.callFn(st, f, i, m, append([]Val{recv.v}, args...), nil)
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return x.finish(st, f, i)(x.builtin(st, f, i, v.Name(), args))
	case *ssa.Function:
		return x.callFn(st, f, i, v, args, nil)
	}
	switch fv := st.get(f, cc.Value).(type) {
	case FuncV:
		if fv.native != "" {
			c := &CallCtx{x: x, st: st, f: f, call: i, name: fv.native, args: args}
			m := models[fv.native]
			if m == nil {
				unsup("native %s", fv.native)
			}
			return x.finish(st, f, i)(m(c))
		}
		if fv.fn == nil {
			x.doPanic(st, "call of nil func")
			return nil, true
		}
		return x.callFn(st, f, i, fv.fn, args, fv.bind)
	case Opaque:
		if x.inInit {
			return x.finish(st, f, i)(zeroVal(i.Type()), true)
		}
		unsup("call of opaque %s", fv.kind)
	default:
		unsup("call of %T", fv)
	}
	return nil, true
}

func (x *Exec) finish(st *State, f *Frame, i *ssa.Call) func(v Val, ok bool) ([]*State, bool) {
	return func(v Val, ok bool) ([]*State, bool) {
		if !ok {
			return nil, true
		}
		if v != nil {
			st.set(f, i, v)
		} else {
			st.set(f, i, Tuple{})
		}
		return nil, false
	}
}

func fnName(fn *ssa.Function) string {
	n := fn.String()
	if o := fn.Origin(); o != nil {
		n = o.String()
	}
	return n
}

func (x *Exec) callFn(st *State, f *Frame, i *ssa.Call, fn *ssa.Function, args, bind []Val) ([]*State, bool) {
	name := fnName(fn)
	if m, ok := models[name]; ok {
		c := &CallCtx{x: x, st: st, f: f, call: i, fn: fn, name: name, args: args}
		return x.finish(st, f, i)(m(c))
	}
	if x.contract != nil && !x.inInit {
		if c := x.contract(fn); c != nil && c != x.active && !c.Inline {
			return x.applyContract(st, f, i, fn, c, args)
		}
	}
	if len(fn.Blocks) > 0 && (fn.Pkg == nil || x.P.scope(fn.Pkg.Pkg.Path())) {
		if fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic != "" && x.inInit {
			// initialise dependencies lazily
			if fn.Pkg != f.fn.Pkg {
				return x.finish(st, f, i)(Tuple{}, true)
			}
		}
		if fn.Pkg != nil && !x.inInit && !x.initDone[fn.Pkg] {
			x.runInit(fn.Pkg)
		}
		if !strings.HasPrefix(fn.Name(), "init") {
			x.inlined[name] = true
		}
		x.push(st, fn, args, bind, i)
		return nil, false
	}
	if x.inInit {
		return x.finish(st, f, i)(opaqueZero(i.Type(), name), true)
	}
	if isIgnorable(name) {
		return x.finish(st, f, i)(opaqueZero(i.Type(), name), true)
	}
	unsup("external function %s", name)
	return nil, true
}

func opaqueZero(t types.Type, name string) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return Tuple{}
		}
		r := Tuple{}
		for k := 0; k < tt.Len(); k++ {
			r = append(r, opaqueZero(tt.At(k).Type(), name))
		}
		return r
	}
	switch t.Underlying().(type) {
	case *types.Interface:
		return IfaceV{t, Opaque{kind: name}}
	}
	return zeroVal(t)
}

func isIgnorable(n string) bool {
	for _, p := range []string{"github.com/celer-network/goutils/log.", "fmt.Print", "fmt.Sprint", "fmt.Errorf", "github.com/rs/zerolog", "(*github.com/rs/zerolog", "errors.New"} {
		if strings.HasPrefix(n, p) || strings.HasPrefix(n, "("+p) {
			return true
		}
	}
	return false
}

func (x *Exec) builtin(st *State, f *Frame, i *ssa.Call, name string, args []Val) (Val, bool) {
	switch name {
	case "len":
		return x.lenOf(st, args[0]), true
	case "cap":
		switch c := args[0].(type) {
		case SliceV:
			return c.cap, true
		}
		return x.lenOf(st, args[0]), true
	case "append":
		return x.appendSl(st, args, i), true
	case "copy":
		return x.copySl(st, args)
	case "delete":
		m := args[0].(MapV)
		if m.o != nil {
			r := x.mapRoot(st, m.o)
			for k := range r.keys {
				if x.mapKeyEq(r.keys[k], args[1]) {
					r.keys = append(append([]Val{}, r.keys[:k]...), r.keys[k+1:]...)
					r.vals = append(append([]Val{}, r.vals[:k]...), r.vals[k+1:]...)
					break
				}
			}
		}
		return Tuple{}, true
	case "print", "println":
		return Tuple{}, true
	case "ssa:deferstack":
		return Ptr{}, true
	case "recover":
		return IfaceV{}, true
	case "min", "max":
		r := args[0].(*T)
		for _, a := range args[1:] {
			b := a.(*T)
			if name == "min" {
				r = Ite(Le(r, b), r, b)
			} else {
				r = Ite(Le(r, b), b, r)
			}
		}
		return r, true
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.o == nil {
			x.doPanic(st, "nil receiver")
			return nil, false
		}
		return args[0], true
	}
	unsup("builtin %s", name)
	return nil, false
}

func (x *Exec) lenOf(st *State, v Val) *T {
	switch c := v.(type) {
	case SliceV:
		return c.len
	case StrV:
		return strLen(c)
	case *ArrV:
		return CI(int64(len(c.e)))
	case MapV:
		if c.o == nil {
			return Zero
		}
		return CI(int64(len(x.mapRoot(st, c.o).keys)))
	case Ptr:
		a := nav(st.mem[c.o], c.path)
		if l, ok := a.(*ArrV); ok {
			return CI(int64(len(l.e)))
		}
	}
	unsup("len of %T", v)
	return nil
}

func goGrow(old, need int64) int64 {
	n := old
	if need > 2*old {
		return need
	}
	if old < 256 {
		n = 2 * old
	} else {
		for n < need {
			n += (n + 768) / 4
		}
	}
	if n < need {
		n = need
	}
	return n
}

func (x *Exec) appendSl(st *State, args []Val, i *ssa.Call) Val {
	a := args[0].(SliceV)
	et := i.Type().Underlying().(*types.Slice).Elem()
	var b SliceV
	switch c := args[1].(type) {
	case SliceV:
		b = c
	case StrV:
		b = x.convert(st, c, nil, types.NewSlice(types.Typ[types.Uint8])).(SliceV)
	default:
		unsup("append %T", c)
	}
	if b.len == Zero {
		return a
	}
	return x.concat(st, a, b, et)
}

func (st *State) arrOf(s SliceV) (ArrS, bool) {
	if s.base.o == nil {
		return ArrS{}, false
	}
	a, ok := nav(st.mem[s.base.o], s.base.path).(ArrS)
	return a, ok
}

func (x *Exec) concat(st *State, a, b SliceV, et types.Type) Val {
	_, symA := st.arrOf(a)
	if a.len.IsConst() && b.len.IsConst() && (a.cap.IsConst()) && !(symA && a.len.C.Sign() > 0 && false) {
		na, nb := a.len.Int64(), b.len.Int64()
		es := st.elems(b)
		if a.cap.IsConst() && na+nb <= a.cap.Int64() && a.base.o != nil {
			// in place, as the runtime does
			for k, e := range es {
				st.store(a.at(CI(na+int64(k))), e)
			}
			return SliceV{a.base, a.off, CI(na + nb), a.cap}
		}
		c := goGrow(a.cap.Int64(), na+nb)
		all := make([]Val, 0, c)
		all = append(all, st.elems(a)...)
		all = append(all, es...)
		for k := na + nb; k < c; k++ {
			all = append(all, zeroVal(et))
		}
		o := x.newObj("append", types.NewSlice(et))
		st.mem[o] = &ArrV{e: all}
		return SliceV{Ptr{o: o}, Zero, CI(na + nb), CI(c)}
	}
	// symbolic length: functional copy (append never aliases its argument: recorded as an assumption)
	x.trusted["append on slices of symbolic length is modelled as a fresh copy (no write into the argument's spare capacity)"] = true
	if !symElemOK(et) {
		unsup("append of symbolic length with element type %s", et)
	}
	aa, aoff := x.asArray(st, a, et)
	lo, hi := elemBounds(et)
	var arr *T
	base := aoff
	if b.len.IsConst() && b.len.Int64() <= 64 {
		arr = aa
		for k, e := range st.elems(b) {
			t, ok := toElem(st, e, et)
			if !ok {
				unsup("append of %T to a symbolic slice", e)
			}
			arr = Store(arr, Add(aoff, a.len, CI(int64(k))), t)
		}
	} else {
		ba, boff := x.asArray(st, b, et)
		arr = FreshArr("cat")
		if lo != nil {
			arrBounds[arr] = [2]*big.Int{lo, hi}
		}
		k := BoundVar("k")
		st.assume(Forall(k, Implies(And(Le(Zero, k), Lt(k, a.len)), Eq(Select(arr, k), Select(aa, Add(aoff, k))))))
		k2 := BoundVar("k")
		st.assume(Forall(k2, Implies(And(Le(a.len, k2), Lt(k2, Add(a.len, b.len))), Eq(Select(arr, k2), Select(ba, Add(boff, Sub(k2, a.len)))))))
		base = Zero
	}
	n := Add(a.len, b.len)
	o := x.newObj("append", types.NewSlice(et))
	st.mem[o] = ArrS{arr, Add(base, n), et}
	return SliceV{Ptr{o: o}, base, n, n}
}

// asArray views slice s as (array, offset)
func (x *Exec) asArray(st *State, s SliceV, et types.Type) (*T, *T) {
	if a, ok := st.arrOf(s); ok {
		return a.a, s.off
	}
	arr := FreshArr("arr")
	if lo, hi := elemBounds(et); lo != nil {
		arrBounds[arr] = [2]*big.Int{lo, hi}
	}
	for k, e := range st.elems(s) {
		t, ok := toElem(st, e, et)
		if !ok {
			unsup("array view of %T", e)
		}
		arr = Store(arr, CI(int64(k)), t)
	}
	return arr, Zero
}

func (x *Exec) copySl(st *State, args []Val) (Val, bool) {
	d := args[0].(SliceV)
	var s SliceV
	switch c := args[1].(type) {
	case SliceV:
		s = c
	case StrV:
		s = x.convert(st, c, nil, types.NewSlice(types.Typ[types.Uint8])).(SliceV)
	}
	n := Ite(Le(d.len, s.len), d.len, s.len)
	if d.len == s.len {
		n = d.len
	} else if Le(d.len, s.len) == True {
		n = d.len
	} else if Le(s.len, d.len) == True {
		n = s.len
	}
	if n.IsConst() {
		cnt := n.Int64()
		es := make([]Val, cnt)
		for k := range es {
			es[k] = st.load(s.at(CI(int64(k))))
		}
		for k := range es {
			st.store(d.at(CI(int64(k))), es[k])
		}
		return n, true
	}
	da, ok := st.arrOf(d)
	if !ok {
		if Dv, ok := nav(st.mem[d.base.o], d.base.path).(*ArrV); ok && d.base.o != nil {
			// concrete destination, symbolic count: element-wise ite
			cnt := d.len
			if !cnt.IsConst() {
				unsup("copy with symbolic destination length into concrete array")
			}
			_ = Dv
			et := types.Type(types.Typ[types.Uint8])
			if sa, ok := st.arrOf(s); ok {
				et = sa.elem
				for k := int64(0); k < cnt.Int64(); k++ {
					old := st.load(d.at(CI(k)))
					nv := fromElem(st, Select(sa.a, Add(s.off, CI(k))), et)
					m, ok := mergeVal(Lt(CI(k), n), nv, old)
					if !ok {
						unsup("copy merge")
					}
					st.store(d.at(CI(k)), m)
				}
				return n, true
			}
			// concrete source contents with symbolic offset/length: element-wise
			for k := int64(0); k < cnt.Int64(); k++ {
				cond := Lt(CI(k), n)
				if cond == False {
					continue
				}
				old := st.load(d.at(CI(k)))
				nv := st.load(s.at(CI(k)))
				m, ok := mergeVal(cond, nv, old)
				if !ok {
					unsup("copy merge")
				}
				st.store(d.at(CI(k)), m)
			}
			return n, true
		}
		unsup("copy of symbolic length")
	}
	sa, soff := x.asArray(st, s, da.elem)
	arr := FreshArr("copy")
	if lo, hi := elemBounds(da.elem); lo != nil {
		arrBounds[arr] = [2]*big.Int{lo, hi}
	}
	k := BoundVar("k")
	in := And(Le(d.off, k), Lt(k, Add(d.off, n)))
	body := And(Implies(in, Eq(Select(arr, k), Select(sa, Add(soff, Sub(k, d.off))))), Implies(Not(in), Eq(Select(arr, k), Select(da.a, k))))
	st.assume(Forall(k, body))
	x.track(st, d.base.sub(PE{idx: Zero}))
	root := st.mem[d.base.o]
	if len(d.base.path) == 0 {
		st.mem[d.base.o] = ArrS{arr, da.n, da.elem}
	} else {
		st.mem[d.base.o] = st.storeIn(root, d.base.path, ArrS{arr, da.n, da.elem})
	}
	return n, true
}

// mapRoot: the contents of a map object, including those built by a package
// initialiser and first touched here
func (x *Exec) mapRoot(st *State, o *Obj) *MapRoot {
	v, ok := st.mem[o]
	if !ok {
		if b, has := x.baseMem[o]; has {
			v = copyVal(b)
			st.mem[o] = v
		}
	}
	r, ok := v.(*MapRoot)
	if !ok {
		unsup("map value %T", v)
	}
	return r
}

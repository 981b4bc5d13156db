package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Obj struct {
	id   int
	name string
	typ  types.Type
}

type PE struct {
	f   int
	idx *T
}
type Ptr struct {
	o    *Obj
	path []PE
}
type SliceV struct {
	base          Ptr
	off, len, cap *T
}
type StructV struct{ f []Val }
type ArrV struct{ e []Val }

// ArrS: array contents as an SMT array of Ints
type ArrS struct {
	a    *T
	n    *T
	elem types.Type
}
type IfaceV struct {
	t types.Type
	v Val
}
type FuncV struct {
	fn     *ssa.Function
	bind   []Val
	native string
}
type MapV struct{ o *Obj }
type MapRoot struct {
	keys []Val
	vals []Val
}
type StrV struct {
	s   string
	sym bool
	a   *T
	off *T
	n   *T
}
type Fe struct{ t *T }
type BigV struct{ t *T }
type Opaque struct {
	kind string
	data interface{}
}
type Tuple []Val

// iterator for Range/Next over strings and maps
type IterV struct{ o *Obj }
type IterRoot struct {
	keys, vals []Val
	i          int
}

var feType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "symbolicVariable", nil), types.NewStruct(nil, nil), nil)

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func intInfo(t types.Type) (w int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func typeBounds(t types.Type) (lo, hi *big.Int) {
	w, s, ok := intInfo(t)
	if !ok {
		return nil, nil
	}
	if s {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), b1)
	}
	return b0, new(big.Int).Sub(pow2(w), b1)
}

func wrapInt(t *T, typ types.Type) *T {
	w, s, ok := intInfo(typ)
	if !ok {
		return t
	}
	lo, hi := typeBounds(typ)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	if !s {
		return Mod(t, pow2(w))
	}
	h := CB(pow2(w - 1))
	return Sub(Mod(Add(t, h), pow2(w)), h)
}

func zeroVal(t types.Type) Val {
	if isBigInt(t) {
		return BigV{Zero}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return False
		}
		if u.Info()&types.IsString != 0 {
			return StrV{}
		}
		if u.Info()&types.IsInteger != 0 {
			return Zero
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		return Opaque{kind: "zero:" + u.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{off: Zero, len: Zero, cap: Zero}
	case *types.Struct:
		s := &StructV{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrV{e: make([]Val, u.Len())}
		for i := range a.e {
			a.e[i] = zeroVal(u.Elem())
		}
		return a
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Tuple:
		tv := make(Tuple, u.Len())
		for i := range tv {
			tv[i] = zeroVal(u.At(i).Type())
		}
		return tv
	case *types.Chan:
		return Opaque{kind: "chan"}
	}
	return Opaque{kind: "zero:" + t.String()}
}

func copyVal(v Val) Val {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Val, len(x.f))}
		for i := range x.f {
			n.f[i] = copyVal(x.f[i])
		}
		return n
	case *ArrV:
		n := &ArrV{e: make([]Val, len(x.e))}
		for i := range x.e {
			n.e[i] = copyVal(x.e[i])
		}
		return n
	case *MapRoot:
		return &MapRoot{append([]Val{}, x.keys...), append([]Val{}, x.vals...)}
	case *IterRoot:
		n := *x
		return &n
	}
	return v
}

type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func samePtr(a, b Ptr) bool {
	if a.o != b.o || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

// mergeVal: c ? a : b
func mergeVal(c *T, a, b Val) (Val, bool) {
	if a == nil || b == nil {
		return nil, true // register dead on one side
	}
	switch x := a.(type) {
	case *T:
		y, ok := b.(*T)
		if !ok || x.Sort != y.Sort {
			return nil, false
		}
		if x.Sort == SBool {
			return IteB(c, x, y), true
		}
		if x.Sort == SArr {
			if x == y {
				return x, true
			}
			return mk(&T{Op: OIteA, Sort: SArr, Args: []*T{c, x, y}}), true
		}
		return Ite(c, x, y), true
	case Fe:
		y, ok := b.(Fe)
		if !ok {
			return nil, false
		}
		return Fe{Ite(c, x.t, y.t)}, true
	case BigV:
		y, ok := b.(BigV)
		if !ok {
			return nil, false
		}
		return BigV{Ite(c, x.t, y.t)}, true
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return x, true
		}
		if x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			v, ok := mergeVal(c, x.v, y.v)
			return IfaceV{x.t, v}, ok
		}
		fx, ok1 := tryFe(x)
		fy, ok2 := tryFe(y)
		if ok1 && ok2 {
			return IfaceV{feType, Fe{Ite(c, fx, fy)}}, true
		}
		return nil, false
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		n := &StructV{f: make([]Val, len(x.f))}
		for i := range x.f {
			v, ok := mergeVal(c, x.f[i], y.f[i])
			if !ok {
				return nil, false
			}
			n.f[i] = v
		}
		return n, true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.e) != len(y.e) {
			return nil, false
		}
		n := &ArrV{e: make([]Val, len(x.e))}
		for i := range x.e {
			v, ok := mergeVal(c, x.e[i], y.e[i])
			if !ok {
				return nil, false
			}
			n.e[i] = v
		}
		return n, true
	case ArrS:
		y, ok := b.(ArrS)
		if !ok {
			return nil, false
		}
		m, _ := mergeVal(c, x.a, y.a)
		return ArrS{m.(*T), Ite(c, x.n, y.n), x.elem}, true
	case Ptr:
		y, ok := b.(Ptr)
		if ok && samePtr(x, y) {
			return x, true
		}
		return nil, false
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return nil, false
		}
		if samePtr(x.base, y.base) {
			return SliceV{x.base, Ite(c, x.off, y.off), Ite(c, x.len, y.len), Ite(c, x.cap, y.cap)}, true
		}
		return nil, false
	case StrV:
		y, ok := b.(StrV)
		if ok && x == y {
			return x, true
		}
		return nil, false
	case FuncV:
		y, ok := b.(FuncV)
		if ok && x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0 {
			return x, true
		}
		return nil, false
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		n := make(Tuple, len(x))
		for i := range x {
			v, ok := mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			n[i] = v
		}
		return n, true
	case MapV:
		y, ok := b.(MapV)
		return x, ok && x.o == y.o
	case *MapRoot:
		y, ok := b.(*MapRoot)
		return x, ok && x == y
	case Opaque:
		y, ok := b.(Opaque)
		return x, ok && x.kind == y.kind && x.data == y.data
	}
	return nil, false
}

// ---- elements of symbolic arrays ----

func toElem(st *State, v Val, elem types.Type) (*T, bool) {
	switch x := v.(type) {
	case *T:
		if x.Sort == SBool {
			return B2I(x), true
		}
		return x, x.Sort == SInt
	case IfaceV:
		if t, ok := tryFe(x); ok {
			return t, true
		}
		if st != nil && x.t != nil {
			if p, ok := x.v.(Ptr); ok && p.o != nil {
				if b, ok := st.load(p).(BigV); ok {
					return b.t, true
				}
			}
		}
		return nil, false
	case Ptr:
		if st != nil && x.o != nil && isBigPtr(elem) {
			if b, ok := st.load(x).(BigV); ok {
				return b.t, true
			}
		}
	}
	return nil, false
}
func isBigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigInt(p.Elem())
}

func symElemOK(t types.Type) bool {
	if isBoolT(t) || isBigPtr(t) {
		return true
	}
	if _, _, ok := intInfo(t); ok {
		return true
	}
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func fromElem(st *State, e *T, elem types.Type) Val {
	if isBoolT(elem) {
		return Eq(e, One)
	}
	if isBigPtr(elem) {
		o := st.x.newObj("elem", elem.Underlying().(*types.Pointer).Elem())
		st.mem[o] = BigV{e}
		return Ptr{o: o}
	}
	if _, ok := elem.Underlying().(*types.Interface); ok {
		return IfaceV{feType, Fe{e}}
	}
	return e
}

func elemBounds(elem types.Type) (lo, hi *big.Int) {
	if isBoolT(elem) {
		return b0, b1
	}
	if lo, hi := typeBounds(elem); lo != nil {
		return lo, hi
	}
	if _, ok := elem.Underlying().(*types.Interface); ok {
		return b0, new(big.Int).Sub(fieldP, b1)
	}
	return nil, nil
}

// ---- field elements ----

var bn254, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
var fieldP = bn254

func tryFe(v Val) (*T, bool) {
	switch x := v.(type) {
	case Fe:
		return x.t, true
	case *T:
		if x.Sort == SInt {
			return x, true
		}
		return B2I(x), true
	case BigV:
		return x.t, true
	case IfaceV:
		if x.t == nil {
			return nil, false
		}
		switch y := x.v.(type) {
		case Fe:
			return y.t, true
		case *T:
			if y.Sort == SInt {
				return y, true
			}
			return B2I(y), true // bool is accepted by FromInterface
		case BigV:
			return y.t, true
		case StrV:
			if !y.sym {
				if n, ok := new(big.Int).SetString(y.s, 0); ok {
					return CB(n), true
				}
			}
		}
	}
	return nil, false
}

func canon(t *T) *T { return Mod(t, fieldP) }

func eqMod(a, b *T) *T {
	d := Sub(a, b)
	if d.IsConst() {
		return Bool(emod(d.C, fieldP).Sign() == 0)
	}
	np := new(big.Int).Neg(fieldP)
	if d.lo != nil && d.hi != nil && d.lo.Cmp(np) > 0 && d.hi.Cmp(fieldP) < 0 {
		return Eq0(d)
	}
	// reduce coefficients towards the symmetric range
	if d.Op == OLin {
		half := new(big.Int).Rsh(fieldP, 1)
		l := newLin()
		for i, x := range d.Args {
			k := emod(d.Coef[i], fieldP)
			if k.Cmp(half) > 0 {
				k.Sub(k, fieldP)
			}
			if x.Op == OMod && x.C.Cmp(fieldP) == 0 {
				l.add(x.Args[0], k)
			} else {
				l.add(x, k)
			}
		}
		k := emod(d.C, fieldP)
		l.c.Add(l.c, k)
		e := l.done()
		e2 := lin2(e, b1, CB(fieldP), bm1)
		for _, c := range []*T{e, e2} {
			if c.IsConst() {
				return Bool(emod(c.C, fieldP).Sign() == 0)
			}
			if c.lo != nil && c.hi != nil && c.lo.Cmp(np) > 0 && c.hi.Cmp(fieldP) < 0 {
				return Eq0(c)
			}
		}
		if e.lo != nil && e.hi != nil {
			kl := new(big.Int).Neg(fdiv(new(big.Int).Neg(e.lo), fieldP)) // ceil(lo/p)
			kh := fdiv(e.hi, fieldP)
			if new(big.Int).Sub(kh, kl).Cmp(big.NewInt(8)) <= 0 {
				var ds []*T
				for k := new(big.Int).Set(kl); k.Cmp(kh) <= 0; k.Add(k, b1) {
					ds = append(ds, Eq0(lin2(e, b1, CB(new(big.Int).Mul(k, fieldP)), bm1)))
				}
				return Or(ds...)
			}
		}
		d = e
	}
	return Eq0(Mod(d, fieldP))
}

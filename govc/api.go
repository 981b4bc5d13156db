package main

// Contract of gnark's frontend.API (assumed: external dependency) over Int
// representatives modulo the scalar field.

import (
	"fmt"
	"go/types"
	"math/big"
)

func feVal(t *T) Val { return IfaceV{feType, Fe{t}} }

var apiOpaque = Opaque{kind: "api"}

func fe(v Val) *T {
	t, ok := tryFe(v)
	if !ok {
		unsup("not a field element: %v", v)
	}
	return t
}

// derefBig reads a *big.Int constant passed as a circuit variable.
func derefBig(st *State, v Val) Val {
	if i, ok := v.(IfaceV); ok {
		if p, ok := i.v.(Ptr); ok && p.o != nil {
			if b, ok := st.load(p).(BigV); ok {
				return b
			}
		}
	}
	return v
}

// asBit asserts that t is boolean and returns the Bool
func (x *Exec) asBit(st *State, t *T, desc string) *T {
	if c, ok := asBoolInt(t); ok {
		return c
	}
	c1 := eqMod(t, One)
	c := Or(eqMod(t, Zero), c1)
	x.constrain(st, c, desc)
	refine(t, b1)
	return c1
}

// refine narrows the upper bound of a variable after an unconditional constraint
func refine(t *T, hi *big.Int) {
	if t.Op == OVar && t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && hi.Cmp(t.hi) < 0 {
		t.hi = hi
	}
}

func (x *Exec) variadic(st *State, v Val) []*T {
	s, ok := v.(SliceV)
	if !ok {
		unsup("variadic %T", v)
	}
	var out []*T
	for _, e := range st.elems(s) {
		out = append(out, fe(derefBig(st, e)))
	}
	return out
}

func apiCall(c *CallCtx, name string) (Val, bool) {
	x, st := c.x, c.st
	a := make([]Val, len(c.args))
	for i := range a {
		a[i] = derefBig(st, c.args[i])
	}
	bitArgs := func(n int) []*T {
		var bs []*T
		for i := 0; i < n; i++ {
			bs = append(bs, x.asBit(st, fe(a[i]), fmt.Sprintf("%s: operand %d is boolean", name, i)))
		}
		return bs
	}
	switch name {
	case "Add":
		ts := []*T{fe(a[0]), fe(a[1])}
		if len(a) > 2 {
			ts = append(ts, x.variadic(st, a[2])...)
		}
		return feVal(normFe(Add(ts...))), true
	case "Sub":
		t := Sub(fe(a[0]), fe(a[1]))
		if len(a) > 2 {
			for _, y := range x.variadic(st, a[2]) {
				t = Sub(t, y)
			}
		}
		return feVal(normFe(t)), true
	case "Neg":
		return feVal(normFe(Neg(fe(a[0])))), true
	case "Mul":
		t := Mul(fe(a[0]), fe(a[1]))
		if len(a) > 2 {
			for _, y := range x.variadic(st, a[2]) {
				t = Mul(t, y)
			}
		}
		return feVal(normFe(t)), true
	case "MulAcc":
		return feVal(normFe(Add(fe(a[0]), Mul(fe(a[1]), fe(a[2]))))), true
	case "Xor":
		b := bitArgs(2)
		return feVal(B2I(Xor(b...))), true
	case "Or":
		b := bitArgs(2)
		return feVal(B2I(Or(b...))), true
	case "And":
		b := bitArgs(2)
		return feVal(B2I(And(b...))), true
	case "Select":
		b := bitArgs(1)
		return feVal(Ite(b[0], fe(a[1]), fe(a[2]))), true
	case "Lookup2":
		b := bitArgs(2)
		return feVal(Ite(b[1], Ite(b[0], fe(a[5]), fe(a[4])), Ite(b[0], fe(a[3]), fe(a[2])))), true
	case "IsZero":
		return feVal(B2I(eqMod(fe(a[0]), Zero))), true
	case "Cmp":
		p, q := canon(fe(a[0])), canon(fe(a[1]))
		return feVal(Sub(B2I(Lt(q, p)), B2I(Lt(p, q)))), true
	case "AssertIsEqual":
		x.constrain(st, eqMod(fe(a[0]), fe(a[1])), "AssertIsEqual")
		return Tuple{}, true
	case "AssertIsDifferent":
		x.constrain(st, Not(eqMod(fe(a[0]), fe(a[1]))), "AssertIsDifferent")
		return Tuple{}, true
	case "AssertIsBoolean":
		x.asBit(st, fe(a[0]), "AssertIsBoolean")
		t := fe(a[0])
		if t.IsConst() {
			if cc := emod(t.C, fieldP); cc.Cmp(b1) > 0 {
				x.constrain(st, False, "AssertIsBoolean")
			}
		}
		return Tuple{}, true
	case "AssertIsLessOrEqual":
		p, q := canon(fe(a[0])), canon(fe(a[1]))
		x.constrain(st, Le(p, q), "AssertIsLessOrEqual")
		if q.IsConst() {
			refine(p, q.C)
		}
		return Tuple{}, true
	case "ToBinary":
		n := fieldP.BitLen()
		if len(a) > 1 {
			es := st.elems(a[1].(SliceV))
			if len(es) == 1 {
				t := es[0].(*T)
				if !t.IsConst() {
					unsup("ToBinary with symbolic width")
				}
				n = int(t.Int64())
				if n < 0 {
					x.doPanic(st, "ToBinary: invalid n")
					return nil, false
				}
			}
		}
		return x.toBinary(st, fe(a[0]), n), true
	case "FromBinary":
		ts := x.variadic(st, a[0])
		bs := make([]*T, len(ts))
		for i, t := range ts {
			bs[i] = x.asBit(st, t, "FromBinary: digit is boolean")
		}
		return feVal(FromBits(bs)), true
	case "Println":
		return Tuple{}, true
	case "Compiler":
		return IfaceV{feType, apiOpaque}, true
	case "FieldBitLen":
		return CI(int64(fieldP.BitLen())), true
	case "Field":
		o := x.newObj("field", nil)
		st.mem[o] = BigV{CB(fieldP)}
		return Ptr{o: o}, true
	case "ConstantValue":
		t := fe(a[0])
		if t.IsConst() {
			o := x.newObj("constval", nil)
			st.mem[o] = BigV{CB(emod(t.C, fieldP))}
			return Tuple{Ptr{o: o}, True}, true
		}
		return Tuple{Ptr{}, False}, true
	case "MarkBoolean", "Defer":
		if name == "Defer" {
			unsup("Defer")
		}
		return Tuple{}, true
	case "IsBoolean":
		_, ok := asBoolInt(fe(a[0]))
		return Bool(ok), true
	case "NewHint":
		n := a[1].(*T)
		if !n.IsConst() {
			unsup("hint with symbolic output count")
		}
		h := &HintInst{fn: hintName(a[0]), in: x.variadic(st, a[2])}
		var vs []Val
		for k := int64(0); k < n.Int64(); k++ {
			v := FreshInt("hint", b0, new(big.Int).Sub(fieldP, b1))
			h.outs = append(h.outs, v)
			vs = append(vs, feVal(v))
		}
		x.hints = append(x.hints, h)
		if hm, ok := hintModels[h.fn]; ok {
			hs, ok := hm(h.in, len(h.outs))
			if ok {
				for k := range hs {
					st.honest = append(st.honest, Eq(h.outs[k], hs[k]))
				}
			}
		} else {
			x.trusted["hint "+h.fn+" has no contract: completeness through it is not claimed"] = true
		}
		return Tuple{st.newSlice(vs, types.NewInterfaceType(nil, nil)), IfaceV{}}, true
	case "Div", "Inverse":
		num, den := One, fe(a[len(a)-1])
		if name == "Div" {
			num = fe(a[0])
		}
		if den.IsConst() {
			inv := new(big.Int).ModInverse(emod(den.C, fieldP), fieldP)
			if inv == nil {
				x.constrain(st, False, name+": divisor is invertible")
				return feVal(Zero), true
			}
			if num.IsConst() {
				return feVal(CB(emod(new(big.Int).Mul(num.C, inv), fieldP))), true
			}
			if inv.Cmp(b1) == 0 {
				return feVal(num), true
			}
		} else {
			x.constrain(st, Not(eqMod(den, Zero)), name+": divisor is invertible")
		}
		// the quotient is the unique field element q with q*den = num
		q := FreshInt("quot", b0, new(big.Int).Sub(fieldP, b1))
		st.assume(Or(eqMod(den, Zero), eqMod(Mul(q, den), num)))
		return feVal(q), true
	case "DivUnchecked":
		unsup("field division")
	}
	unsup("api method %s", name)
	return nil, false
}

func hintName(v Val) string {
	if f, ok := v.(FuncV); ok && f.fn != nil {
		return f.fn.String()
	}
	return "?"
}

// hintModels: contract of hint functions (value the honest prover supplies)
var hintModels = map[string]func(in []*T, n int) ([]*T, bool){}

// normFe folds constants modulo p so that constant arithmetic stays canonical
func normFe(t *T) *T {
	if t.IsConst() {
		if t.C.Sign() < 0 || t.C.Cmp(fieldP) >= 0 {
			return CB(emod(t.C, fieldP))
		}
	}
	return t
}

func (x *Exec) toBinary(st *State, t *T, n int) Val {
	et := types.NewInterfaceType(nil, nil)
	L := fieldP.BitLen()
	if n == 1 {
		x.asBit(st, t, "ToBinary(1): boolean")
		if t.IsConst() && emod(t.C, fieldP).Cmp(b1) > 0 {
			x.constrain(st, False, "ToBinary(1): boolean")
		}
		return st.newSlice([]Val{feVal(t)}, et)
	}
	v := canon(t)
	if n < L {
		bound := new(big.Int).Sub(pow2(n), b1)
		x.constrain(st, Le(v, CB(bound)), fmt.Sprintf("ToBinary: value fits %d bits", n))
		refine(v, bound)
	}
	vs := make([]Val, n)
	for i := range vs {
		if i < L {
			vs[i] = feVal(B2I(Bit(v, i)))
		} else {
			vs[i] = IfaceV{types.Typ[types.Int], Zero}
		}
	}
	return st.newSlice(vs, et)
}

func init() {
	// gnark std/math/bits.ToBinary with a digit count is the same decomposition as api.ToBinary
	const bp = gnarkMod + "/std/math/bits."
	models[bp+"ToBinary"] = func(c *CallCtx) (Val, bool) {
		n := fieldP.BitLen()
		if s, ok := c.args[2].(SliceV); ok && s.base.o != nil {
			for _, o := range c.st.elems(s) {
				f, ok := o.(FuncV)
				if !ok || f.fn == nil || f.fn.String() != bp+"WithNbDigits$1" {
					unsup("bits.ToBinary option")
				}
				v := f.bind[0]
				if p, ok := v.(Ptr); ok {
					v = c.st.load(p)
				}
				t, ok := v.(*T)
				if !ok || !t.IsConst() {
					unsup("ToBinary with symbolic width")
				}
				n = int(t.Int64())
			}
		}
		c.x.trusted["gnark bits.ToBinary(WithNbDigits(n)): the n-bit decomposition, satisfiable iff the value fits"] = true
		return c.x.toBinary(c.st, fe(derefBig(c.st, c.args[1])), n), true
	}
}

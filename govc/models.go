package main

import (
	"go/types"
	"math"
	"math/big"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

var models = map[string]modelFn{}

func big1(c *CallCtx, i int) *T {
	p, ok := c.args[i].(Ptr)
	if !ok || p.o == nil {
		unsup("nil *big.Int")
	}
	b, ok := c.st.load(p).(BigV)
	if !ok {
		unsup("big.Int value %T", c.st.load(p))
	}
	return b.t
}
func bigSet(c *CallCtx, t *T) (Val, bool) {
	c.st.store(c.args[0].(Ptr), BigV{t})
	return c.args[0], true
}
func newBig(c *CallCtx, t *T) Val {
	o := c.x.newObj("big", nil)
	c.st.mem[o] = BigV{t}
	return Ptr{o: o}
}

func absT(t *T) *T {
	if nonNeg(t) {
		return t
	}
	return Ite(Le(Zero, t), t, Neg(t))
}

func pow2T(c *CallCtx, n *T) *T {
	if n.IsConst() {
		return CB(pow2(int(n.Int64())))
	}
	t := App("pow2", n)
	if t.lo == nil {
		t.lo = b1
	}
	return t
}

func init() {
	b := "(*math/big.Int)."
	models["math/big.NewInt"] = func(c *CallCtx) (Val, bool) { return newBig(c, c.args[0].(*T)), true }
	models[b+"SetUint64"] = func(c *CallCtx) (Val, bool) { return bigSet(c, c.args[1].(*T)) }
	models[b+"SetInt64"] = models[b+"SetUint64"]
	models[b+"Set"] = func(c *CallCtx) (Val, bool) { return bigSet(c, big1(c, 1)) }
	models[b+"Add"] = func(c *CallCtx) (Val, bool) { return bigSet(c, Add(big1(c, 1), big1(c, 2))) }
	models[b+"Sub"] = func(c *CallCtx) (Val, bool) { return bigSet(c, Sub(big1(c, 1), big1(c, 2))) }
	models[b+"Mul"] = func(c *CallCtx) (Val, bool) { return bigSet(c, Mul(big1(c, 1), big1(c, 2))) }
	models[b+"Neg"] = func(c *CallCtx) (Val, bool) { return bigSet(c, Neg(big1(c, 1))) }
	models[b+"Lsh"] = func(c *CallCtx) (Val, bool) {
		n := c.args[2].(*T)
		return bigSet(c, Mul(big1(c, 1), pow2T(c, n)))
	}
	models[b+"Rsh"] = func(c *CallCtx) (Val, bool) {
		n := c.args[2].(*T)
		if !n.IsConst() {
			unsup("Rsh symbolic")
		}
		return bigSet(c, Div(big1(c, 1), pow2(int(n.Int64()))))
	}
	models[b+"Exp"] = func(c *CallCtx) (Val, bool) {
		x, y := big1(c, 1), big1(c, 2)
		p, ok := c.args[3].(Ptr)
		if !ok || p.o != nil {
			unsup("modular Exp")
		}
		if x.IsConst() && y.IsConst() {
			return bigSet(c, CB(new(big.Int).Exp(x.C, y.C, nil)))
		}
		if x.IsConst() && x.C.Cmp(b2) == 0 {
			return bigSet(c, pow2T(c, y))
		}
		unsup("Exp")
		return nil, false
	}
	models[b+"Cmp"] = func(c *CallCtx) (Val, bool) {
		p, q := big1(c, 0), big1(c, 1)
		return Cmp3(Sub(p, q)), true
	}
	models[b+"CmpAbs"] = func(c *CallCtx) (Val, bool) {
		p, q := absT(big1(c, 0)), absT(big1(c, 1))
		return Cmp3(Sub(p, q)), true
	}
	models[b+"Sign"] = func(c *CallCtx) (Val, bool) {
		p := big1(c, 0)
		return Cmp3(p), true
	}
	divc := func(c *CallCtx, i int) *big.Int {
		q := big1(c, i)
		if !q.IsConst() || q.C.Sign() <= 0 {
			unsup("big division by a symbolic or non-positive value")
		}
		return q.C
	}
	models[b+"Mod"] = func(c *CallCtx) (Val, bool) { return bigSet(c, Mod(big1(c, 1), divc(c, 2))) }
	models[b+"Div"] = func(c *CallCtx) (Val, bool) { return bigSet(c, Div(big1(c, 1), divc(c, 2))) }
	models[b+"Quo"] = func(c *CallCtx) (Val, bool) { return bigSet(c, truncDiv(big1(c, 1), divc(c, 2))) }
	models[b+"Rem"] = func(c *CallCtx) (Val, bool) {
		p := big1(c, 1)
		d := divc(c, 2)
		return bigSet(c, Sub(p, MulC(truncDiv(p, d), d)))
	}
	models[b+"DivMod"] = func(c *CallCtx) (Val, bool) {
		p, d := big1(c, 1), divc(c, 2)
		c.st.store(c.args[3].(Ptr), BigV{Mod(p, d)})
		bigSet(c, Div(p, d))
		return Tuple{c.args[0], c.args[3]}, true
	}
	models[b+"QuoRem"] = func(c *CallCtx) (Val, bool) {
		p, d := big1(c, 1), divc(c, 2)
		q := truncDiv(p, d)
		c.st.store(c.args[3].(Ptr), BigV{Sub(p, MulC(q, d))})
		bigSet(c, q)
		return Tuple{c.args[0], c.args[3]}, true
	}
	models[b+"Uint64"] = func(c *CallCtx) (Val, bool) {
		p := big1(c, 0)
		if nonNeg(p) {
			return Mod(p, pow2(64)), true
		}
		// low 64 bits of |p|, two's complement for negative values
		return Mod(p, pow2(64)), true
	}
	models[b+"Int64"] = func(c *CallCtx) (Val, bool) {
		return wrapInt(big1(c, 0), types.Typ[types.Int64]), true
	}
	models[b+"IsUint64"] = func(c *CallCtx) (Val, bool) {
		p := big1(c, 0)
		return And(Le(Zero, p), Lt(p, CB(pow2(64)))), true
	}
	models[b+"IsInt64"] = func(c *CallCtx) (Val, bool) {
		p := big1(c, 0)
		return And(Le(CB(new(big.Int).Neg(pow2(63))), p), Lt(p, CB(pow2(63)))), true
	}
	models[b+"Bit"] = func(c *CallCtx) (Val, bool) {
		i := c.args[1].(*T)
		if !i.IsConst() {
			unsup("Bit symbolic index")
		}
		return B2I(Bit(big1(c, 0), int(i.Int64()))), true
	}
	models[b+"BitLen"] = func(c *CallCtx) (Val, bool) {
		p := absT(big1(c, 0))
		if p.IsConst() {
			return CI(int64(p.C.BitLen())), true
		}
		// L = bitlen(p): 2^(L-1) <= p < 2^L  (p>0), 0 for 0
		if p.hi == nil {
			// characterise against every width the code compares with
			t := App("bitlen", p)
			t.lo = b0
			return t, true
		}
		n := p.hi.BitLen()
		r := Zero
		for i := 0; i < n; i++ {
			r = Add(r, B2I(Le(CB(pow2(i)), p)))
		}
		return r, true
	}
	models[b+"SetBytes"] = func(c *CallCtx) (Val, bool) {
		s := c.args[1].(SliceV)
		if !s.len.IsConst() {
			arr, off := c.x.asArray(c.st, s, types.Typ[types.Uint8])
			t := App("be", arr, off, s.len)
			if t.lo == nil {
				t.lo = b0
			}
			return bigSet(c, t)
		}
		es := c.st.elems(s)
		l := newLin()
		for i, e := range es {
			l.add(e.(*T), pow2(8*(len(es)-1-i)))
		}
		return bigSet(c, l.done())
	}
	models[b+"FillBytes"] = func(c *CallCtx) (Val, bool) {
		p := absT(big1(c, 0))
		s := c.args[1].(SliceV)
		if !s.len.IsConst() {
			unsup("FillBytes symbolic")
		}
		n := int(s.len.Int64())
		if !c.x.check(c.st, "FillBytes: buffer too small", Lt(p, CB(pow2(8*n)))) {
			return nil, false
		}
		for i := 0; i < n; i++ {
			c.st.store(s.at(CI(int64(i))), Ext(p, 8*(n-1-i), 8))
		}
		return s, true
	}
	models[b+"Bytes"] = func(c *CallCtx) (Val, bool) {
		p := absT(big1(c, 0))
		u8 := types.Typ[types.Uint8]
		if p.hi == nil {
			unsup("Bytes of unbounded big.Int")
		}
		n := (p.hi.BitLen() + 7) / 8
		if p.IsConst() {
			var es []Val
			for i := 0; i < n; i++ {
				es = append(es, Ext(p, 8*(n-1-i), 8))
			}
			return c.st.newSlice(es, u8), true
		}
		// minimal big-endian: symbolic length L, content at offset n-L of the full-width bytes
		L := Zero
		for i := 0; i < n; i++ {
			L = Add(L, B2I(Le(CB(pow2(8*i)), p)))
		}
		es := make([]Val, n)
		for i := range es {
			es[i] = Ext(p, 8*(n-1-i), 8)
		}
		s := c.st.newSlice(es, u8)
		return SliceV{s.base, Sub(CI(int64(n)), L), L, L}, true
	}
	models[b+"SetString"] = func(c *CallCtx) (Val, bool) {
		s := c.args[1].(StrV)
		base := c.args[2].(*T)
		if s.sym || !base.IsConst() {
			unsup("SetString symbolic")
		}
		n, ok := new(big.Int).SetString(s.s, int(base.Int64()))
		if !ok {
			return Tuple{Ptr{}, False}, true
		}
		bigSet(c, CB(n))
		return Tuple{c.args[0], True}, true
	}
	models["(github.com/consensys/gnark-crypto/ecc.ID).ScalarField"] = func(c *CallCtx) (Val, bool) {
		id := c.args[0].(*T)
		if !id.IsConst() {
			unsup("curve id")
		}
		m, ok := curveFields[id.Int64()]
		if !ok {
			unsup("curve id %d", id.Int64())
		}
		return newBig(c, CB(m)), true
	}
	isHexT := func(c *T) *T {
		in := func(a, b int64) *T { return And(Le(CI(a), c), Le(c, CI(b))) }
		return Or(in('0', '9'), in('a', 'f'), in('A', 'F'))
	}
	hexT := func(c *T) *T {
		return Ite(Le(c, CI('9')), AddC(c, -'0'), Ite(Le(CI('a'), c), AddC(c, 10-'a'), AddC(c, 10-'A')))
	}
	// DecodeString returns the bytes decoded before the first error
	models["encoding/hex.DecodeString"] = func(c *CallCtx) (Val, bool) {
		cs := strChars(c.args[0].(StrV))
		var es []Val
		ok, n := True, Zero
		for i := 0; i+1 < len(cs); i += 2 {
			ok = And(ok, isHexT(cs[i]), isHexT(cs[i+1]))
			n = Add(n, B2I(ok))
			es = append(es, Add(MulC(hexT(cs[i]), big.NewInt(16)), hexT(cs[i+1])))
		}
		if len(cs)%2 == 1 {
			ok = False
		}
		// decide what the path condition already implies
		if ok != True && ok != False {
			for _, h := range c.st.pc {
				ok2 := simplifyBy(ok, h)
				if ok2 == True {
					ok = True
					break
				}
			}
		}
		if ok == True {
			n = CI(int64(len(es)))
		}
		s := c.st.newSlice(es, types.Typ[types.Uint8])
		s.len, s.cap = n, CI(int64(len(es)))
		bad := IfaceV{feType, Opaque{kind: "hexerr"}}
		switch ok {
		case True:
			return Tuple{s, IfaceV{}}, true
		case False:
			return Tuple{s, bad}, true
		}
		return Tuple{s, Opaque{kind: "hexerr?"}}, true
	}
	models["encoding/hex.EncodeToString"] = func(c *CallCtx) (Val, bool) {
		var out []*T
		for _, e := range c.st.elems(c.args[0].(SliceV)) {
			for _, n := range []*T{Ext(e.(*T), 4, 4), Ext(e.(*T), 0, 4)} {
				out = append(out, Ite(Lt(n, CI(10)), AddC(n, '0'), AddC(n, 'a'-10)))
			}
		}
		return strOf(out), true
	}
}

// simplifyBy decides ok when h states it (conjunct by conjunct).
func simplifyBy(ok, h *T) *T {
	hs := map[*T]bool{h: true}
	if h.Op == OAnd {
		for _, a := range h.Args {
			hs[a] = true
		}
	}
	if hs[ok] {
		return True
	}
	if ok.Op == OAnd {
		for _, a := range ok.Args {
			if !hs[a] {
				return ok
			}
		}
		return True
	}
	return ok
}

func hexv(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10
	case b >= 'A' && b <= 'F':
		return int(b-'A') + 10
	}
	return -1
}

var curveFields = map[int64]*big.Int{}

func globalModel(st *State, g *ssa.Global) (Val, bool) {
	return nil, false
}

func opaqueCall(c *CallCtx, op Opaque, name string) (Val, bool) {
	switch op.kind {
	case "api":
		return apiCall(c, name)
	}
	if m, ok := opaqueModels[op.kind]; ok {
		return m(c, op, name)
	}
	if isIgnorable(op.kind) {
		return opaqueZero(c.call.Type(), op.kind), true
	}
	unsup("method %s of %s", name, op.kind)
	return nil, false
}

var opaqueModels = map[string]func(c *CallCtx, op Opaque, name string) (Val, bool){}

func opaqueImplements(o Opaque, t types.Type) bool {
	if o.kind == "api" {
		n, ok := types.Unalias(t).(*types.Named)
		if ok {
			switch n.Obj().Name() {
			case "API", "Compiler", "Builder":
				return true
			}
		}
	}
	return false
}

func init() {
	cst := func(f func(uint64) int) modelFn {
		return func(c *CallCtx) (Val, bool) {
			a := c.args[0].(*T)
			if !a.IsConst() {
				unsup("math/bits on a symbolic value")
			}
			return CI(int64(f(a.C.Uint64()))), true
		}
	}
	for _, s := range []string{"", "64", "32"} {
		models["math/bits.OnesCount"+s] = cst(bits.OnesCount64)
		models["math/bits.Len"+s] = cst(bits.Len64)
	}
}

func init() {
	fl := func(f func(a, b float64) float64) modelFn {
		return func(c *CallCtx) (Val, bool) {
			a, ok1 := c.args[0].(Opaque).data.(float64)
			b, ok2 := c.args[1].(Opaque).data.(float64)
			if !ok1 || !ok2 {
				unsup("floating point on a symbolic value")
			}
			return Opaque{kind: "float64", data: f(a, b)}, true
		}
	}
	models["math.Min"] = fl(math.Min)
	models["math.Max"] = fl(math.Max)
	models["math.Pow"] = fl(math.Pow)
}

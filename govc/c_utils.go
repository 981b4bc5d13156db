package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// Contracts of the conversion helpers: bit/limb packing (C13) and byte, hex and
// slice helpers (C14).

const (
	pUtils  = mod + "common/utils"
	pGUtils = mod + "circuits/gadgets/utils"
	pConv   = mod + "circuits/gadgets/conv"
	pFSmt   = mod + "circuits/fabric/smt"
)

func bigHex(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }

var (
	bls12377r = bigHex("12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001")
	bls12381r = bigHex("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
	bw6761r   = bigHex("1ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001")
)

func init() {
	curveFields[1] = bn254
	curveFields[2] = bls12377r
	curveFields[4] = bls12381r
	curveFields[7] = bw6761r
}

// valBE: big-endian value of digits of w bits each
func valBE(ds []*T, w int) *T {
	s := Zero
	for i, d := range ds {
		s = Add(s, MulC(d, pow2(w*(len(ds)-1-i))))
	}
	return s
}
func valLE(ds []*T, w int) *T { return valBE(revT(ds), w) }
func revT(a []*T) []*T {
	out := make([]*T, len(a))
	for i := range a {
		out[len(a)-1-i] = a[i]
	}
	return out
}

// digitsLE: the n base-2^w digits of x, least significant first
func digitsLE(x *T, w, n int) []*T {
	out := make([]*T, n)
	for i := range out {
		out[i] = Ext(x, i*w, w)
	}
	return out
}
func digitsBE(x *T, w, n int) []*T { return revT(digitsLE(x, w, n)) }

func groupsRev(a []*T, g int) []*T {
	var out []*T
	for i := len(a); i > 0; i -= g {
		out = append(out, a[i-g:i]...)
	}
	return out
}
func chunkRev(a []*T, g int) []*T {
	var out []*T
	for i := 0; i < len(a); i += g {
		out = append(out, revT(a[i:i+g])...)
	}
	return out
}

func nCase(name string, f func(b *B) []Val) *Case { return &Case{Name: name, Build: f} }

func init() {
	isBits := func(e *Env, ts []*T) {
		for _, t := range ts {
			e.Require(isBit(t))
		}
	}
	consBits := func(e *Env, ts []*T) {
		for i, t := range ts {
			e.Constrain(fmt.Sprintf("bit %d is boolean", i), isBit(t))
		}
	}
	_ = isBits
	lenCases := func(ls []int, f func(b *B, n int) []Val) (cs []*Case) {
		for _, n := range ls {
			n := n
			cs = append(cs, nCase(fmt.Sprintf("n%d", n), func(b *B) []Val { return f(b, n) }))
		}
		return
	}

	// ---- C13: packing in circuit ----
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "PackBitsToFr", Cases: lenCases([]int{0, 1, 8, 252, 253, 254, 256, 506, 507, 512, 760}, func(b *B, n int) []Val {
		return []Val{b.API(), b.Fes("b", n)}
	}), Spec: func(e *Env) {
		bs := e.Ints(1)
		consBits(e, bs)
		var out []*T
		for i := 0; i < len(bs); i += 253 {
			j := i + 253
			if j > len(bs) {
				j = len(bs)
			}
			out = append(out, valLE(bs[i:j], 1))
		}
		e.Return(e.FeSlice(out))
	}})
	b32 := func(b *B) Val { return &StructV{f: []Val{b.FeArr("v", 2, nil)}} }
	b32cases := []*Case{nCase("any", func(b *B) []Val { return []Val{b.API(), b32(b)} })}
	fr := func(e *Env, w ...int) []*T {
		v := intsOf(e.st, e.Args[1].(*StructV).f[0])
		for i := range v {
			e.Constrain(fmt.Sprintf("limb %d fits in %d bits", i, w[i]), Lt(v[i], CB(pow2(w[i]))))
		}
		return v
	}
	var bcs []*Case
	for _, k := range []int{248, 253, 128} {
		k := k
		bcs = append(bcs, nCase(fmt.Sprintf("fr%d", k), func(b *B) []Val { return []Val{b.API(), b32(b), b.I(k)} }))
	}
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "Byte32ToBits", Cases: bcs, Spec: func(e *Env) {
		k := e.N(2)
		v := fr(e, k, 256-k)
		e.Return(e.FeSlice(append(bitsLE(v[0], k), bitsLE(v[1], 256-k)...)))
	}})
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "RecomposeSDKByte32ToNibble", Cases: b32cases, Spec: func(e *Env) {
		v := fr(e, 248, 8)
		e.Return(FeArr(append(digitsBE(v[1], 4, 2), digitsBE(v[0], 4, 62)...)))
	}})
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "RecomposeSDKByte32To2Fr", Cases: b32cases, Spec: func(e *Env) {
		v := fr(e, 248, 8)
		e.Return(FeArr([]*T{Add(MulC(v[1], pow2(120)), Ext(v[0], 128, 120)), Ext(v[0], 0, 128)}))
	}})
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "Recompose32ByteToNibbles", Cases: lenCases([]int{2, 3, 4, 8, 16, 32, 64}, func(b *B, n int) []Val {
		return []Val{b.API(), b.Fes("t", n)}
	}), Spec: func(e *Env) {
		t := e.Ints(1)
		if 256%len(t) != 0 {
			e.PanicIff = True
			return
		}
		w := 256 / len(t)
		var out []*T
		for i := range t {
			e.Constrain(fmt.Sprintf("trunk %d fits in %d bits", i, w), Lt(t[i], CB(pow2(w))))
			out = append(out, digitsBE(t[i], 4, w/4)...)
		}
		e.Return(FeArr(out))
	}})
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "Recompose6BytesToNibbles", Cases: []*Case{nCase("any", func(b *B) []Val { return []Val{b.API(), b.Fe("d")} })}, Spec: func(e *Env) {
		e.Constrain("the value fits in 48 bits", Lt(e.Int(1), CB(pow2(48))))
		e.Return(FeArr(digitsBE(e.Int(1), 4, 12)))
	}})

	// ---- C13: off-circuit decomposition ----
	var dcs []*Case
	for _, n := range []int{0, 1, 8, 64, 248, 256} {
		n := n
		dcs = append(dcs, nCase(fmt.Sprintf("n%d", n), func(b *B) []Val { return []Val{b.Big("d", b0, new(big.Int).Sub(pow2(260), b1)), b.I(n)} }))
	}
	bigArg := func(e *Env, i int) *T { return valInt(e.st, e.Args[i]) }
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "DecomposeBits", Cases: dcs, Spec: func(e *Env) {
		d, n := bigArg(e, 0), e.N(1)
		e.PanicIff = Le(CB(pow2(n)), d)
		e.Return(e.IntSlice(bitsLE(d, n)))
	}})
	var gcs []*Case
	for _, s := range [][2]int{{1, 8}, {2, 5}, {4, 16}, {8, 3}, {8, 32}, {3, 7}} {
		s := s
		gcs = append(gcs, nCase(fmt.Sprintf("w%d_n%d", s[0], s[1]), func(b *B) []Val {
			return []Val{b.Big("d", b0, new(big.Int).Sub(pow2(s[0]*s[1]+4), b1)), b.I(s[0]), b.I(s[1])}
		}))
	}
	for _, ty := range []string{"uint", "byte"} {
		name := ty
		if ty == "byte" {
			name = "uint8"
		}
		reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "decompose[" + name + "]", Cases: gcs, Spec: func(e *Env) {
			d, w, n := bigArg(e, 0), e.N(1), e.N(2)
			e.PanicIff = Le(CB(pow2(n*w)), d)
			e.Return(e.IntSlice(digitsLE(d, w, n)))
		}})
	}
	var rcs []*Case
	for _, s := range [][2]int{{1, 0}, {1, 8}, {1, 253}, {1, 256}, {4, 8}, {8, 32}, {8, 33}} {
		s := s
		rcs = append(rcs, nCase(fmt.Sprintf("w%d_n%d", s[0], s[1]), func(b *B) []Val {
			return []Val{b.UintSlice("d", s[1], s[0]), b.I(s[0])}
		}))
	}
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "recompose[uint]", Cases: rcs, Spec: func(e *Env) {
		e.Return(e.Big(Mod(valLE(e.Ints(0), e.N(1)), bn254)))
	}})
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "PackBitsToInt", Cases: lenCases([]int{0, 1, 252, 253, 254, 506, 507, 600}, func(b *B, n int) []Val {
		return []Val{b.UintSlice("b", n, 1)}
	}), Spec: func(e *Env) {
		bs := e.Ints(0)
		var out []Val
		for i := 0; i < len(bs); i += 253 {
			j := i + 253
			if j > len(bs) {
				j = len(bs)
			}
			out = append(out, e.Big(valLE(bs[i:j], 1)))
		}
		e.Return(e.SliceOf(out))
	}})
	var fcs []*Case
	for _, k := range []int{248, 253, 128} {
		k := k
		fcs = append(fcs, nCase(fmt.Sprintf("fr%d", k), func(b *B) []Val {
			return []Val{b.Arr(b.Big("lo", b0, pow2(k+1)), b.Big("hi", b0, pow2(257-k))), b.I(k)}
		}))
	}
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "Byte32ToFrBits", Cases: fcs, Spec: func(e *Env) {
		k := e.N(1)
		v := intsOf(e.st, e.Args[0])
		e.PanicIff = Or(Le(CB(pow2(k)), v[0]), Le(CB(pow2(256-k)), v[1]))
		e.Return(e.IntSlice(append(bitsLE(v[0], k), bitsLE(v[1], 256-k)...)))
	}})
	var pcs []*Case
	for _, s := range [][2]int{{0, 248}, {1, 248}, {20, 248}, {31, 248}, {32, 248}, {33, 248}, {32, 253}, {32, 128}, {32, 8}} {
		s := s
		pcs = append(pcs, nCase(fmt.Sprintf("n%d_fr%d", s[0], s[1]), func(b *B) []Val { return []Val{b.Bytes("d", s[0]), b.I(s[1])} }))
	}
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "ParseBytes32", Cases: pcs, Spec: func(e *Env) {
		d, k := e.Ints(0), e.N(1)
		if len(d) > 32 {
			e.PanicIff = True
			return
		}
		var bits []*T
		for i := len(d) - 1; i >= 0; i-- {
			bits = append(bits, digitsLE(d[i], 1, 8)...)
		}
		for len(bits) < 256 {
			bits = append(bits, Zero)
		}
		e.Return(&ArrV{e: []Val{e.Big(Mod(valLE(bits[:k], 1), bn254)), e.Big(Mod(valLE(bits[k:], 1), bn254))}})
	}})
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "DecodeByteToBinary", Cases: []*Case{nCase("any", func(b *B) []Val { return []Val{b.U("b", 8)} })}, Spec: func(e *Env) {
		e.Return(e.IntSlice(digitsBE(e.Int(0), 1, 8)))
	}})
	var mcs []*Case
	for _, s := range []struct {
		n int
		m *big.Int
	}{{0, bn254}, {1, bn254}, {8, bn254}, {253, bn254}, {254, bn254}, {256, bn254}, {6, big.NewInt(13)}, {5, big.NewInt(7)}} {
		s := s
		mcs = append(mcs, &Case{Name: fmt.Sprintf("n%d_m%d", s.n, s.m.BitLen()), Build: func(b *B) []Val {
			return []Val{b.UintSlice("b", s.n, 2), b.BigC(s.m)}
		}, Sample: func(r *rand.Rand, m map[string]*big.Int, b *B) {
			switch r.Intn(3) {
			case 0: // the modulus itself
				for k := range m {
					if strings.HasPrefix(k, "b_") && s.n >= s.m.BitLen() {
						var i int
						fmt.Sscanf(k[2:], "%d", &i)
						m[k] = big.NewInt(int64(s.m.Bit(s.n - 1 - i)))
					}
				}
			}
		}})
	}
	reg(&Contract{Prop: "C13", Pkg: pUtils, Fn: "BitsToFrBigInt", NoPrune: true, Cases: mcs, Spec: func(e *Env) {
		var bs []*T
		for _, t := range e.Ints(0) {
			bs = append(bs, B2I(Not(Eq(t, Zero))))
		}
		e.Return(e.Big(Mod(valBE(bs, 1), bigArg(e, 1).C)))
	}})

	// ---- C13: conv gadget ----
	bitCases := func(ls ...int) []*Case {
		return lenCases(ls, func(b *B, n int) []Val { return []Val{b.API(), b.Fes("b", n)} })
	}
	convSpec := func(g int, f func(bs []*T) []*T) func(e *Env) {
		return func(e *Env) {
			bs := e.Ints(1)
			if len(bs)%g != 0 {
				e.PanicIff = True
				return
			}
			consBits(e, bs)
			e.Return(e.FeSlice(f(bs)))
		}
	}
	per := func(g int, msb, last bool) func(bs []*T) []*T {
		return func(bs []*T) (out []*T) {
			for i := 0; i < len(bs); i += g {
				if msb {
					out = append(out, valBE(bs[i:i+g], 1))
				} else {
					out = append(out, valLE(bs[i:i+g], 1))
				}
			}
			if last {
				out = revT(out)
			}
			return
		}
	}
	reg(&Contract{Prop: "C13", Pkg: pConv, Fn: "Bits2Bytes", Cases: bitCases(0, 8, 12, 16, 256), Spec: convSpec(8, per(8, false, false))})
	reg(&Contract{Prop: "C13", Pkg: pConv, Fn: "Bits2Bytes2", Cases: bitCases(0, 8, 12, 16, 256), Spec: convSpec(8, per(8, true, false))})
	reg(&Contract{Prop: "C13", Pkg: pConv, Fn: "Bits2BytesArray", Cases: bitCases(0, 8, 12, 16, 256), Spec: convSpec(8, per(8, false, true))})
	reg(&Contract{Prop: "C13", Pkg: pConv, Fn: "Bits2Nibbles", Cases: bitCases(0, 4, 8, 16, 256), Spec: convSpec(4, per(4, false, false))})
	reg(&Contract{Prop: "C13", Pkg: pConv, Fn: "Bits2Uint128s", Cases: []*Case{nCase("any", func(b *B) []Val { return []Val{b.API(), b.FeArr("b", 256, nil)} })}, Spec: func(e *Env) {
		bs := e.Ints(1)
		consBits(e, bs)
		by := per(8, false, false)(bs)
		e.Return(FeArr([]*T{valBE(by[:16], 8), valBE(by[16:], 8)}))
	}})

	// ---- C13: gadgets/utils ----
	var kcs []*Case
	for _, n := range []int{8, 12, 16, 64, 128, 248} {
		n := n
		kcs = append(kcs, nCase(fmt.Sprintf("n%d", n), func(b *B) []Val { return []Val{b.API(), b.Fe("d"), b.I(n)} }))
	}
	reg(&Contract{Prop: "C13", Pkg: pGUtils, Fn: "FlipKeccakFvBits", Cases: kcs, Spec: func(e *Env) {
		d, n := e.Int(1), e.N(2)
		if n%8 != 0 {
			e.PanicIff = True
			return
		}
		e.Constrain("the value fits", Lt(d, CB(pow2(n))))
		e.Return(e.FeSlice(chunkRev(digitsBE(d, 1, n), 8)))
	}})

	// ---- C14: slice helpers ----
	uCases := func(ls ...int) []*Case {
		return lenCases(ls, func(b *B, n int) []Val { return []Val{b.UintSlice("a", n, 64)} })
	}
	for _, pk := range []string{pUtils, pGUtils} {
		reg(&Contract{Prop: "C14", Pkg: pk, Fn: "Flip[uint]", Cases: uCases(0, 1, 2, 3, 8, 33), Spec: func(e *Env) {
			e.Return(e.IntSlice(revT(e.Ints(0))))
		}})
	}
	gCases := func(bad bool) (cs []*Case) {
		for _, s := range [][2]int{{0, 1}, {1, 1}, {4, 2}, {6, 2}, {6, 3}, {5, 1}, {16, 8}, {24, 8}, {8, 8}, {7, 3}, {40, 5}} {
			s := s
			if s[0]%s[1] != 0 && !bad {
				continue
			}
			cs = append(cs, nCase(fmt.Sprintf("n%d_g%d", s[0], s[1]), func(b *B) []Val { return []Val{b.UintSlice("a", s[0], 64), b.I(s[1])} }))
		}
		return
	}
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "FlipByGroups[uint]", Cases: gCases(false), Spec: func(e *Env) {
		e.Return(e.IntSlice(groupsRev(e.Ints(0), e.N(1))))
	}})
	reg(&Contract{Prop: "C14", Pkg: pGUtils, Fn: "FlipSubSlice[uint]", Cases: gCases(true), Spec: func(e *Env) {
		if e.Len(0)%e.N(1) != 0 {
			e.PanicIff = True
			return
		}
		e.Return(e.IntSlice(chunkRev(e.Ints(0), e.N(1))))
	}})
	reg(&Contract{Prop: "C14", Pkg: pGUtils, Fn: "Slice2FVs[uint]", Cases: uCases(0, 1, 5), Spec: func(e *Env) {
		e.Return(e.FeSlice(e.Ints(0)))
	}})
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Reverse[[]uint, uint]", Cases: uCases(0, 1, 2, 3, 8, 33), Mutates: true, Spec: func(e *Env) {
		in := e.Ints(0)
		e.Return(e.IntSlice(revT(in)))
		e.After = map[int]Val{0: e.IntSlice(revT(in))}
	}})
	reg(&Contract{Prop: "C14", Pkg: pFSmt, Fn: "padLeft[uint]", Cases: gCases(true), Spec: func(e *Env) {
		var out []*T
		for i := 0; i < e.N(1); i++ {
			out = append(out, Zero)
		}
		e.Return(e.IntSlice(append(out, e.Ints(0)...)))
	}})
	reg(&Contract{Prop: "C14", Pkg: pFSmt, Fn: "padLeftVars", Cases: []*Case{
		nCase("n3_2", func(b *B) []Val { return []Val{b.Fes("a", 3), b.I(2)} }),
		nCase("n0_4", func(b *B) []Val { return []Val{b.Fes("a", 0), b.I(4)} }),
		nCase("n4_0", func(b *B) []Val { return []Val{b.Fes("a", 4), b.I(0)} }),
	}, Spec: func(e *Env) {
		var out []*T
		for i := 0; i < e.N(1); i++ {
			out = append(out, Zero)
		}
		e.Return(e.FeSlice(append(out, e.Ints(0)...)))
	}})
	for _, w := range []int{20, 32} {
		w := w
		reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: fmt.Sprintf("Pad%dBytes", w), Cases: lenCases([]int{0, 1, w - 1, w, w + 1, 2 * w}, func(b *B, n int) []Val { return []Val{b.Bytes("d", n)} }), Spec: func(e *Env) {
			d := e.Ints(0)
			if len(d) > w {
				e.PanicIff = True
				return
			}
			out := make([]*T, w)
			for i := range out {
				out[i] = Zero
				if k := i - (w - len(d)); k >= 0 {
					out[i] = d[k]
				}
			}
			e.Return(e.IntSlice(out))
		}})
	}
	var ps []*Case
	for _, s := range [][2]int{{0, 32}, {1, 32}, {31, 32}, {32, 32}, {33, 32}, {48, 32}, {5, 8}, {5, 0}} {
		s := s
		ps = append(ps, nCase(fmt.Sprintf("n%d_b%d", s[0], s[1]), func(b *B) []Val { return []Val{b.Bytes("d", s[0]), b.I(s[1])} }))
	}
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "MiMCBlockPad0", Cases: ps, Spec: func(e *Env) {
		d, n := e.Ints(0), e.N(1)
		out := make([]*T, n)
		for i := range out {
			out[i] = Zero
			if k := len(d) - n + i; k >= 0 {
				out[i] = d[k]
			}
		}
		e.Return(e.IntSlice(out))
	}})
	reg(&Contract{Prop: "C14", Pkg: pFSmt, Fn: "getUintByteLen", Cases: []*Case{nCase("any", func(b *B) []Val { return []Val{b.U("x", 64)} })}, Spec: func(e *Env) {
		r := Zero
		for i := 0; i < 8; i++ {
			r = Add(r, B2I(Le(CB(pow2(8*i)), e.Int(0))))
		}
		e.Return(r)
	}})
	reg(&Contract{Prop: "C14", Pkg: pFSmt, Fn: "NewHash", Cases: lenCases([]int{0, 16, 31, 32, 33}, func(b *B, n int) []Val { return []Val{b.Bytes("d", n)} }), Spec: func(e *Env) {
		d := e.Ints(0)
		if len(d) != 32 {
			e.PanicIff = True
			return
		}
		e.Return(FeArr([]*T{valBE(d[:16], 8), valBE(d[16:], 8)}))
	}})
	reg(&Contract{Prop: "C14", Pkg: pCirc, Fn: "ChunkIndexFound", Cases: lenCases([]int{0, 1, 2, 7}, func(b *B, n int) []Val {
		return []Val{b.U("t", 64), b.UintSlice("xs", n, 64)}
	}), Spec: func(e *Env) {
		r := False
		for _, x := range e.Ints(1) {
			r = Or(r, Eq(x, e.Int(0)))
		}
		e.Return(r)
	}})

	// ---- C14: hex helpers ----
	isHexC := func(c *T) *T {
		in := func(a, b int64) *T { return And(Le(CI(a), c), Le(c, CI(b))) }
		return Or(in('0', '9'), in('a', 'f'), in('A', 'F'))
	}
	hexVal := func(c *T) *T {
		return Ite(Le(c, CI('9')), AddC(c, -'0'), Ite(Le(CI('a'), c), AddC(c, 10-'a'), AddC(c, 10-'A')))
	}
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "isHexCharacter", Summary: true, Cases: []*Case{nCase("any", func(b *B) []Val { return []Val{b.U("c", 8)} })}, Spec: func(e *Env) {
		e.Return(isHexC(e.Int(0)))
	}})
	strCases := func(ls ...int) []*Case {
		return lenCases(ls, func(b *B, n int) []Val { return []Val{b.SymStr("s", n)} })
	}
	chars := func(e *Env, i int) []*T { return strChars(e.Args[i].(StrV)) }
	allHex := func(cs []*T) *T {
		r := True
		for _, c := range cs {
			r = And(r, isHexC(c))
		}
		return r
	}
	has0x := func(cs []*T) *T {
		if len(cs) < 2 {
			return False
		}
		return And(Eq(cs[0], CI('0')), Or(Eq(cs[1], CI('x')), Eq(cs[1], CI('X'))))
	}
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "isHex", Cases: strCases(0, 1, 2, 3, 4, 8), Spec: func(e *Env) {
		cs := chars(e, 0)
		e.Return(And(Bool(len(cs)%2 == 0), allHex(cs)))
	}})
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "has0xPrefix", Cases: strCases(0, 1, 2, 3), Spec: func(e *Env) {
		e.Return(has0x(chars(e, 0)))
	}})
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "IsValidTxHash", Cases: strCases(0, 1, 2, 62, 63, 64, 65, 66, 67), Spec: func(e *Env) {
		cs := chars(e, 0)
		r := False
		if len(cs) == 64 {
			r = And(Not(has0x(cs)), allHex(cs))
		}
		if len(cs) == 66 {
			r = And(has0x(cs), allHex(cs[2:]))
		}
		e.Return(r)
	}})
	hexBytes := func(cs []*T) []*T {
		if len(cs)%2 == 1 {
			cs = append([]*T{CI('0')}, cs...)
		}
		var out []*T
		for i := 0; i < len(cs); i += 2 {
			out = append(out, Add(MulC(hexVal(cs[i]), big.NewInt(16)), hexVal(cs[i+1])))
		}
		return out
	}
	var hcs []*Case
	for _, n := range []int{0, 1, 2, 3, 4, 7, 8, 40, 64} {
		for _, p := range []bool{false, true} {
			n, p := n, p
			hcs = append(hcs, &Case{Name: fmt.Sprintf("n%d_%v", n, p), Build: func(b *B) []Val {
				s := b.SymStr("s", n)
				if p {
					s = strCat(strLit("0x"), s.(StrV))
				}
				return []Val{s}
			}, Sample: func(r *rand.Rand, m map[string]*big.Int, b *B) {
				for k := range m {
					if strings.HasPrefix(k, "s_") {
						m[k] = big.NewInt(int64("0123456789abcdefABCDEF"[r.Intn(22)]))
					}
				}
			}})
		}
	}
	hexArg := func(e *Env) []*T {
		cs := chars(e, 0)
		// a 0x prefix is optional
		if len(cs) >= 2 && cs[0] == CI('0') && (cs[1] == CI('x') || cs[1] == CI('X')) {
			cs = cs[2:]
		}
		e.Require(allHex(cs))
		return cs
	}
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Hex2Bytes", Cases: hcs, Spec: func(e *Env) {
		e.Return(e.IntSlice(hexBytes(hexArg(e))))
	}})
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Hex2BigInt", Cases: hcs, Spec: func(e *Env) {
		e.Return(e.Big(valBE(hexBytes(hexArg(e)), 8)))
	}})
	fit := func(bs []*T, w int) []*T {
		if len(bs) > w {
			bs = bs[len(bs)-w:]
		}
		out := make([]*T, w)
		for i := range out {
			out[i] = Zero
			if k := i - (w - len(bs)); k >= 0 {
				out[i] = bs[k]
			}
		}
		return out
	}
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Hex2Addr", Cases: hcs, Spec: func(e *Env) {
		e.Return(IntArr(fit(hexBytes(hexArg(e)), 20)))
	}})
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Hex2Hash", Cases: hcs, Spec: func(e *Env) {
		e.Return(IntArr(fit(hexBytes(hexArg(e)), 32)))
	}})
	byCases := func(ls ...int) []*Case {
		return lenCases(ls, func(b *B, n int) []Val { return []Val{b.Bytes("d", n)} })
	}
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Bytes2Addr", Cases: byCases(0, 1, 19, 20, 21, 32), Spec: func(e *Env) {
		e.Return(IntArr(fit(e.Ints(0), 20)))
	}})
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Bytes2Hash", Cases: byCases(0, 1, 31, 32, 33, 40), Spec: func(e *Env) {
		e.Return(IntArr(fit(e.Ints(0), 32)))
	}})
	hexOf := func(bs []*T) []*T {
		var out []*T
		for _, b := range bs {
			for _, n := range digitsBE(b, 4, 2) {
				out = append(out, Ite(Lt(n, CI(10)), AddC(n, '0'), AddC(n, 'a'-10)))
			}
		}
		return out
	}
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Bytes2Hex", Cases: byCases(0, 1, 2, 20, 32), Spec: func(e *Env) {
		e.Return(strOf(hexOf(e.Ints(0))))
	}})
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Bytes2Hex0x", Cases: byCases(0, 1, 2, 20, 32), Spec: func(e *Env) {
		e.Return(strOf(append([]*T{CI('0'), CI('x')}, hexOf(e.Ints(0))...)))
	}})
	addrCases := []*Case{nCase("any", func(b *B) []Val { return []Val{b.ByteArr("a", 20)} })}
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Addr2Hex", Cases: addrCases, Spec: func(e *Env) {
		e.Return(strOf(hexOf(e.Ints(0))))
	}})
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Addr2Hex0x", Cases: addrCases, Spec: func(e *Env) {
		e.Return(strOf(append([]*T{CI('0'), CI('x')}, hexOf(e.Ints(0))...)))
	}})
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "Bytes2AddrHex", Cases: byCases(0, 19, 20, 21), Spec: func(e *Env) {
		e.Return(strOf(hexOf(fit(e.Ints(0), 20))))
	}})
	reg(&Contract{Prop: "C14", Pkg: pUtils, Fn: "FormatAddrHex", Cases: hcs, Spec: func(e *Env) {
		e.Return(strOf(hexOf(fit(hexBytes(hexArg(e)), 20))))
	}})
}

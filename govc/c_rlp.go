package main

import (
	"fmt"
	"math/big"
)

// Contracts of the RLP helpers: shifts, sub-arrays, comparisons (C07) and the
// RLP prefix and list checks (C08).

const pSel = gnarkMod + "/std/selector"

func init() {
	hintModels["github.com/consensys/gnark/std/selector.muxIndicators"] = func(in []*T, n int) ([]*T, bool) {
		var out []*T
		for i := 0; i < n; i++ {
			out = append(out, B2I(Eq(in[0], CI(int64(i)))))
		}
		return out, true
	}
	var cs []*Case
	for _, n := range []int{2, 3, 4, 5, 16, 62, 64} {
		n := n
		cs = append(cs, nCase(fmt.Sprintf("n%d", n), func(b *B) []Val {
			return []Val{b.API(), b.Fe("sel"), b.Fes("in", n)}
		}))
	}
	reg(&Contract{Prop: "C07", Pkg: pSel, Fn: "Mux", Summary: true, NoNative: true, Cases: cs, Spec: func(e *Env) {
		sel, in := e.Int(1), e.Ints(2)
		e.Constrain("selector addresses one of the inputs", Lt(sel, CI(int64(len(in)))))
		e.Return(feVal(selIte(sel, in)))
	}})
}

// rotl: cyclic left shift of xs by s+base places; s < 2^w
func rotl(xs []*T, base int, s *T, w int) []*T {
	n := len(xs)
	cur := make([]*T, n)
	for j := range cur {
		cur[j] = xs[((j+base)%n+n)%n]
	}
	for i := 0; i < w; i++ {
		b := Bit(s, i)
		nx := make([]*T, n)
		for j := range nx {
			nx[j] = Ite(b, cur[(j+1<<i)%n], cur[j])
		}
		cur = nx
	}
	return cur
}

// shr: right shift by s places, zero filled
func shr(xs []*T, s *T, w int) []*T {
	cur := xs
	for i := 0; i < w; i++ {
		b := Bit(s, i)
		nx := make([]*T, len(xs))
		for j := range nx {
			lo := Zero
			if j >= 1<<i {
				lo = cur[j-1<<i]
			}
			nx[j] = Ite(b, lo, cur[j])
		}
		cur = nx
	}
	return cur
}

func bitLen(n int) int {
	k := 0
	for ; n != 0; n /= 2 {
		k++
	}
	return k
}

func b2i(b *T) Val { return feVal(B2I(b)) }

func init() {
	// comparisons
	two := []*Case{nCase("any", func(b *B) []Val { return []Val{b.API(), b.Fe("a"), b.Fe("b")} }),
		nCase("const", func(b *B) []Val { return []Val{b.API(), b.Fe("a"), b.ConstFe(63)} }),
		nCase("constleft", func(b *B) []Val { return []Val{b.API(), b.ConstFe(5), b.Fe("b")} })}
	reg(&Contract{Prop: "C07 C08 C10", Pkg: pRlp, Fn: "Equal", Cases: two, Spec: func(e *Env) {
		e.Return(b2i(Eq(Mod(Sub(e.Int(1), e.Int(2)), fieldP), Zero)))
	}})
	reg(&Contract{Prop: "C07 C08 C10", Pkg: pRlp, Fn: "LessThan", Cases: two, Spec: func(e *Env) {
		e.Return(b2i(Lt(e.Int(1), e.Int(2))))
	}})
	reg(&Contract{Prop: "C07 C08 C10", Pkg: pRlp, Fn: "LogCeil", Cases: []*Case{nCase("any", func(b *B) []Val { return []Val{b.R("n", 0, 1<<40)} })}, Spec: func(e *Env) {
		r := Zero
		for i := 40; i >= 0; i-- {
			r = Add(r, B2I(Le(CB(pow2(i)), e.Int(0))))
		}
		e.Return(r)
	}})
	var ae []*Case
	for _, d := range [][3]int{{1, 1, 1}, {3, 3, 3}, {6, 4, 4}, {4, 6, 4}, {8, 8, 7}, {3, 4, 4}, {64, 64, 64}, {66, 140, 66}, {228, 302, 228}} {
		d := d
		ae = append(ae, &Case{Name: fmt.Sprintf("a%d_b%d_max%d", d[0], d[1], d[2]), Build: func(b *B) []Val {
			return []Val{b.API(), b.FesB("a", d[0], 15), b.FesB("b", d[1], 15), b.I(d[2]), b.Fe("n")}
		}})
	}
	reg(&Contract{Prop: "C07 C08 C10", Pkg: pRlp, Fn: "ArrayEqual", Summary: true, Cases: ae, Spec: func(e *Env) {
		a, b, m, n := e.Ints(1), e.Ints(2), e.N(3), e.Int(4)
		fit := m <= len(a) && m <= len(b)
		e.Constrain("both arrays hold the compared length", Bool(fit))
		if !fit {
			e.PanicIff = True
			return
		}
		e.Constrain("the target length is at most the maximum", Le(n, CI(int64(m))))
		eq := True
		for i := 0; i < m; i++ {
			eq = And(eq, Or(Le(n, CI(int64(i))), Eq(a[i], b[i])))
		}
		e.Return(b2i(eq))
	}})
	var sc []*Case
	for _, d := range [][3]int{{1, 0, 1}, {5, 0, 3}, {6, 2, 5}, {8, 0, 10}, {7, 3, 3}, {16, 0, 4}, {16, 2, 18}, {33, 0, 32}, {40, 4, 40}} {
		d := d
		sc = append(sc, &Case{Name: fmt.Sprintf("n%d_min%d_max%d", d[0], d[1], d[2]), Build: func(b *B) []Val {
			return []Val{b.API(), b.I(d[0]), b.I(d[1]), b.I(d[2]), b.Fes("in", d[0]), b.FeB("shift", 100)}
		}})
	}
	sc = append(sc, &Case{Name: "anyshift", Build: func(b *B) []Val {
		return []Val{b.API(), b.I(6), b.I(1), b.I(6), b.Fes("in", 6), b.Fe("shift")}
	}}, &Case{Name: "n130", Thorough: true, Build: func(b *B) []Val {
		return []Val{b.API(), b.I(130), b.I(2), b.I(130), b.Fes("in", 130), b.FeB("shift", 300)}
	}})
	reg(&Contract{Prop: "C07 C08 C10", Pkg: pRlp, Fn: "ShiftLeft", Summary: true, Cases: sc, Spec: func(e *Env) {
		n, lo, hi, in, s := e.N(1), e.N(2), e.N(3), e.Ints(4), e.Int(5)
		w := bitLen(hi - lo)
		off := Zero
		if lo != hi {
			off = Mod(Sub(s, CI(int64(lo))), fieldP)
			e.Constrain("the shift lies in the declared window", Lt(off, CB(pow2(w))))
		}
		e.Return(e.FeSlice(rotl(in[:n], lo, off, w)))
	}})
	var sr []*Case
	for _, d := range [][2]int{{1, 1}, {4, 2}, {5, 3}, {8, 3}, {3, 4}, {16, 4}, {33, 6}} {
		d := d
		sr = append(sr, &Case{Name: fmt.Sprintf("n%d_w%d", d[0], d[1]), Build: func(b *B) []Val {
			return []Val{b.API(), b.I(d[0]), b.I(d[1]), b.Fes("in", d[0]), b.FeB("shift", 100)}
		}})
	}
	reg(&Contract{Prop: "C07 C10", Pkg: pRlp, Fn: "ShiftRight", Summary: true, Cases: sr, Spec: func(e *Env) {
		w, s := e.N(2), e.Int(4)
		e.Constrain("the shift fits the declared width", Lt(s, CB(pow2(w))))
		e.Return(e.FeSlice(shr(e.Ints(3)[:e.N(1)], s, w)))
	}})
	var sa []*Case
	for _, d := range [][3]int{{4, 4, 3}, {7, 7, 3}, {8, 5, 3}, {8, 8, 4}, {12, 3, 4}, {64, 64, 7}} {
		d := d
		sa = append(sa, &Case{Name: fmt.Sprintf("n%d_max%d_bits%d", d[0], d[1], d[2]), Build: func(b *B) []Val {
			return []Val{b.PtrTo(&StructV{f: []Val{CI(int64(d[0])), CI(int64(d[1])), CI(int64(d[2]))}}), b.API(), b.Fes("in", d[0]), b.FeB("from", 127), b.FeB("end", 127)}
		}})
	}
	sa = append(sa, &Case{Name: "any", Build: func(b *B) []Val {
		return []Val{b.PtrTo(&StructV{f: []Val{CI(8), CI(3), CI(4)}}), b.API(), b.Fes("in", 8), b.Fe("from"), b.Fe("end")}
	}})
	reg(&Contract{Prop: "C07 C10", Pkg: pRlp, Fn: "(*SubArray).SubArray", Summary: true, Cases: sa, Spec: func(e *Env) {
		n, m, w := asInt(e.Field(0, 0)), asInt(e.Field(0, 1)), int(asInt(e.Field(0, 2)).Int64())
		in, from, end := e.Ints(2), e.Int(3), e.Int(4)
		e.Constrain("from <= end", Le(from, end))
		e.Constrain("end within the input", Le(end, n))
		e.Constrain("the selection fits", Le(Sub(end, from), m))
		out := rotl(in[:n.Int64()], 0, from, w)
		e.Return(e.FeSlice(out[:m.Int64()]), feVal(Sub(end, from)))
	}})
	// digest as nibbles
	for _, f := range []struct {
		fn, k string
		n     int
	}{{"Keccak256AsNibbles", "Keccak256", 10}, {"Keccak256ForNormalTransactionAsNibbles", "Keccak256ForNormalTransaction", 13}, {"Keccak256ForMaxTransactionAsNibbles", "Keccak256ForMaxTransaction", 13}} {
		f := f
		kc := contractOf("C03", pKeccak, f.k)
		reg(&Contract{Prop: "C07", Pkg: pRlp, Fn: f.fn, Cases: []*Case{{Name: "any", Weight: 20, Samples: 8, Build: func(b *B) []Val {
			a := kc.Cases[0].Build(b)
			return []Val{b.API(), b.FeB("inlen", 4000), a[1], a[2]}
		}, Sample: kc.Cases[0].Sample}}, Spec: func(e *Env) {
			h := e.callSpec(kc, e.Args[0], e.Args[2], e.Args[3])
			lanes := intsOf(e.st, h[0])
			var nib []*T
			for k := 0; k < 32; k++ {
				for _, o := range []int{4, 0} {
					var bs []*T
					for j := 0; j < 4; j++ {
						bs = append(bs, B2I(Bit(lanes[k/8], 8*(k%8)+o+j)))
					}
					nib = append(nib, valLE(bs, 1))
				}
			}
			n := e.Int(1)
			e.Return(e.Ptr(&StructV{f: []Val{FeArr(nib), feVal(Ite(Lt(n, CI(63)), n, CI(64)))}}))
		}})
	}
}

// ---- RLP prefixes (C08) ----

// arrPrefix: big list, hex length of the payload (or of its length field), valid list prefix.
// The byte is 16*h+l: lists start at 0xc0, long ones at 0xf8.
func arrPrefix(h, l *T) (bg, n, valid *T) {
	valid = Le(CI(12), h)
	bg = And(Eq(h, CI(15)), Le(CI(8), l))
	n = Ite(valid, Ite(bg, longLen(l), shortLen(h, l)), Zero)
	return
}

// longLen: nibbles of a length field announced by 0xb7+k or 0xf7+k; shortLen:
// nibbles of a payload announced by 0x80+k or 0xc0+k (k < 56)
func longLen(l *T) *T     { return AddC(MulC(Ext(l, 0, 3), b2), 2) }
func shortLen(h, l *T) *T { return MulC(Add(MulC(Ext(h, 0, 2), big16), l), b2) }

// fldPrefix: the classification of an item's first byte
func fldPrefix(h, l *T) (bg, lit, n, valid, arr, empty, zero *T) {
	arr = Le(CI(12), h)
	lit = Lt(h, CI(8))
	bg = And(Or(Eq(h, CI(11)), Eq(h, CI(15))), Le(CI(8), l))
	n = Ite(lit, Zero, Ite(bg, longLen(l), shortLen(h, l)))
	valid = True
	empty = And(Eq(h, CI(12)), Eq(l, Zero))
	zero = And(Eq(h, Zero), Eq(l, Zero))
	return
}

var big16 = big.NewInt(16)

// hexVal: the value of the first n digits
func hexVal(ds []*T) *T {
	v := Zero
	for _, d := range ds {
		v = Add(MulC(v, big16), d)
	}
	return v
}

func init() {
	nib := []*Case{nCase("nibbles", func(b *B) []Val { return []Val{b.API(), b.FeArr("in", 2, big.NewInt(15))} })}
	reg(&Contract{Prop: "C08", Pkg: pRlp, Fn: "RlpArrayPrefix", Summary: true, Cases: nib, Spec: func(e *Env) {
		in := e.Ints(1)
		e.Require(And(Le(in[0], CI(15)), Le(in[1], CI(15))))
		bg, n, valid := arrPrefix(in[0], in[1])
		e.Return(b2i(bg), feVal(n), b2i(valid))
	}})
	reg(&Contract{Prop: "C08", Pkg: pRlp, Fn: "RlpFieldPrefix", Summary: true, Cases: nib, Spec: func(e *Env) {
		in := e.Ints(1)
		e.Require(And(Le(in[0], CI(15)), Le(in[1], CI(15))))
		bg, lit, n, valid, arr, empty, zero := fldPrefix(in[0], in[1])
		e.Return(b2i(bg), b2i(lit), feVal(n), b2i(valid), b2i(arr), b2i(empty), b2i(zero))
	}})
	var hd []*Case
	for _, d := range [][2]int{{2, 2}, {4, 3}, {8, 8}, {64, 64}} {
		d := d
		hd = append(hd, &Case{Name: fmt.Sprintf("in%d_max%d", d[0], d[1]), Build: func(b *B) []Val {
			return []Val{b.API(), b.FesB("in", d[0], 15), b.I(d[1]), b.FeB("n", int64(d[1]))}
		}})
	}
	val := func(in []*T, n *T) *T { // value of the first n digits
		var vs []*T
		for i := 0; i <= len(in); i++ {
			vs = append(vs, hexVal(in[:i]))
		}
		return selIte(n, vs)
	}
	reg(&Contract{Prop: "C08", Pkg: pRlp, Fn: "HexToDecimal", Cases: hd, Spec: func(e *Env) {
		in, m, n := e.Ints(1), e.N(2), e.Int(3)
		e.Require(Le(n, CI(int64(m))))
		e.Return(feVal(Mod(val(in[:m], n), fieldP)))
	}})
	reg(&Contract{Prop: "C08 C10", Pkg: pRlp, Fn: "Hex64To2Fr", Summary: true, Cases: []*Case{nCase("bytes", func(b *B) []Val {
		return []Val{b.API(), b.FesB("in", 64, 15), feVal(MulC(b.v("bytes", b0, big.NewInt(32)), b2))}
	})}, Spec: func(e *Env) {
		in, n := e.Ints(1), e.Int(2)
		e.Require(And(Le(n, CI(64)), Eq(Mod(n, b2), Zero)))
		for _, t := range in[:64] {
			e.Require(Le(t, CI(15)))
		}
		v := val(in[:64], n)
		e.Return(FeArr([]*T{Ext(v, 0, 248), Ext(v, 248, 8)}))
	}})
}

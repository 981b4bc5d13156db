package main

// C12: limbs - a field element with a declared width in bits.

import (
	"fmt"
	"math/big"
)

const pLimbs = "circuits/gadgets/limbs"

func init() {
	// contract of the hint: the quotients of the running remainder, top part
	// first.  SplitHint itself is proved against it below.
	splitParts := func(v *T, size, w, n int) []*T {
		var out []*T
		rem := v
		for i := 0; i < n; i++ {
			size -= w
			out = append(out, Div(rem, pow2(size)))
			rem = Sub(rem, MulC(out[i], pow2(size)))
		}
		if size > 0 {
			out = append(out, rem)
		}
		return out
	}
	hintModels["github.com/brevis-network/zk-utils/"+pLimbs+".SplitHint"] = func(in []*T, n int) ([]*T, bool) {
		for _, c := range in[1:] {
			if !c.IsConst() {
				return nil, false
			}
		}
		r := splitParts(in[0], int(in[1].Int64()), int(in[2].Int64()), int(in[3].Int64()))
		return r, len(r) == n
	}
	limb := func(v Val, size int) Val { return &StructV{f: []Val{v, CI(int64(size))}} }
	api := func(b *B) Val { return b.PtrTo(&StructV{f: []Val{b.API()}}) }
	type lt struct {
		v *T
		n int
	}
	limbOf := func(e *Env, v Val) lt {
		s := v.(*StructV)
		return lt{fe(s.f[0]), int(s.f[1].(*T).Int64())}
	}
	limbsOf := func(e *Env, v Val) (out []lt, total int) {
		for _, l := range elemsOf(e.st, v) {
			x := limbOf(e, l)
			out = append(out, x)
			total += x.n
		}
		return
	}
	ws := func(b *B, sizes ...int) Val {
		var vs []Val
		for i, s := range sizes {
			vs = append(vs, limb(b.FeBits(fmt.Sprintf("w%d", i), s), s))
		}
		return b.Spare(3, vs...)
	}
	wsAny := func(b *B, sizes ...int) Val {
		var vs []Val
		for i, s := range sizes {
			vs = append(vs, limb(b.Fe(fmt.Sprintf("w%d", i)), s))
		}
		return b.Slice(vs...)
	}
	concat := func(l []lt) *T {
		v := Zero
		for _, x := range l {
			v = Add(MulC(v, pow2(x.n)), x.v)
		}
		return v
	}
	mk := func(e *Env, vs []*T, sizes []int) Val {
		var out []Val
		for i := range vs {
			out = append(out, limb(feVal(vs[i]), sizes[i]))
		}
		return e.SliceOf(out)
	}
	// digits of v (total bits), w bits each from the top, the rest last
	cut := func(v *T, total, w, n int) (vs []*T, sizes []int) {
		pos := total
		for i := 0; i < n; i++ {
			pos -= w
			vs = append(vs, Ext(v, pos, w))
			sizes = append(sizes, w)
		}
		if pos > 0 {
			vs = append(vs, Ext(v, 0, pos))
			sizes = append(sizes, pos)
		}
		return
	}

	// ---- the hint ----
	var hc []*Case
	for _, s := range [][3]int{{8, 4, 2}, {8, 1, 8}, {8, 2, 2}, {16, 5, 3}, {64, 8, 8}, {24, 7, 1}, {128, 64, 2}} {
		s := s
		hc = append(hc, nCase(fmt.Sprintf("%d_%d_%d", s[0], s[1], s[2]), func(b *B) []Val {
			n := s[2]
			if s[0] > s[1]*s[2] {
				n++
			}
			var outs []Val
			for i := 0; i < n; i++ {
				outs = append(outs, b.BigC(b0))
			}
			return []Val{b.BigC(fieldP), b.Slice(b.Big("v", b0, pow2(s[0]+3)), b.BigC(big.NewInt(int64(s[0]))), b.BigC(big.NewInt(int64(s[1]))), b.BigC(big.NewInt(int64(s[2])))), b.Slice(outs...)}
		}))
	}
	reg(&Contract{Prop: "C12", Pkg: pLimbs, Fn: "SplitHint", Mutates: true, Cases: hc, Spec: func(e *Env) {
		var in []*T
		for _, v := range e.Elems(1) {
			in = append(in, e.st.mem[v.(Ptr).o].(BigV).t)
		}
		want := splitParts(in[0], int(in[1].Int64()), int(in[2].Int64()), int(in[3].Int64()))
		e.Return(IfaceV{})
		var outs []Val
		for _, w := range want {
			outs = append(outs, e.Big(w))
		}
		var ins []Val
		for _, w := range in {
			ins = append(ins, e.Big(w))
		}
		e.After = map[int]Val{1: e.SliceOf(ins), 2: e.SliceOf(outs)}
	}})

	// ---- Split ----
	var sc []*Case
	for _, s := range [][3]int{{8, 8, -1}, {8, 4, -1}, {8, 1, -1}, {8, 3, -1}, {8, 2, 2}, {8, 7, 1}, {24, 5, 1}, {64, 8, -1}, {128, 64, -1}, {253, 64, -1}, {16, 1, -1}, {64, 1, -1}, {1, 1, -1}, {200, 199, 1}, {8, 9, -1}, {8, 4, 0}} {
		s := s
		sc = append(sc, nCase(fmt.Sprintf("%d_%d_%d", s[0], s[1], s[2]), func(b *B) []Val {
			o := b.Slice()
			if s[2] >= 0 {
				o = b.Slice(CI(int64(s[2])))
			}
			return []Val{api(b), limb(b.Fe("v"), s[0]), CI(int64(s[1])), o}
		}))
	}
	reg(&Contract{Prop: "C12", Pkg: pLimbs, Fn: "(*API).Split", Cases: sc, Spec: func(e *Env) {
		l, w := limbOf(e, e.Args[1]), e.N(2)
		if l.n == w {
			e.Return(mk(e, []*T{l.v}, []int{w}))
			return
		}
		n := l.n / w
		if o := e.Ints(3); len(o) > 0 {
			n = int(o[0].Int64())
		}
		if n <= 0 {
			e.PanicIff = True
			return
		}
		e.Constrain("the value fits its declared width", Lt(l.v, CB(pow2(l.n))))
		vs, sz := cut(l.v, l.n, w, n)
		e.Return(mk(e, vs, sz))
	}})

	// ---- Merge ----
	mcase := func(name string, f func(b *B) []Val) *Case { return nCase(name, f) }
	reg(&Contract{Prop: "C12", Pkg: pLimbs, Fn: "(*API).Merge", Cases: []*Case{
		mcase("none", func(b *B) []Val { return []Val{api(b), b.Slice()} }),
		mcase("one", func(b *B) []Val { return []Val{api(b), wsAny(b, 8)} }),
		mcase("three", func(b *B) []Val { return []Val{api(b), wsAny(b, 8, 3, 13)} }),
		mcase("wide", func(b *B) []Val { return []Val{api(b), wsAny(b, 64, 64, 64, 64)} }),
		mcase("bits", func(b *B) []Val { return []Val{api(b), ws(b, 1, 1, 1, 1, 1, 1, 1, 1)} }),
		mcase("fit", func(b *B) []Val { return []Val{api(b), ws(b, 100, 53, 100)} }),
	}, Spec: func(e *Env) {
		l, total := limbsOf(e, e.Args[1])
		if len(l) == 0 {
			e.PanicIff = True
			return
		}
		e.Return(limb(feVal(Mod(concat(l), fieldP)), total))
	}})

	// ---- Resplit ----
	fits := func(e *Env, l []lt) {
		for _, x := range l {
			e.Require(Lt(x.v, CB(pow2(x.n))))
		}
	}
	var rc []*Case
	for _, s := range [][]int{{12, 8, 8, 8}, {8, 8, 8, 8}, {5, 8, 8, 8}, {4, 8}, {16, 8}, {1, 3, 3}, {8, 64, 64}, {64, 8, 8, 8, 8, 8, 8, 8, 8}, {127, 127, 127}, {100, 127, 126}, {64, 127, 126, 7}, {64, 128, 128}, {128, 64, 64, 64, 64, 64, 64}} {
		s := s
		rc = append(rc, nCase(fmt.Sprintf("%v", s), func(b *B) []Val { return []Val{api(b), ws(b, s[1:]...), CI(int64(s[0]))} }))
	}
	reg(&Contract{Prop: "C12", Pkg: pLimbs, Fn: "(*API).Resplit", Cases: rc, Spec: func(e *Env) {
		l, total := limbsOf(e, e.Args[1])
		w := e.N(2)
		fits(e, l)
		if w > total {
			w = total
		}
		vs, sz := cut(concat(l), total, w, total/w)
		e.Return(mk(e, vs, sz))
	}})

	// ---- rotation ----
	var lc, lmc []*Case
	for _, s := range [][]int{{0, 8, 8, 8}, {1, 8, 8, 8}, {8, 8, 8, 8}, {13, 8, 8, 8}, {23, 8, 8, 8}, {24, 8, 8, 8}, {3, 5, 2, 9}, {6, 5, 2, 9}, {7, 5, 2, 9}, {70, 64, 64}, {5, 8}} {
		s := s
		lmc = append(lmc, nCase(fmt.Sprintf("%v", s), func(b *B) []Val { return []Val{api(b), ws(b, s[1:]...), CI(int64(s[0]))} }))
		lc = append(lc, nCase(fmt.Sprintf("%v", s), func(b *B) []Val { return []Val{api(b), ws(b, s[1:]...), CI(int64(s[0])), CI(4)} }))
	}
	rotl := func(v *T, total, k int) *T {
		k %= total
		if k == 0 {
			return v
		}
		return Add(MulC(Ext(v, 0, total-k), pow2(k)), Ext(v, total-k, k))
	}
	reg(&Contract{Prop: "C12", Pkg: pLimbs, Fn: "(*API).LrotMerge", Cases: lmc, Spec: func(e *Env) {
		l, total := limbsOf(e, e.Args[1])
		fits(e, l)
		e.Return(limb(feVal(rotl(concat(l), total, e.N(2))), total))
	}})
	reg(&Contract{Prop: "C12", Pkg: pLimbs, Fn: "(*API).Lrot", Cases: lc, Spec: func(e *Env) {
		l, total := limbsOf(e, e.Args[1])
		fits(e, l)
		w := e.N(3)
		vs, sz := cut(rotl(concat(l), total, e.N(2)), total, w, total/w)
		e.Return(mk(e, vs, sz))
	}})
	reg(&Contract{Prop: "C12", Pkg: pLimbs, Fn: "NewLimbs", Cases: []*Case{nCase("n0", func(b *B) []Val { return []Val{b.Fes("v", 0), CI(8)} }), nCase("n3", func(b *B) []Val { return []Val{b.Fes("v", 3), CI(9)} })}, Spec: func(e *Env) {
		var sz []int
		for range e.Ints(0) {
			sz = append(sz, e.N(1))
		}
		e.Return(mk(e, e.Ints(0), sz))
	}})
	reg(&Contract{Prop: "C12", Pkg: pLimbs, Fn: "(Limbs).Values", Cases: []*Case{nCase("n0", func(b *B) []Val { return []Val{wsAny(b)} }), nCase("n3", func(b *B) []Val { return []Val{wsAny(b, 3, 4, 5)} })}, Spec: func(e *Env) {
		l, _ := limbsOf(e, e.Args[0])
		var vs []*T
		for _, x := range l {
			vs = append(vs, x.v)
		}
		e.Return(e.FeSlice(vs))
	}})
	reg(&Contract{Prop: "C12", Pkg: pLimbs, Fn: "(Limbs).TotalSize", Cases: []*Case{nCase("n0", func(b *B) []Val { return []Val{wsAny(b)} }), nCase("n3", func(b *B) []Val { return []Val{wsAny(b, 3, 4, 5)} })}, Spec: func(e *Env) {
		_, n := limbsOf(e, e.Args[0])
		e.Return(CI(int64(n)))
	}})
	_ = mk
}

package main

import "fmt"

const (
	pMux = "circuits/gadgets/mux"
	pRlp = "circuits/gadgets/rlp"
)

// selIte: xs[sel] as a nested choice (last element when sel is out of range)
func selIte(sel *T, xs []*T) *T {
	r := xs[len(xs)-1]
	for i := len(xs) - 2; i >= 0; i-- {
		r = Ite(Eq(sel, CI(int64(i))), xs[i], r)
	}
	return r
}

func init() {
	mat := func(b *B, w, n int) Val {
		var rows []Val
		for i := 0; i < w; i++ {
			rows = append(rows, b.Fes(fmt.Sprintf("in%d", i), n))
		}
		return b.Slice(rows...)
	}
	muxCases := func() (cs []*Case) {
		for _, d := range [][2]int{{0, 0}, {1, 1}, {1, 2}, {2, 3}, {3, 5}, {1, 17}, {2, 16}, {3, 33}, {1, 64}} {
			d := d
			if d[1] == 0 {
				continue
			}
			cs = append(cs, &Case{Name: fmt.Sprintf("w%d_n%d", d[0], d[1]), Build: func(b *B) []Val {
				return []Val{b.API(), b.Fe("sel"), b.I(d[0]), b.I(d[1]), mat(b, d[0], d[1])}
			}})
		}
		cs = append(cs, &Case{Name: "constsel", Build: func(b *B) []Val {
			return []Val{b.API(), b.ConstFe(2), b.I(2), b.I(4), mat(b, 2, 4)}
		}})
		cs = append(cs, &Case{Name: "w2_n130", Thorough: true, Build: func(b *B) []Val {
			return []Val{b.API(), b.Fe("sel"), b.I(2), b.I(130), mat(b, 2, 130)}
		}})
		return
	}
	muxSpec := func(e *Env) {
		sel := e.Int(1)
		w, n := e.N(2), e.N(3)
		rows := e.Elems(4)
		e.Constrain("selector addresses one of the inputs", Lt(sel, CI(int64(n))))
		var out []*T
		for i := 0; i < w; i++ {
			out = append(out, selIte(sel, intsOf(e.st, rows[i])[:n]))
		}
		e.Return(e.FeSlice(out))
	}
	reg(&Contract{Prop: "C05", Pkg: pMux, Fn: "Multiplex", Cases: muxCases(), Spec: muxSpec})
	reg(&Contract{Prop: "C05 C08", Pkg: pRlp, Fn: "Multiplexer", Summary: true, Cases: muxCases(), Spec: muxSpec})

	decCases := func() (cs []*Case) {
		for _, n := range []int{1, 2, 3, 7, 16, 33} {
			n := n
			cs = append(cs, &Case{Name: fmt.Sprintf("n%d", n), Build: func(b *B) []Val {
				return []Val{b.API(), b.I(n), b.Fe("sel")}
			}})
		}
		return
	}
	decSpec := func(e *Env) {
		n, sel := e.N(1), e.Int(2)
		var out []*T
		for i := 0; i < n; i++ {
			out = append(out, B2I(Eq(sel, CI(int64(i)))))
		}
		e.Return(e.FeSlice(out), feVal(B2I(Lt(sel, CI(int64(n))))))
	}
	reg(&Contract{Prop: "C05", Pkg: pMux, Fn: "decode", Cases: decCases(), Spec: decSpec, Optional: true})
	reg(&Contract{Prop: "C05", Pkg: pRlp, Fn: "Decoder", Cases: decCases(), Spec: decSpec})

	dotCases := func() (cs []*Case) {
		for _, n := range []int{1, 2, 5, 16} {
			n := n
			cs = append(cs, &Case{Name: fmt.Sprintf("n%d", n), Build: func(b *B) []Val {
				return []Val{b.API(), b.I(n), b.Fes("a", n), b.Fes("b", n)}
			}})
		}
		return
	}
	dotSpec := func(e *Env) {
		x, y := e.Ints(2), e.Ints(3)
		s := Zero
		for i := 0; i < e.N(1); i++ {
			s = Add(s, Mul(x[i], y[i]))
		}
		e.Return(feVal(s))
	}
	reg(&Contract{Prop: "C05", Pkg: pMux, Fn: "dotProduct", Cases: dotCases(), Spec: dotSpec, Optional: true})
	reg(&Contract{Prop: "C05", Pkg: pRlp, Fn: "EscalarProduct", Cases: dotCases(), Spec: dotSpec})

	eqCases := func() []*Case {
		return []*Case{
			{Name: "vars", Build: func(b *B) []Val { return []Val{b.API(), b.Fe("a"), b.Fe("b")} }},
			{Name: "const", Build: func(b *B) []Val { return []Val{b.API(), b.ConstFe(7), b.Fe("b")} }},
		}
	}
	reg(&Contract{Prop: "C05", Pkg: pMux, Fn: "isEqual", Cases: eqCases(), Optional: true,
		Spec: func(e *Env) { e.Return(feVal(B2I(Eq(e.Int(1), e.Int(2))))) }})
	reg(&Contract{Prop: "C05", Pkg: pRlp, Fn: "Equal", Cases: eqCases(),
		Spec: func(e *Env) { e.Return(feVal(B2I(Eq(e.Int(1), e.Int(2))))) }})
	reg(&Contract{Prop: "C06", Pkg: pRlp, Fn: "LessThan", Cases: append(eqCases(),
		&Case{Name: "vc", Build: func(b *B) []Val { return []Val{b.API(), b.Fe("a"), b.ConstFe(63)} }}),
		Spec: func(e *Env) { e.Return(feVal(B2I(Lt(e.Int(1), e.Int(2))))) }})

	// ArrayEqual: 1 iff the first targetLength elements agree ... as decided by the gadget's
	// documented contract: the number of equal positions among the first targetLength.
	var aeCases []*Case
	for _, n := range []int{1, 2, 3, 8, 64} {
		n := n
		aeCases = append(aeCases, &Case{Name: fmt.Sprintf("n%d", n), Build: func(b *B) []Val {
			return []Val{b.API(), b.Fes("a", n), b.Fes("b", n), b.I(n), b.Fe("len")}
		}})
	}
	aeCases = append(aeCases, &Case{Name: "longer_arrays", Build: func(b *B) []Val {
		return []Val{b.API(), b.Fes("a", 6), b.Fes("b", 5), b.I(4), b.Fe("len")}
	}}, &Case{Name: "too_short", Build: func(b *B) []Val {
		return []Val{b.API(), b.Fes("a", 4), b.Fes("b", 5), b.I(4), b.FeB("len", 4)}
	}})
	reg(&Contract{Prop: "C06", Pkg: pRlp, Fn: "ArrayEqual", Cases: aeCases, Spec: func(e *Env) {
		x, y, n, l := e.Ints(1), e.Ints(2), e.N(3), e.Int(4)
		e.Constrain("length at most maxLength", Le(l, CI(int64(n))))
		var cs []*T
		for i := 0; i < n; i++ {
			cs = append(cs, Or(Le(l, CI(int64(i))), Eq(x[i], y[i])))
		}
		e.Return(feVal(B2I(And(cs...))))
	}})
	reg(&Contract{Prop: "C06", Pkg: pRlp, Fn: "LogCeil", Cases: []*Case{
		{Name: "all", Build: func(b *B) []Val { return []Val{b.v("n", b0, pm63())} }}},
		Spec: func(e *Env) {
			n := e.Int(0)
			r := Zero
			for i := 0; i < 63; i++ {
				r = Add(r, B2I(Le(CB(pow2(i)), n)))
			}
			e.Return(r)
		}})

	var saCases []*Case
	for _, d := range [][3]int{{64, 64, 7}, {64, 32, 6}, {4, 4, 2}, {5, 3, 3}, {66, 64, 7}} {
		d := d
		saCases = append(saCases, &Case{Name: fmt.Sprintf("n%d_m%d_b%d", d[0], d[1], d[2]), Build: func(b *B) []Val {
			s := &StructV{f: []Val{CI(int64(d[0])), CI(int64(d[1])), CI(int64(d[2]))}}
			return []Val{b.PtrTo(s), b.API(), b.Fes("in", d[0]), b.Fe("from"), b.Fe("end")}
		}})
	}
	reg(&Contract{Prop: "C06", Pkg: pRlp, Fn: "(*SubArray).SubArray", Cases: saCases, Spec: func(e *Env) {
		n, ms, nb := asInt(e.Field(0, 0)), asInt(e.Field(0, 1)), asInt(e.Field(0, 2)).Int64()
		in, from, end := e.Ints(2), e.Int(3), e.Int(4)
		e.Constrain("from <= end <= nIn", And(Le(from, end), Le(end, n)))
		e.Constrain("length at most maxSelect", Le(Sub(end, from), ms))
		var out []*T
		N := int(n.Int64())
		for i := 0; i < int(ms.Int64()); i++ {
			r := Zero
			for k := 0; k < 1<<nb; k++ {
				r = Ite(Eq(Ext(from, 0, int(nb)), CI(int64(k))), in[(i+k)%N], r)
			}
			out = append(out, r)
		}
		e.Return(e.FeSlice(out), feVal(Sub(end, from)))
	}})
	reg(&Contract{Prop: "C06", Pkg: pRlp, Fn: "NewSubArray", Cases: []*Case{{Name: "any", Build: func(b *B) []Val {
		return []Val{b.S("a", 64), b.S("b", 64), b.S("c", 64)}
	}}}, Spec: func(e *Env) {
		e.Return(e.b.PtrTo(&StructV{f: []Val{e.Args[0], e.Args[1], e.Args[2]}}))
	}})
}

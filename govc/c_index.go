package main

// C09: the RLP encoding of a transaction index, as nibbles.

const pIdx = "circuits/gadgets/index-proof/core"

func init() {
	reg(&Contract{Prop: "C09", Pkg: pIdx, Fn: "SumNibble", Cases: []*Case{nCase("bits", func(b *B) []Val { return []Val{b.API(), b.Fes("in", 4)} })}, Spec: func(e *Env) {
		in := e.Ints(1)
		v := Zero
		for i := 0; i < 4; i++ {
			v = Add(v, MulC(in[i], pow2(i)))
		}
		e.Return(feVal(Mod(v, fieldP)))
	}})
	cs := []*Case{nCase("any", func(b *B) []Val { return []Val{b.API(), b.Fe("index")} }), nCase("inrange", func(b *B) []Val { return []Val{b.API(), b.FeB("index", 70000)} })}
	reg(&Contract{Prop: "C09", Pkg: pIdx, Fn: "CalTxOrReceiptIndexRlp", Cases: cs, Spec: func(e *Env) {
		x := e.Int(1)
		e.Constrain("the index fits two bytes", Lt(x, CI(1<<16)))
		nib := func(i int) *T { return Ext(x, 4*i, 4) }
		zero, one, two := Eq(x, Zero), Lt(x, CI(128)), Lt(x, CI(256))
		// 0 is the empty string, one byte below 128 encodes itself, else a length
		// prefix and the shortest big-endian bytes
		pick := func(z, s, b1, b2 *T) *T { return Ite(zero, z, Ite(one, s, Ite(two, b1, b2))) }
		e.Return(FeArr([]*T{
			pick(CI(8), nib(1), CI(8), CI(8)),
			pick(Zero, nib(0), CI(1), CI(2)),
			pick(Zero, Zero, nib(1), nib(3)),
			pick(Zero, Zero, nib(0), nib(2)),
			pick(Zero, Zero, Zero, nib(1)),
			pick(Zero, Zero, Zero, nib(0)),
			Zero,
		}))
	}})
}

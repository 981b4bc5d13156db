package main

import (
	"fmt"
	"math/big"
	"sync"
)

// Contracts of the Merkle-root and sparse-Merkle-tree gadgets (C11).
//
// gnark's MiMC sponge (Write/Reset/Sum, Miyaguchi-Preneel) is interpreted from
// its own source; its block cipher encryptPow5 is an opaque function of the
// chaining value and the message (native evaluation for replays below).

const (
	pMerkle  = mod + "circuits/gadgets/merkle"
	pGSmt    = mod + "circuits/gadgets/smt"
	mimcType = "github.com/consensys/gnark/std/hash/mimc.MiMC"
)

var (
	mimcConsts []*big.Int
	mimcOnce   sync.Once
)

func mimcEncNative(k, m *big.Int) *big.Int {
	mimcOnce.Do(func() {
		rnd := keccak256Native([]byte("seed"))
		for i := 0; i < 110; i++ {
			rnd = keccak256Native(rnd)
			mimcConsts = append(mimcConsts, new(big.Int).Mod(new(big.Int).SetBytes(rnd), bn254))
		}
	})
	x := new(big.Int).Set(m)
	five := big.NewInt(5)
	for _, c := range mimcConsts {
		x.Add(x, k)
		x.Add(x, c)
		x.Exp(x, five, bn254)
	}
	x.Add(x, k)
	return x.Mod(x, bn254)
}

// keccak256Native: legacy Keccak-256 of a short message (< 136 bytes)
func keccak256Native(in []byte) []byte {
	var b [136]byte
	copy(b[:], in)
	b[len(in)] ^= 1
	b[135] ^= 0x80
	var s [25]uint64
	for i, c := range b {
		s[i/8] |= uint64(c) << (8 * (i % 8))
	}
	keccakFNative(&s)
	out := make([]byte, 32)
	for i := range out {
		out[i] = byte(s[i/8] >> (8 * (i % 8)))
	}
	return out
}

func mimcEnc(k, m *T) *T {
	t := App("mimcenc", Mod(k, fieldP), Mod(m, fieldP))
	if t.lo == nil {
		t.lo, t.hi = b0, new(big.Int).Sub(fieldP, b1)
	}
	return t
}

// mimcHash: Miyaguchi-Preneel from the zero chaining value
func mimcHash(xs ...*T) *T {
	h := Zero
	for _, x := range xs {
		h = Mod(Add(h, mimcEnc(h, x), x), fieldP)
	}
	return h
}

func init() {
	appEval["mimcenc"] = func(as []*big.Int) *big.Int { return mimcEncNative(as[0], as[1]) }
	models["github.com/consensys/gnark/std/hash/mimc.encryptPow5"] = func(c *CallCtx) (Val, bool) {
		h := c.args[0].(*StructV)
		return feVal(mimcEnc(valInt(c.st, h.f[2]), valInt(c.st, c.args[1]))), true
	}
}

func (b *B) Mimc() Val {
	return &StructV{f: []Val{SliceV{len: Zero, cap: Zero, off: Zero}, One, b.ConstFe(0), SliceV{len: Zero, cap: Zero, off: Zero}, b.API()}}
}

// merkleFold: the root above leaf h, constraining every used index to be a bit
func merkleFold(e *Env, h *T, idx, br []*T) *T {
	for i := range br {
		e.Constrain("index is a bit", Le(idx[i], One))
		h = Ite(Eq(idx[i], Zero), mimcHash(h, br[i]), mimcHash(br[i], h))
	}
	return h
}

func init() {
	type d struct{ n, m int }
	mk := func(ds []d, f func(b *B, x d) []Val) []*Case {
		var cs []*Case
		for _, x := range ds {
			x := x
			cs = append(cs, nCase(fmt.Sprintf("branches=%d,indexes=%d", x.n, x.m), func(b *B) []Val { return f(b, x) }))
		}
		return cs
	}
	shapes := []d{{0, 0}, {1, 1}, {2, 2}, {3, 4}, {5, 5}, {4, 3}}
	reg(&Contract{Prop: "C11", Pkg: pMerkle, Fn: "MiMCHashBasedOnIndex",
		Cases: []*Case{nCase("any", func(b *B) []Val {
			return []Val{b.API(), b.Mimc(), b.Fe("v0"), b.Fe("v1"), b.Fe("index")}
		}), nCase("bit", func(b *B) []Val {
			return []Val{b.API(), b.Mimc(), b.Fe("v0"), b.Fe("v1"), b.FeB("index", 1)}
		})},
		Spec: func(e *Env) {
			v := []*T{e.Int(2), e.Int(3)}
			e.Return(feVal(merkleFold(e, v[0], []*T{e.Int(4)}, v[1:])))
		}})
	reg(&Contract{Prop: "C11", Pkg: pMerkle, Fn: "MerkleRootBasedOnMiMCHash",
		Cases: mk(shapes, func(b *B, x d) []Val {
			return []Val{b.API(), b.Mimc(), b.Fe("leaf"), b.FesB("index", x.m, 1), b.Fes("branch", x.n)}
		}),
		Spec: func(e *Env) {
			e.Constrain("enough indexes", Bool(e.Len(4) <= e.Len(3)))
			if e.Len(4) > e.Len(3) {
				return
			}
			e.Return(feVal(merkleFold(e, mimcHash(e.Int(2)), e.Ints(3), e.Ints(4))))
		}})
	reg(&Contract{Prop: "C11", Pkg: pMerkle, Fn: "MerkleRootWithLeaveHash",
		Cases: mk(shapes, func(b *B, x d) []Val {
			return []Val{b.API(), b.Mimc(), b.Fe("leaf"), b.FesB("index", x.m, 1), b.Fes("branch", x.n)}
		}),
		Spec: func(e *Env) {
			e.Constrain("enough indexes", Bool(e.Len(4) <= e.Len(3)))
			if e.Len(4) > e.Len(3) {
				return
			}
			e.Return(feVal(merkleFold(e, e.Int(2), e.Ints(3), e.Ints(4))))
		}})
}

func init() {
	fold := func(h *T, e *Env, idx, br []*T) *T { return merkleFold(e, h, idx, br) }
	leafHash := func(e *Env, tree, idx []*T) *T {
		e.Constrain("one index per leaf branch", Bool(len(tree)-1 == len(idx)))
		return fold(mimcHash(tree[0]), e, idx, tree[1:])
	}
	type d struct{ t, n int }
	shapes := []d{{1, 1}, {3, 2}, {4, 5}}
	var cs, ls []*Case
	for _, x := range shapes {
		x := x
		ls = append(ls, nCase(fmt.Sprintf("tree=%d", x.t), func(b *B) []Val {
			return []Val{b.API(), b.Mimc(), b.Fes("tree", x.t), b.FesB("lidx", x.t-1, 1)}
		}))
		cs = append(cs, nCase(fmt.Sprintf("tree=%d,branches=%d", x.t, x.n), func(b *B) []Val {
			return []Val{b.API(), b.Mimc(), b.I(x.n), b.Fes("tree", x.t), b.FesB("lidx", x.t-1, 1), b.FesB("idx", x.n, 1), b.Fes("branch", x.n), b.Fe("root")}
		}))
	}
	ls = append(ls, nCase("tree=3,idx=3", func(b *B) []Val {
		return []Val{b.API(), b.Mimc(), b.Fes("tree", 3), b.FesB("lidx", 3, 1)}
	}))
	reg(&Contract{Prop: "C11", Pkg: pGSmt, Fn: "CalculateLeafValueHash", Cases: ls,
		Spec: func(e *Env) {
			if e.Len(2)-1 != e.Len(3) {
				e.Constrain("one index per leaf branch", Bool(false))
				return
			}
			e.Return(feVal(leafHash(e, e.Ints(2), e.Ints(3))))
		}})
	reg(&Contract{Prop: "C11", Pkg: pGSmt, Fn: "CheckSMTInclusion", Cases: cs,
		Spec: func(e *Env) {
			leaf := leafHash(e, e.Ints(3), e.Ints(4))
			root := fold(mimcHash(leaf), e, e.Ints(5), e.Ints(6))
			e.Return(feVal(B2I(Eq(Mod(Sub(e.Int(7), root), fieldP), Zero))))
		}})

	// Keccak tree over 256-bit leaves
	var ks []*Case
	for _, n := range []int{1, 2, 4, 8, 0, 3, 6} {
		n := n
		ks = append(ks, nCase(fmt.Sprintf("leaves=%d", n), func(b *B) []Val {
			var l []Val
			for i := 0; i < n; i++ {
				l = append(l, b.FeArr(fmt.Sprintf("l%d", i), 256, b1))
			}
			return []Val{b.API(), b.Slice(l...)}
		}))
	}
	reg(&Contract{Prop: "C11", Pkg: pMerkle, Fn: "KeccakMerkleRoot", Cases: ks,
		Spec: func(e *Env) {
			var ls [][]*T
			for _, v := range e.Elems(1) {
				ls = append(ls, intsOf(e.st, v))
			}
			n := len(ls)
			e.PanicIff = Bool(n == 0 || n&(n-1) != 0)
			if n == 0 || n&(n-1) != 0 {
				return
			}
			for len(ls) > 1 {
				var up [][]*T
				for i := 0; i < len(ls); i += 2 {
					up = append(up, keccakBits(append(append([]*T{}, ls[i]...), ls[i+1]...)))
				}
				ls = up
			}
			e.Return(FeArr(ls[0]))
		}})
	reg(&Contract{Prop: "C11", Pkg: pMerkle, Fn: "isPowerOfTwo",
		Cases: []*Case{nCase("any", func(b *B) []Val { return []Val{b.R("n", 0, 1<<20)} })},
		Spec: func(e *Env) {
			p := Bool(false)
			for i := 0; i <= 20; i++ {
				p = Or(p, Eq(e.Int(0), CI(1<<i)))
			}
			e.Return(p)
		}})
}

// keccakBits: Keccak-256 of one block of message bits (least significant bit
// of each byte first), digest bits in the same order
func keccakBits(msg []*T) []*T {
	var bs []*T
	for _, m := range msg {
		bs = append(bs, Eq(m, One))
	}
	bs = append(bs, True)
	for len(bs) < 1087 {
		bs = append(bs, False)
	}
	bs = append(bs, True)
	st := sponge(bs, 1)[0]
	out := make([]*T, 256)
	for i := range out {
		out[i] = B2I(st[i])
	}
	return out
}

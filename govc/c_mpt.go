package main

// Contracts of the Merkle-Patricia-trie gadgets (C10). List decoding is taken
// from the contracts of the RLP list gadgets (C08): at these call sites it is
// an opaque function of the nibbles, the configuration and the item count.

import (
	"fmt"
	"math/big"
	"math/rand"
)

const pMpt = "circuits/gadgets/mpt"

var (
	rlpCfgs  []rlpCfg
	rlpCfgIx = map[string]int{}
)

func cfgIndex(c rlpCfg) int {
	k := fmt.Sprint(c)
	i, ok := rlpCfgIx[k]
	if !ok {
		i = len(rlpCfgs)
		rlpCfgIx[k] = i
		rlpCfgs = append(rlpCfgs, c)
	}
	return i
}

const (
	rlOK = iota
	rlOut
	rlTotal
	rlLen
	rlField
)

// opaqueList: what a list gadget returns, as opaque functions of its input
func opaqueList(e *Env, c rlpCfg, in []*T, num *T, mode int) (out, total *T, lens []*T, fields [][]*T) {
	ix := CI(int64(cfgIndex(c)))
	var as []*T
	for _, t := range in[:c.L] {
		as = append(as, Mod(t, fieldP))
	}
	pn := fmt.Sprintf("nibpack%d", len(as))
	appEval[pn] = packEval
	pk := App(pn, as...)
	if num == nil {
		num = CI(int64(c.F))
	}
	get := func(kind, i, j int, hi *big.Int) *T {
		t := App("rlplist", ix, CI(int64(mode)), CI(int64(kind)), CI(int64(i)), CI(int64(j)), pk, num)
		if t.lo == nil {
			t.lo, t.hi = b0, hi
		}
		return t
	}
	digitsMax := func(d int) *big.Int {
		m := new(big.Int).Sub(pow2(4*d+1), b2)
		if m.Cmp(big.NewInt(110)) < 0 {
			m = big.NewInt(110)
		}
		return m
	}
	e.Constrain("the list decodes within its windows", Eq(get(rlOK, 0, 0, b1), One))
	out = get(rlOut, 0, 0, b1)
	total = get(rlTotal, 0, 0, new(big.Int).Add(digitsMax(c.A), big.NewInt(20)))
	for i := 0; i < c.F; i++ {
		d := lenDigits(c.max[i])
		lens = append(lens, get(rlLen, i, 0, new(big.Int).Add(digitsMax(d), big.NewInt(20))))
		var f []*T
		for j := 0; j < c.L; j++ {
			f = append(f, get(rlField, i, j, big.NewInt(15)))
		}
		fields = append(fields, f)
	}
	return
}

type listVal struct {
	ok, out, total int64
	lens           []int64
	fields         [][]int64
}

var listMemo = map[string]*listVal{}

// decodeListNative: the same decoding on numbers
func decodeListNative(c rlpCfg, in []int64, num int64, mode int) *listVal {
	v := &listVal{ok: 1}
	hw := c.A
	if mode == 0 {
		hw = 10
	}
	rot := func(xs []int64, s int64) []int64 {
		n := int64(len(xs))
		o := make([]int64, n)
		for j := range o {
			o[j] = xs[((int64(j)+s)%n+n)%n]
		}
		return o
	}
	digits := func(w []int64, max int, n int64) int64 {
		if n > int64(max) {
			n = int64(max)
		}
		x := int64(0)
		for i := int64(0); i < n; i++ {
			x = x<<4 + w[2+i]
		}
		return x
	}
	need := func(b bool) {
		if !b {
			v.ok = 0
		}
	}
	pre := func(h, l int64) (bg bool, n int64) {
		if (h == 11 || h == 15) && l >= 8 {
			return true, 2 + 2*(l%8)
		}
		return false, 2 * (16*(h%4) + l)
	}
	valid := in[0] >= 12
	var bg bool
	var n int64
	if valid {
		bg, n = pre(in[0], in[1])
		if in[0] != 15 {
			bg, n = false, 2*(16*(in[0]%4)+in[1])
		}
	}
	need(!bg || n <= int64(c.A))
	payload, shift := n, int64(2)
	if bg {
		payload, shift = 2*digits(in, c.A, n), 2+n
	}
	v.total = shift + payload
	need(shift < 1<<uint(bitLen(hw)))
	win := rot(in[:c.L], shift)
	sum := int64(0)
	for i := 0; i < c.F; i++ {
		if i > 0 {
			lo, hi := int64(c.min[i-1]), int64(c.max[i-1])
			off := int64(0)
			if lo != hi {
				off = v.lens[i-1] - lo
				need(off >= 0 && off < 1<<uint(bitLen(int(hi-lo))))
			}
			win = rot(v.fields[i-1], lo+off)
		}
		on := mode != 0 || int64(i) < num
		h, l := win[0], win[1]
		lit := h < 8
		var fb bool
		var fn int64
		if !lit {
			fb, fn = pre(h, l)
		}
		d := lenDigits(c.max[i])
		head := int64(0)
		if !lit && on {
			head = 2
			if fb {
				head += fn
			}
		}
		need(!(fb && on) || fn <= int64(d))
		drop := head
		arr := h >= 12
		if mode == 1 && arr {
			drop = 0
		}
		need(drop < 1<<uint(bitLen(d)))
		v.fields = append(v.fields, rot(win, drop))
		cont := fn
		if lit {
			cont = 2
		} else if fb {
			cont = 2 * digits(win, d, fn)
		}
		switch mode {
		case 0:
			if !on {
				cont = 0
			}
		case 1:
			if h == 0 && l == 0 {
				cont = 0
			}
		case 2:
			if int64(i) >= num {
				cont = 0
			}
		}
		sum += head + cont
		if mode == 1 && arr {
			cont += head
		}
		v.lens = append(v.lens, cont)
	}
	if valid && payload == sum && (mode != 0 || num <= int64(c.F)) {
		v.out = 1
	}
	return v
}

func packEval(as []*big.Int) *big.Int {
	r := new(big.Int)
	for i := len(as) - 1; i >= 0; i-- {
		r.Lsh(r, 8)
		if as[i].Sign() >= 0 && as[i].BitLen() <= 4 {
			r.Or(r, as[i])
		}
	}
	return r
}

func init() {
	appEval["rlplist"] = func(as []*big.Int) *big.Int {
		c := rlpCfgs[as[0].Int64()]
		key := fmt.Sprint(as[0], as[1], as[5], as[6])
		v := listMemo[key]
		if v == nil {
			in := make([]int64, c.L)
			x := new(big.Int).Set(as[5])
			for i := range in {
				in[i] = int64(new(big.Int).And(x, big.NewInt(255)).Int64())
				x.Rsh(x, 8)
			}
			num := int64(c.F) + 1
			if as[6].IsInt64() {
				num = as[6].Int64()
			}
			v = decodeListNative(c, in, num, int(as[1].Int64()))
			if len(listMemo) > 64 {
				listMemo = map[string]*listVal{}
			}
			listMemo[key] = v
		}
		i, j := as[3].Int64(), as[4].Int64()
		switch as[2].Int64() {
		case rlOK:
			return big.NewInt(v.ok)
		case rlOut:
			return big.NewInt(v.out)
		case rlTotal:
			return big.NewInt(v.total)
		case rlLen:
			return big.NewInt(v.lens[i])
		}
		return big.NewInt(v.fields[i][j])
	}
}

// ---- nodes ----

func twoItem(path, val, L, A int) rlpCfg {
	return rlpCfg{L, 2, A, []int{0, 0}, []int{path + 2, val}}
}

func branchCfg() rlpCfg {
	c := rlpCfg{L: 1064, F: 17, A: 8, min: make([]int, 17), max: make([]int, 17)}
	for i := 0; i < 16; i++ {
		c.max[i] = 64
	}
	return c
}

// samePrefix: the first n elements agree (n at most max)
func samePrefix(e *Env, what string, x, y []*T, n *T, max int) *T {
	n = Mod(n, fieldP)
	e.Constrain("length of the "+what+" is at most its maximum", Le(n, CI(int64(max))))
	var cs []*T
	for i := 0; i < max; i++ {
		cs = append(cs, Or(Le(n, CI(int64(i))), Eq(x[i], y[i])))
	}
	return And(cs...)
}

// zeroRlp: the value 0x80 followed by 64 zero nibbles
func zeroRlp(v []*T) *T {
	cs := []*T{Eq(v[0], CI(8)), Eq(v[1], Zero)}
	for i := 0; i < 64; i++ {
		cs = append(cs, Eq(v[2+i], Zero))
	}
	return And(cs...)
}

// hpPrefix: the flag nibbles announce a path of the kind (0 extension, 2 leaf)
// whose flags take pl nibbles
func hpPrefix(f []*T, pl *T, kind int64) *T {
	return Or(And(Eq(pl, One), Eq(f[0], CI(kind+1))), And(Eq(pl, CI(2)), Eq(f[0], CI(kind)), Eq(f[1], Zero)))
}

type leafRes struct {
	valid, flags, path, value, absent, zero *T
	total, vlen                             *T
}

// leafNode: is node the leaf holding values at the end of the path key[:n]?
func leafNode(e *Env, c rlpCfg, n *T, key, values, node []*T, pl *T) (r leafRes) {
	out, total, lens, fs := decodeList(e, c, node, nil, 0)
	r.valid, r.total, r.vlen = Eq(out, One), total, lens[1]
	r.zero = zeroRlp(values)
	r.flags = hpPrefix(fs[0], pl, 2)
	e.Constrain("the flags take at most three nibbles", Lt(pl, CI(4)))
	path := rotl(fs[0][:c.L], 0, pl, 2)
	rest := Mod(Sub(lens[0], pl), fieldP)
	same := samePrefix(e, "path", key, path, rest, c.max[0]-2)
	r.path = And(same, Eq(n, rest))
	r.absent = And(r.zero, Not(same))
	r.value = samePrefix(e, "value", values, fs[1], lens[1], c.max[1])
	return
}

func (r leafRes) score() *T {
	return Add(B2I(r.valid), B2I(r.flags), Ite(r.absent, CI(2), Add(B2I(r.path), B2I(r.value))))
}

// extNode: is node the extension with path key[:n] to the child ref?
func extNode(e *Env, c rlpCfg, n *T, key []*T, rl *T, ref, node []*T, pl *T) (valid, flags, path, child, total *T) {
	out, total, lens, fs := decodeList(e, c, node, nil, 0)
	e.Constrain("the flags take at most three nibbles", Lt(pl, CI(4)))
	rest := Mod(Sub(lens[0], pl), fieldP)
	valid, flags = Eq(out, One), hpPrefix(fs[0], pl, 0)
	path = And(samePrefix(e, "path", key, rotl(fs[0][:c.L], 0, pl, 2), rest, c.max[0]-2), Eq(n, rest))
	child = And(samePrefix(e, "child", ref, fs[1], lens[1], c.max[1]), Eq(rl, lens[1]))
	return
}

// extAbsent: node is an extension whose path leaves the key
func extAbsent(e *Env, c rlpCfg, key, node []*T, pl *T) *T {
	out, _, lens, fs := decodeList(e, c, node, nil, 0)
	e.Constrain("the flags take at most three nibbles", Lt(pl, CI(4)))
	rest := Mod(Sub(lens[0], pl), fieldP)
	same := samePrefix(e, "path", key, rotl(fs[0][:c.L], 0, pl, 2), rest, c.max[0]-2)
	return And(Eq(out, One), hpPrefix(fs[0], pl, 0), Not(same))
}

func branchNode(e *Env, nib, rl *T, ref, node []*T) (valid, child, ln, total *T) {
	out, total, lens, fs := decodeList(e, branchCfg(), node, nil, 0)
	e.Constrain("the nibble addresses one of the 16 children", Lt(nib, CI(16)))
	slot := make([]*T, 64)
	for j := range slot {
		var xs []*T
		for i := 0; i < 16; i++ {
			xs = append(xs, fs[i][j])
		}
		slot[j] = selIte(nib, xs)
	}
	valid = Eq(out, One)
	child = samePrefix(e, "child", ref, slot, rl, 64)
	ln = Eq(rl, selIte(nib, lens[:16]))
	return
}

func branchAbsent(e *Env, nib *T, node []*T) *T {
	out, _, lens, _ := decodeList(e, branchCfg(), node, nil, 0)
	e.Constrain("the nibble addresses one of the 17 items", Lt(nib, CI(17)))
	return And(Eq(out, One), Eq(selIte(nib, lens), Zero))
}

func init() {
	leafV := func(b *B, key, val int) Val {
		L := 4 + key + 2 + 4 + val
		return b.PtrTo(&StructV{f: []Val{CI(int64(key)), CI(int64(val)), CI(int64(L)), CI(int64(lenDigits(L)))}})
	}
	extV := func(b *B, key, ref int) Val {
		L := 4 + key + 2 + 2 + ref
		return b.PtrTo(&StructV{f: []Val{CI(int64(key)), CI(int64(ref)), CI(int64(L)), CI(int64(lenDigits(L)))}})
	}
	cfg2 := func(e *Env) rlpCfg {
		n := func(i int) int { return int(asInt(e.Field(0, i)).Int64()) }
		return twoItem(n(0), n(1), n(2), n(3))
	}
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "NewMPTLeafCheck", Cases: mptSizes([][2]int{{64, 66}, {64, 228}, {6, 70}, {6, 4300}}), Spec: func(e *Env) {
		k, v := e.N(0), e.N(1)
		L := 4 + k + 2 + 4 + v
		e.Return(&StructV{f: []Val{CI(int64(k)), CI(int64(v)), CI(int64(L)), CI(int64(lenDigits(L)))}})
	}})
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "NewMPTExtensionCheck", Cases: mptSizes([][2]int{{64, 64}, {7, 64}, {300, 64}}), Spec: func(e *Env) {
		k, v := e.N(0), e.N(1)
		L := 4 + k + 2 + 2 + v
		e.Return(&StructV{f: []Val{CI(int64(k)), CI(int64(v)), CI(int64(L)), CI(int64(lenDigits(L)))}})
	}})
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "NewMPTBranchCheck", Cases: []*Case{nCase("64", func(b *B) []Val { return []Val{b.I(64)} })}, Spec: func(e *Env) {
		e.Return(&StructV{f: []Val{CI(64), CI(1064), CI(8)}})
	}})

	var lc, ec, xc []*Case
	for _, s := range [][2]int{{64, 66}, {64, 228}, {6, 70}} {
		s := s
		lc = append(lc, &Case{Name: fmt.Sprintf("key%d_value%d", s[0], s[1]), Samples: 30, Sample: leafSample(s[0], s[1]), Build: func(b *B) []Val {
			return []Val{leafV(b, s[0], s[1]), b.API(), b.Fe("n"), b.Fes("key", s[0]), b.Fes("values", s[1]), b.FesB("node", 4+s[0]+2+4+s[1], 15), b.Fe("pl")}
		}})
	}
	for _, s := range [][2]int{{64, 64}, {7, 64}} {
		s := s
		ec = append(ec, &Case{Name: fmt.Sprintf("key%d", s[0]), Samples: 30, Sample: extSample(s[0]), Build: func(b *B) []Val {
			return []Val{extV(b, s[0], s[1]), b.API(), b.Fe("n"), b.Fes("key", s[0]), b.Fe("rl"), b.Fes("ref", 64), b.FesB("node", 4+s[0]+2+2+s[1], 15), b.Fe("pl")}
		}})
		xc = append(xc, &Case{Name: fmt.Sprintf("key%d", s[0]), Samples: 30, Sample: extSample(s[0]), Build: func(b *B) []Val {
			return []Val{extV(b, s[0], s[1]), b.API(), b.Fes("key", s[0]), b.Fe("n"), b.FesB("node", 4+s[0]+2+2+s[1], 15), b.Fe("pl")}
		}})
	}
	brV := func(b *B) Val { return b.PtrTo(&StructV{f: []Val{CI(64), CI(1064), CI(8)}}) }
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "(*MPTLeafCheck).CheckLeaf", Summary: true, Cases: lc, Spec: func(e *Env) {
		e.Call = true
		r := leafNode(e, cfg2(e), e.Int(2), e.Ints(3), e.Ints(4), e.Ints(5), e.Int(6))
		e.Return(&StructV{f: []Val{&StructV{f: []Val{feVal(r.score()), feVal(r.total)}}, feVal(r.vlen), b2i(r.zero)}})
	}})
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "(*MPTExtensionCheck).CheckExtension", Summary: true, Cases: ec, Spec: func(e *Env) {
		e.Call = true
		v, f, p, c, t := extNode(e, cfg2(e), e.Int(2), e.Ints(3), e.Int(4), e.Ints(5), e.Ints(6), e.Int(7))
		e.Return(&StructV{f: []Val{feVal(Add(B2I(v), B2I(f), B2I(p), B2I(c))), feVal(t)}})
	}})
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "(*MPTExtensionCheck).checkExtensionNodeNonExistence", Optional: true, Summary: true, Cases: xc, Spec: func(e *Env) {
		e.Call = true
		e.Return(b2i(extAbsent(e, cfg2(e), e.Ints(2), e.Ints(4), e.Int(5))))
	}})
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "(*MPTBranchCheck).CheckBranch", Summary: true, Cases: []*Case{{Name: "any", Samples: 20, Sample: branchSample(), Build: func(b *B) []Val {
		return []Val{brV(b), b.API(), b.Fe("nib"), b.Fe("rl"), b.Fes("ref", 64), b.FesB("node", 1064, 15)}
	}}}, Spec: func(e *Env) {
		e.Call = true
		v, c, l, t := branchNode(e, e.Int(2), e.Int(3), e.Ints(4), e.Ints(5))
		e.Return(&StructV{f: []Val{feVal(Add(B2I(v), B2I(c), B2I(l), One)), feVal(t)}})
	}})
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "(*MPTBranchCheck).CheckBranchForNonExistence", Summary: true, Cases: []*Case{{Name: "any", Samples: 20, Sample: branchSample(), Build: func(b *B) []Val {
		return []Val{brV(b), b.API(), b.Fe("nib"), b.FesB("node", 1064, 15)}
	}}}, Spec: func(e *Env) {
		e.Call = true
		e.Return(b2i(branchAbsent(e, e.Int(2), e.Ints(3))))
	}})
}

func mptSizes(ss [][2]int) (cs []*Case) {
	for _, s := range ss {
		s := s
		cs = append(cs, nCase(fmt.Sprintf("%d_%d", s[0], s[1]), func(b *B) []Val { return []Val{b.I(s[0]), b.I(s[1])} }))
	}
	return
}

// ---- proofs ----

func pathSlice(e *Env, key []*T, from, to *T, n int) []*T {
	r := e.callSpec(contractOf("C07 C10", pRlp, "(*SubArray).SubArray"), e.Ptr(&StructV{f: []Val{CI(int64(n)), CI(int64(n)), CI(int64(bitLen(n)))}}), e.Args[0], e.FeSlice(key), feVal(from), feVal(to))
	return intsOf(e.st, r[0])
}

// nodeHash: the Keccak digest of a padded node, as nibbles, and the length of
// the reference to it
func nodeHash(e *Env, n *T, node []*T, round *T) ([]*T, *T) {
	b := e.callSpec(contractOf("C02", pKeccak, "NibblesToU64Array"), e.Args[0], e.FeSlice(node))
	h := e.callSpec(contractOf("C07", pRlp, "Keccak256AsNibbles"), e.Args[0], feVal(n), b[0], feVal(round))
	s := e.st.load(h[0].(Ptr)).(*StructV)
	return intsOf(e.st, s.f[0]), asInt(s.f[1])
}

type mptArgs struct {
	D, key             int
	keyLen             *T // nibbles of the key
	k, starts, root    []*T
	nodes              [][]*T
	rounds, npl, types []*T
	depth              *T
}

// mptChain: the inclusion statement shared by both proof gadgets. leaf is the
// reference expected of the node above the last one, lastOK what the last node proves.
func mptChain(e *Env, a mptArgs, leaf []*T, leafLn, lastOK *T) *T {
	D := a.D
	e.Constrain("the depth lies between 1 and the maximum", And(Le(One, a.depth), Le(a.depth, CI(int64(D)))))
	isExt := make([]*T, D-1)
	ok := make([]*T, D-1)
	hash := make([][]*T, D)
	hlen := make([]*T, D)
	for l := D - 2; l >= 0; l-- {
		e.Constrain(fmt.Sprintf("the type of node %d is a bit", l), Le(a.types[l], One))
		isExt[l] = Eq(a.types[l], One)
		lastIsNext := Eq(a.depth, CI(int64(l+2)))
		var ref []*T
		for j := 0; j < 64; j++ {
			below := Zero
			if l < D-2 {
				below = hash[l+1][j]
			}
			ref = append(ref, Ite(lastIsNext, leaf[j], below))
		}
		below := Zero
		if l < D-2 {
			below = hlen[l+1]
		}
		refLn := Ite(lastIsNext, leafLn, below)
		c := twoItem(a.key, 64, 4+a.key+2+2+64, lenDigits(4+a.key+2+2+64))
		var en, bn []*T
		for i, t := range a.nodes[l] {
			if i < c.L {
				en = append(en, Ite(isExt[l], t, Zero))
			}
			if i < 1064 {
				bn = append(bn, Ite(isExt[l], Zero, t))
			}
		}
		sel := pathSlice(e, a.k, a.starts[l], a.starts[l+1], a.key)
		ev, ef, ep, ec, et := extNode(e, c, Mod(Sub(a.starts[l+1], a.starts[l]), fieldP), sel, refLn, ref, en, a.npl[l])
		at := Ite(Lt(CI(int64(l)), a.depth), a.starts[l], Zero)
		e.Constrain(fmt.Sprintf("the key has a nibble for node %d", l), Lt(at, CI(int64(a.key))))
		bv, bc, bl, bt := branchNode(e, selIte(at, a.k[:a.key]), refLn, ref, bn)
		hash[l], hlen[l] = nodeHash(e, Ite(isExt[l], et, bt), a.nodes[l], a.rounds[l])
		ok[l] = Ite(isExt[l], And(ev, ef, ep, ec), And(bv, bc, bl))
	}
	out := False
	for d := 1; d <= D; d++ {
		cs := []*T{Eq(a.depth, CI(int64(d))), lastOK, Eq(a.starts[0], Zero)}
		for l := 0; l < d && l < D-1; l++ {
			cs = append(cs, Or(isExt[l], Eq(Mod(AddC(a.starts[l], 1), fieldP), a.starts[l+1])), Lt(a.starts[l], a.starts[l+1]))
		}
		for l := 0; l < d; l++ {
			cs = append(cs, Lt(a.starts[l], a.keyLen))
		}
		for l := 0; l < d-1; l++ {
			cs = append(cs, ok[l])
		}
		top := hash[0]
		if d == 1 {
			top = leaf
		}
		for j := 0; j < 64; j++ {
			cs = append(cs, Eq(a.root[j], top[j]))
		}
		out = Or(out, And(cs...))
	}
	return out
}

func init() {
	type d struct {
		D, val, last int
		sto          bool
	}
	var cs []*Case
	for _, s := range []d{{2, 66, 1088, true}, {2, 228, 544, false}, {3, 66, 1088, true}, {3, 228, 544, false}} {
		s := s
		cs = append(cs, &Case{Name: fmt.Sprintf("depth%d_value%d", s.D, s.val), Samples: 24, Sample: proofSample(s.D, 64, s.val, s.last, s.sto), Build: func(b *B) []Val {
			var nodes []Val
			for i := 0; i < s.D-1; i++ {
				nodes = append(nodes, b.FesB(fmt.Sprintf("node%d", i), 1088, 15))
			}
			return []Val{b.API(), b.I(s.D), b.I(64), b.I(s.val), b.Fes("key", 64), b.Fes("value", s.val), b.FeArr("root", 64, nil), b.Fes("starts", s.D),
				b.FesB("last", s.last, 15), b.Fe("lastRound"), b.Fe("pl"), b.Slice(nodes...), b.Fes("rounds", s.D-1), b.Fes("npl", s.D-1), b.Fes("types", s.D-1), b.Fe("depth"), Bool(s.sto)}
		}})
	}
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "CheckMPTInclusionFixedKeyLength", Summary: true, Cases: cs, Spec: func(e *Env) {
		e.Call = true
		a := mptArgs{D: e.N(1), key: e.N(2), k: e.Ints(4), root: e.Ints(6), starts: e.Ints(7), rounds: e.Ints(12), npl: e.Ints(13), types: e.Ints(14), depth: e.Int(15)}
		a.keyLen = CI(int64(a.key))
		for _, v := range e.Elems(11) {
			a.nodes = append(a.nodes, intsOf(e.st, v))
		}
		val, last, pl, sto := e.N(3), e.Ints(8), e.Int(10), e.Args[16].(*T) == True
		at := selIte(Sub(a.depth, One), a.starts)
		rest := pathSlice(e, a.k, at, a.keyLen, a.key)
		n := Mod(Sub(a.keyLen, at), fieldP)
		L := 4 + a.key + 2 + 4 + val
		leaf := leafNode(e, twoItem(a.key, val, L, lenDigits(L)), n, rest, e.Ints(5), last, pl)
		ok := And(leaf.valid, leaf.flags, Or(leaf.absent, And(leaf.path, leaf.value)))
		if sto {
			e.Constrain("the key has a nibble for the last node", Lt(at, a.keyLen))
			ba := branchAbsent(e, selIte(at, a.k), last[:1064])
			L := 4 + a.key + 2 + 2 + 64
			xa := extAbsent(e, twoItem(a.key, 64, L, lenDigits(L)), rest, last, pl)
			ok = Or(ok, And(leaf.zero, Or(ba, xa)))
		}
		lh, ln := nodeHash(e, CI(int64(len(last))), last, e.Int(9))
		e.Return(&StructV{f: []Val{b2i(mptChain(e, a, lh, ln, ok)), feVal(leaf.vlen)}})
	}})
}

func init() {
	var cs []*Case
	for _, D := range []int{2, 3} {
		D := D
		cs = append(cs, &Case{Name: fmt.Sprintf("depth%d", D), Samples: 24, Sample: proofSample(D, 7, 0, 0, false), Build: func(b *B) []Val {
			var nodes []Val
			for i := 0; i < D-1; i++ {
				nodes = append(nodes, b.FesB(fmt.Sprintf("node%d", i), 1088, 15))
			}
			return []Val{b.API(), b.I(D), b.I(7), b.Fes("key", 7), b.Fe("keyLen"), b.FeArr("root", 64, nil), b.Fes("starts", D), b.FeArr("leaf", 2, nil),
				b.Slice(nodes...), b.Fes("rounds", D-1), b.Fes("npl", D-1), b.Fes("types", D-1), b.Fe("depth")}
		}})
	}
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "CheckMPTInclusionNoBranchTermination", Cases: cs, Spec: func(e *Env) {
		e.Call = true
		a := mptArgs{D: e.N(1), key: e.N(2), k: e.Ints(3), keyLen: e.Int(4), root: e.Ints(5), starts: e.Ints(6), rounds: e.Ints(9), npl: e.Ints(10), types: e.Ints(11), depth: e.Int(12)}
		for _, v := range e.Elems(8) {
			a.nodes = append(a.nodes, intsOf(e.st, v))
		}
		var leaf []*T
		for i, t := range e.Ints(7) {
			e.Constrain(fmt.Sprintf("half %d of the leaf hash fits in 128 bits", i), Lt(t, CB(pow2(128))))
			leaf = append(leaf, digitsBE(t, 4, 32)...)
		}
		e.Return(&StructV{f: []Val{b2i(mptChain(e, a, leaf, CI(64), True)), feVal(Zero)}})
	}})
}

// ---- eth_proof.go ----

func init() {
	incl := contractOf("C10", pMpt, "CheckMPTInclusionFixedKeyLength")
	nodesOf := func(b *B, pre string, D int) Val {
		var nodes []Val
		for i := 0; i < D-1; i++ {
			nodes = append(nodes, b.FesB(fmt.Sprintf("%snode%d", pre, i), 1088, 15))
		}
		return b.Slice(nodes...)
	}
	// proof arguments from keyFragmentStarts on, with the claimed value in between
	tail := func(b *B, pre string, D int, val Val, last int) []Val {
		return []Val{b.Fes(pre+"starts", D), val, b.FesB(pre+"last", last, 15), b.Fe(pre + "lastRound"), b.Fe(pre + "pl"), nodesOf(b, pre, D),
			b.Fes(pre+"rounds", D-1), b.Fes(pre+"npl", D-1), b.Fes(pre+"types", D-1), b.Fe(pre + "depth")}
	}
	slice := func(e *Env, ts []*T) Val { return e.FeSlice(ts) }
	inclusion := func(e *Env, D, val int, key, value, root []*T, starts, last, round, pl, nodes, rounds, npl, types, depth Val, sto bool) (out, vlen *T) {
		r := e.callSpec(incl, e.Args[0], CI(int64(D)), CI(64), CI(int64(val)), slice(e, key), slice(e, value), FeArr(root), starts, last, round, pl, nodes, rounds, npl, types, depth, Bool(sto))
		s := r[0].(*StructV)
		return asInt(s.f[0]), asInt(s.f[1])
	}
	var ac, sc []*Case
	for _, D := range []int{2, 3} {
		D := D
		ac = append(ac, &Case{Name: fmt.Sprintf("depth%d", D), Samples: 24, Sample: proofSample(D, 64, 228, 544, false), Build: func(b *B) []Val {
			return append([]Val{b.API(), b.I(D), b.FeArr("root", 64, nil), b.FeArr("key", 64, nil)}, tail(b, "", D, b.FeArr("value", 228, big.NewInt(15)), 544)...)
		}})
		sc = append(sc, &Case{Name: fmt.Sprintf("depth%d", D), Samples: 24, Sample: proofSample(D, 64, 66, 1088, true), Build: func(b *B) []Val {
			v := b.FeArr("value", 66, big.NewInt(15))
			args := tail(b, "", D, v, 1088)
			args[0], args[1] = args[1], args[0]
			return append([]Val{b.API(), b.I(D), b.FeArr("root", 64, nil), b.FeArr("key", 64, nil)}, args...)
		}})
	}
	// the account body: a list of nonce, balance, storage root and code hash
	account := rlpCfg{228, 4, 4, []int{0, 0, 64, 64}, []int{64, 24, 64, 64}}
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "CheckEthAccountProof", Summary: true, Cases: ac, Spec: func(e *Env) {
		e.Call = true
		value := e.Ints(5)
		ok, _, lens, fs := decodeList(e, account, value, CI(4), 0)
		in, _ := inclusion(e, e.N(1), 228, e.Ints(3), value, e.Ints(2), e.Args[4], e.Args[6], e.Args[7], e.Args[8], e.Args[9], e.Args[10], e.Args[11], e.Args[12], e.Args[13], false)
		e.Return(&StructV{f: []Val{feVal(Mul(ok, in)), feVal(lens[0]), FeArr(fs[0][:64]), feVal(lens[1]), FeArr(fs[1][:24]), FeArr(fs[2][:64]), FeArr(fs[3][:64])}})
	}})
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "CheckEthStorageProof", Summary: true, Cases: sc, Spec: func(e *Env) {
		e.Call = true
		value := e.Ints(4)
		h, l := value[0], value[1]
		_, lit, n, _, _, _, _ := fldPrefix(h, l)
		// the value is the RLP encoding of an integer of at most 32 bytes; zero (0x80,
		// an absent slot) is padded with zeros
		e.Require(Or(Lt(h, CI(10)), And(Eq(h, CI(10)), Eq(l, Zero))))
		e.Require(Or(Not(And(Eq(h, CI(8)), Eq(l, Zero))), And(Eq(value[2], Zero), Eq(value[3], Zero))))
		in, vlen := inclusion(e, e.N(1), 66, e.Ints(3), value, e.Ints(2), e.Args[5], e.Args[6], e.Args[7], e.Args[8], e.Args[9], e.Args[10], e.Args[11], e.Args[12], e.Args[13], true)
		var vs []*T
		for i := 0; i <= 64; i++ {
			vs = append(vs, hexVal(value[2:2+i]))
		}
		v := Ite(lit, Add(MulC(h, big16), l), selIte(n, vs))
		e.Return(&StructV{f: []Val{feVal(in), FeArr([]*T{Ext(v, 0, 248), Ext(v, 248, 8)}), feVal(Mod(AddC(vlen, -2), fieldP))}})
	}})

	header := rlpCfg{2176, 17, 4, []int{64, 64, 40, 64, 64, 64, 512, 0, 0, 0, 0, 0, 0, 64, 16, 0, 64}, []int{64, 64, 40, 64, 64, 64, 512, 14, 16, 8, 8, 8, 2000, 64, 18, 16, 64}}
	putHeader := func(r *rand.Rand, m map[string]*big.Int, root []byte) []byte {
		h, n := headerOf(r, root)
		p, rd := padNode(h, 2176)
		mput(m, "block", p)
		m["num"], m["round"] = big.NewInt(int64(n)), big.NewInt(int64(rd))
		return keccakBytes(h)
	}
	blockArgs := func(b *B) []Val {
		return []Val{b.FeArr("block", 2176, big.NewInt(15)), b.Fe("num"), b.Fe("round")}
	}
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "CheckEthBlockHash", Summary: true, Cases: []*Case{{Name: "any", Samples: 12, Sample: mptSample(func(r *rand.Rand, m map[string]*big.Int) {
		putHeader(r, m, rndBytes(r, 32))
	}), Build: func(b *B) []Val {
		return append([]Val{b.API()}, blockArgs(b)...)
	}}}, Spec: func(e *Env) {
		e.Call = true
		in := e.Ints(1)
		ok, total, lens, fs := decodeList(e, header, in, e.Int(2), 2)
		h, _ := nodeHash(e, total, in, e.Int(3))
		e.Return(&StructV{f: []Val{feVal(ok), FeArr(h), feVal(lens[8]), FeArr(fs[8][:8]), FeArr(fs[11][:8]), FeArr(fs[3][:64]), FeArr(fs[4][:64]), FeArr(fs[5][:64])}})
	}})
	blk, acct, stor := contractOf("C10", pMpt, "CheckEthBlockHash"), contractOf("C10", pMpt, "CheckEthAccountProof"), contractOf("C10", pMpt, "CheckEthStorageProof")
	reg(&Contract{Prop: "C10", Pkg: pMpt, Fn: "CheckEthAddressStorageProof", Cases: []*Case{{Name: "depth2_2", Samples: 6, Sample: mptSample(func(r *rand.Rand, m map[string]*big.Int) {
		var sroot, aroot []byte
		v := rlpString(rndBytes(r, 1+r.Intn(32)))
		under(m, "s", func(m map[string]*big.Int) { sroot = proofBody(r, m, 2, 64, 66, 1088, true, v) })
		under(m, "a", func(m map[string]*big.Int) {
			aroot = proofBody(r, m, 2, 64, 228, 544, false, rlpListOf([]byte{1}, nil, sroot, rndBytes(r, 32)))
		})
		mput(m, "hash", hexOf(putHeader(r, m, aroot)))
	}), Build: func(b *B) []Val {
		args := []Val{b.API(), b.I(2), b.I(2), b.FeArr("hash", 64, nil), b.Fe("num"), b.Fe("round"), b.FeArr("akey", 64, nil), b.FeArr("skey", 64, nil), b.FeArr("block", 2176, big.NewInt(15))}
		a := tail(b, "a", 2, b.FeArr("avalue", 228, big.NewInt(15)), 544)
		a[6] = b.FeArr("arounds", 9, nil)
		return append(append(args, a...), tail(b, "s", 2, b.FeArr("svalue", 66, big.NewInt(15)), 1088)...)
	}}}, Spec: func(e *Env) {
		e.Call = true
		st := func(v []Val) []Val { return v[0].(*StructV).f }
		b := st(e.callSpec(blk, e.Args[0], e.Args[8], e.Args[4], e.Args[5]))
		aargs := append([]Val{e.Args[0], e.Args[1], b[5], e.Args[6]}, e.Args[9:19]...)
		aargs[10] = e.FeSlice(intsOf(e.st, aargs[10]))
		ac := st(e.callSpec(acct, aargs...))
		sargs := append([]Val{e.Args[0], e.Args[2], ac[5], e.Args[7]}, e.Args[19:29]...)
		sargs[4], sargs[5] = sargs[5], sargs[4]
		so := st(e.callSpec(stor, sargs...))
		same := True
		for i, t := range e.Ints(3) {
			same = And(same, Eq(t, intsOf(e.st, b[1])[i]))
		}
		ln, num := asInt(b[2]), intsOf(e.st, b[3])
		e.Constrain("the block number has at least one digit and at most the window", Lt(Mod(Sub(CI(8), ln), fieldP), CI(8)))
		n := Zero
		for k := int64(1); k <= 8; k++ {
			n = Ite(Eq(ln, CI(k)), hexVal(num[:k]), n)
		}
		e.Return(&StructV{f: []Val{b2i(Eq(Add(Add(B2I(same), asInt(ac[0])), asInt(so[0])), CI(3))), feVal(n), so[1]}})
	}})
}

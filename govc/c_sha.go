package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"
	"strings"
)

// C04: the SHA-256 and SHA-512 gadgets compute FIPS 180-4.

type shaAlg struct {
	pkg, name string
	w         int // word bits
	chunk     int // block bytes
	rounds    int
	k, iv     []uint64
	s0, s1    [3]int // schedule: rotations, last is a shift
	e0, e1    [3]int // Sigma of a and of e
}

// the constants are derived, not copied: fractional parts of the square and cube
// roots of the first primes
func primes(n int) (ps []int64) {
	for c := int64(2); len(ps) < n; c++ {
		ok := true
		for _, p := range ps {
			if c%p == 0 {
				ok = false
				break
			}
		}
		if ok {
			ps = append(ps, c)
		}
	}
	return
}

func fracRoot(p int64, k, w int) uint64 {
	// floor(root_k(p) * 2^w) mod 2^w
	x := new(big.Int).Lsh(big.NewInt(p), uint(k*w))
	lo, hi := new(big.Int), pow2(w+10)
	for new(big.Int).Sub(hi, lo).Cmp(b1) > 0 {
		m := new(big.Int).Rsh(new(big.Int).Add(lo, hi), 1)
		if new(big.Int).Exp(m, big.NewInt(int64(k)), nil).Cmp(x) <= 0 {
			lo = m
		} else {
			hi = m
		}
	}
	return new(big.Int).Mod(lo, pow2(w)).Uint64()
}

func (a *shaAlg) constants() {
	for _, p := range primes(a.rounds) {
		a.k = append(a.k, fracRoot(p, 3, a.w))
	}
	for _, p := range primes(8) {
		a.iv = append(a.iv, fracRoot(p, 2, a.w))
	}
}

var sha256A = &shaAlg{pkg: "circuits/gadgets/sha256", name: "sha256", w: 32, chunk: 64, rounds: 64,
	s0: [3]int{7, 18, 3}, s1: [3]int{17, 19, 10}, e0: [3]int{2, 13, 22}, e1: [3]int{6, 11, 25}}
var sha512A = &shaAlg{pkg: "circuits/gadgets/sha512", name: "sha512", w: 64, chunk: 128, rounds: 80,
	s0: [3]int{1, 8, 7}, s1: [3]int{19, 61, 6}, e0: [3]int{28, 34, 39}, e1: [3]int{14, 18, 41}}

type word []*T // bits, least significant first

func wxor(xs ...word) word {
	out := append(word{}, xs[0]...)
	for _, x := range xs[1:] {
		for i := range out {
			out[i] = Xor(out[i], x[i])
		}
	}
	return out
}

func (x word) rotr(n int) word {
	out := make(word, len(x))
	for i := range x {
		out[i] = x[(i+n)%len(x)]
	}
	return out
}

func (x word) shr(n int) word {
	out := make(word, len(x))
	for i := range x {
		out[i] = False
		if i+n < len(x) {
			out[i] = x[i+n]
		}
	}
	return out
}

func (x word) val() *T {
	s := Zero
	for i, b := range x {
		s = Add(s, MulC(B2I(b), pow2(i)))
	}
	return s
}

func wsum(w int, xs ...word) word {
	s := Zero
	for _, x := range xs {
		s = Add(s, x.val())
	}
	return wordOf(s, w)
}

func wordOf(t *T, w int) word {
	out := make(word, w)
	for i := range out {
		out[i] = Bit(t, i)
	}
	return out
}

// compress: one application of the compression function to the chaining words
func (a *shaAlg) compress(h []word, block []word) []word {
	w := make([]word, a.rounds)
	per := a.w / 8
	for i := 0; i < 16; i++ {
		for b := per - 1; b >= 0; b-- { // big-endian bytes
			w[i] = append(w[i], block[i*per+b]...)
		}
	}
	sig := func(x word, r [3]int) word { return wxor(x.rotr(r[0]), x.rotr(r[1]), x.rotr(r[2])) }
	sch := func(x word, r [3]int) word { return wxor(x.rotr(r[0]), x.rotr(r[1]), x.shr(r[2])) }
	for i := 16; i < a.rounds; i++ {
		w[i] = wsum(a.w, sch(w[i-2], a.s1), w[i-7], sch(w[i-15], a.s0), w[i-16])
	}
	v := append([]word{}, h...)
	for i := 0; i < a.rounds; i++ {
		ch, maj := make(word, a.w), make(word, a.w)
		for j := 0; j < a.w; j++ {
			e, f, g := v[4][j], v[5][j], v[6][j]
			ch[j] = Xor(And(e, f), And(Not(e), g))
			x, y, z := v[0][j], v[1][j], v[2][j]
			maj[j] = Xor(Xor(And(x, y), And(x, z)), And(y, z))
		}
		t1 := wsum(a.w, v[7], sig(v[4], a.e1), ch, wordOf(CB(new(big.Int).SetUint64(a.k[i])), a.w), w[i])
		t2 := wsum(a.w, sig(v[0], a.e0), maj)
		v = []word{wsum(a.w, t1, t2), v[0], v[1], v[2], wsum(a.w, v[3], t1), v[4], v[5], v[6]}
	}
	for i := range v {
		v[i] = wsum(a.w, h[i], v[i])
	}
	return v
}

// opaque: the compression function as one uninterpreted application
func (a *shaAlg) opaque(h []word, block []word) []word {
	var as []*T
	for _, x := range h {
		as = append(as, x.val())
	}
	for _, x := range block {
		as = append(as, x.val())
	}
	t := App(a.name, as...)
	t.lo, t.hi = b0, new(big.Int).Sub(pow2(8*a.w), b1)
	var out []word
	for i := 0; i < 8; i++ {
		x := make(word, a.w)
		for j := range x {
			x[j] = Bit(t, i*a.w+j)
		}
		out = append(out, x)
	}
	return out
}

// compressNative: the same on numbers
func (a *shaAlg) compressNative(as []*big.Int) *big.Int {
	mask := uint64(1)<<uint(a.w-1)<<1 - 1
	rot := func(x uint64, n int) uint64 {
		if a.w == 32 {
			return uint64(bits.RotateLeft32(uint32(x), -n))
		}
		return bits.RotateLeft64(x, -n)
	}
	var h [8]uint64
	for i := range h {
		h[i] = new(big.Int).And(as[i], new(big.Int).SetUint64(mask)).Uint64()
	}
	w := make([]uint64, a.rounds)
	per := a.w / 8
	for i := 0; i < 16; i++ {
		for b := 0; b < per; b++ {
			w[i] = w[i]<<8 | new(big.Int).And(as[8+i*per+b], big.NewInt(255)).Uint64()
		}
	}
	for i := 16; i < a.rounds; i++ {
		x, y := w[i-2], w[i-15]
		w[i] = (w[i-7] + w[i-16] + (rot(x, a.s1[0]) ^ rot(x, a.s1[1]) ^ x>>a.s1[2]) + (rot(y, a.s0[0]) ^ rot(y, a.s0[1]) ^ y>>a.s0[2])) & mask
	}
	v := h
	for i := 0; i < a.rounds; i++ {
		e, x := v[4], v[0]
		t1 := v[7] + (rot(e, a.e1[0]) ^ rot(e, a.e1[1]) ^ rot(e, a.e1[2])) + (e&v[5] ^ ^e&v[6]) + a.k[i] + w[i]
		t2 := (rot(x, a.e0[0]) ^ rot(x, a.e0[1]) ^ rot(x, a.e0[2])) + (x&v[1] ^ x&v[2] ^ v[1]&v[2])
		v = [8]uint64{(t1 + t2) & mask, v[0], v[1], v[2], (v[3] + t1) & mask, v[4], v[5], v[6]}
	}
	r := new(big.Int)
	for i := 7; i >= 0; i-- {
		r.Lsh(r, uint(a.w)).Or(r, new(big.Int).SetUint64((h[i]+v[i])&mask))
	}
	return r
}

// ---- representation of the gadget's values ----

func bitsVal(x word) Val {
	a := &ArrV{}
	for _, b := range x {
		a.e = append(a.e, b2i(b))
	}
	return a
}

func (e *Env) word(v Val) word {
	ts := intsOf(e.st, v)
	for _, t := range ts {
		e.Require(isBit(t))
	}
	return word(bools(ts))
}

func (e *Env) words(v Val) (out []word) {
	for _, x := range elemsOf(e.st, v) {
		out = append(out, e.word(x))
	}
	return
}

func wordArr(b *B, name string, n, w int) *ArrV {
	a := &ArrV{}
	for i := 0; i < n; i++ {
		a.e = append(a.e, b.FeArr(fmt.Sprintf("%s%d", name, i), w, b1))
	}
	return a
}

func wordVals(ws []word) Val {
	a := &ArrV{}
	for _, w := range ws {
		a.e = append(a.e, bitsVal(w))
	}
	return a
}

func (a *shaAlg) digest(b *B, nx int, ln *T) Val {
	return b.PtrTo(&StructV{f: []Val{wordArr(b, "h", 8, a.w), wordArr(b, "x", a.chunk, 8), CI(int64(nx)), ln, Zero, b.API()}})
}

func init() {
	for _, a := range []*shaAlg{sha256A, sha512A} {
		a := a
		a.constants()
		appEval[a.name] = a.compressNative
		a.register()
	}
}

func (a *shaAlg) register() {
	ap := fmt.Sprintf("(*uint%dapi).", a.w)
	recv := func(b *B) Val { return b.PtrTo(&StructV{f: []Val{b.API()}}) }
	// word operations
	nary := func(b *B, n int) []Val {
		var vs []Val
		for i := 0; i < n; i++ {
			vs = append(vs, b.FeArr(fmt.Sprintf("w%d_", i), a.w, b1))
		}
		return []Val{recv(b), b.Slice(vs...)}
	}
	for _, o := range []struct {
		fn string
		f  func(x, y *T) *T
		z  bool
	}{{"and", func(x, y *T) *T { return And(x, y) }, true}, {"or", func(x, y *T) *T { return Or(x, y) }, false}, {"xor", func(x, y *T) *T { return Xor(x, y) }, false}} {
		o := o
		var cs []*Case
		for _, n := range []int{0, 1, 2, 3, 8} {
			n := n
			cs = append(cs, nCase(fmt.Sprintf("n%d", n), func(b *B) []Val { return nary(b, n) }))
		}
		reg(&Contract{Prop: "C04", Optional: true, Pkg: a.pkg, Fn: ap + o.fn, Cases: cs, Spec: func(e *Env) {
			out := make(word, a.w)
			for i := range out {
				out[i] = Bool(o.z)
			}
			for _, x := range e.words(e.Args[1]) {
				for i := range out {
					out[i] = o.f(out[i], x[i])
				}
			}
			e.Return(bitsVal(out))
		}})
	}
	un := func(fn string, shift []int, f func(x word, n int) word) {
		var cs []*Case
		for _, s := range shift {
			s := s
			cs = append(cs, nCase(fmt.Sprintf("by%d", s), func(b *B) []Val { return []Val{recv(b), b.FeArr("w", a.w, b1), b.I(s)} }))
		}
		reg(&Contract{Prop: "C04", Optional: true, Pkg: a.pkg, Fn: ap + fn, Cases: cs, Spec: func(e *Env) {
			e.Return(bitsVal(f(e.word(e.Args[1]), e.N(2))))
		}})
	}
	var rots, shifts []int
	for i := 0; i < a.w; i++ {
		rots = append(rots, -i, i)
		shifts = append(shifts, i)
	}
	un("lrot", rots[1:], func(x word, n int) word { return x.rotr(((-n)%a.w + a.w) % a.w) })
	un("rshift", append(shifts, a.w), func(x word, n int) word { return x.shr(n) })
	un("lshift", append(shifts, a.w), func(x word, n int) word {
		out := make(word, a.w)
		for i := range out {
			out[i] = False
			if i >= n {
				out[i] = x[i-n]
			}
		}
		return out
	})
	reg(&Contract{Prop: "C04", Optional: true, Pkg: a.pkg, Fn: ap + "not", Cases: []*Case{nCase("any", func(b *B) []Val { return []Val{recv(b), b.FeArr("w", a.w, b1)} })}, Spec: func(e *Env) {
		x := e.word(e.Args[1])
		out := make(word, a.w)
		for i := range out {
			out[i] = Not(x[i])
		}
		e.Return(bitsVal(out))
	}})
	var ac []*Case
	for _, n := range []int{0, 1, 2, 3} {
		n := n
		ac = append(ac, nCase(fmt.Sprintf("n%d", n+2), func(b *B) []Val {
			var vs []Val
			for i := 0; i < n; i++ {
				vs = append(vs, b.FeArr(fmt.Sprintf("w%d_", i), a.w, b1))
			}
			return []Val{recv(b), b.FeArr("a", a.w, b1), b.FeArr("b", a.w, b1), b.Slice(vs...)}
		}))
	}
	reg(&Contract{Prop: "C04", Optional: true, Pkg: a.pkg, Fn: ap + "add", Summary: true, Cases: ac, Spec: func(e *Env) {
		ws := append([]word{e.word(e.Args[1]), e.word(e.Args[2])}, e.words(e.Args[3])...)
		e.Return(bitsVal(wsum(a.w, ws...)))
	}})
	// the block function
	var bc []*Case
	for _, n := range []int{0, 1} {
		n := n
		bc = append(bc, &Case{Name: fmt.Sprintf("blocks%d", n), Weight: 50, Samples: 4, Build: func(b *B) []Val {
			return []Val{a.digest(b, 0, Zero), b.Slice(wordArr(b, "p", n*a.chunk, 8).e...)}
		}})
	}
	reg(&Contract{Prop: "C04", Pkg: a.pkg, Fn: "blockGeneric", Summary: true, Mutates: true, Cases: bc, Spec: func(e *Env) {
		d := e.st.load(e.Args[0].(Ptr)).(*StructV)
		h, p := e.words(d.f[0]), e.words(e.Args[1])
		for len(p) >= a.chunk {
			if e.Call {
				h = a.opaque(h, p[:a.chunk])
			} else {
				h = a.compress(h, p[:a.chunk])
			}
			p = p[a.chunk:]
		}
		f := append([]Val{}, d.f...)
		f[0] = wordVals(h)
		e.After = map[int]Val{0: e.Ptr(&StructV{f: f})}
		e.Return()
	}})
	// conversions
	byteVal := func(b word) *T { return b.val() }
	u8 := "(*uint8api)."
	recv8 := func(b *B) Val { return b.PtrTo(&StructV{f: []Val{b.API()}}) }
	reg(&Contract{Prop: "C04", Optional: true, Pkg: a.pkg, Fn: u8 + "asUint8", Cases: []*Case{nCase("any", func(b *B) []Val { return []Val{recv8(b), b.Fe("x")} })}, Spec: func(e *Env) {
		x := e.Int(1)
		e.Constrain("the value is a byte", Lt(x, CI(256)))
		e.Return(bitsVal(wordOf(x, 8)))
	}})
	reg(&Contract{Prop: "C04", Optional: true, Pkg: a.pkg, Fn: u8 + "fromUint8", Cases: []*Case{nCase("any", func(b *B) []Val { return []Val{recv8(b), b.FeArr("x", 8, b1)} })}, Spec: func(e *Env) {
		e.Return(feVal(e.word(e.Args[1]).val()))
	}})
	for _, w := range []int{32, 64} {
		w := w
		if w == 64 || a.w == 32 {
			fn := fmt.Sprintf("PutUint%d", w)
			reg(&Contract{Prop: "C04", Pkg: a.pkg, Fn: fn, Mutates: true, Cases: []*Case{nCase("any", func(b *B) []Val {
				return []Val{b.API(), b.Slice(wordArr(b, "b", w/8+1, 8).e...), b.FeArr("v", w, b1)}
			})}, Spec: func(e *Env) {
				v, out := e.word(e.Args[2]), e.Elems(1)
				n := append([]Val{}, out...)
				for i := 0; i < w/8; i++ {
					n[i] = bitsVal(v[w-8*i-8 : w-8*i])
				}
				e.After = map[int]Val{1: e.SliceOf(n)}
				e.Return()
			}})
		}
	}
	// streaming
	absorb := func(e *Env, h []word, data []word) ([]word, []word) {
		for len(data) >= a.chunk {
			h = a.opaque(h, data[:a.chunk])
			data = data[a.chunk:]
		}
		return h, data
	}
	stream := func(e *Env, p []word) {
		d := e.st.load(e.Args[0].(Ptr)).(*StructV)
		nx := int(asInt(d.f[2]).C.Int64())
		h, rest := absorb(e, e.words(d.f[0]), append(append([]word{}, e.words(d.f[1])[:nx]...), p...))
		x := &ArrV{e: make([]Val, a.chunk)} // what lies beyond the buffered bytes is unspecified
		for i, r := range rest {
			x.e[i] = bitsVal(r)
		}
		n := int64(len(p))
		e.After = map[int]Val{0: e.Ptr(&StructV{f: []Val{wordVals(h), x, CI(int64(len(rest))), Mod(AddC(asInt(d.f[3]), n), pow2(64)), d.f[4], d.f[5]}})}
		e.Return(CI(n), IfaceV{})
	}
	var wc, Wc []*Case
	for _, nx := range []int{0, 1, a.chunk / 2, a.chunk - 1} {
		for _, n := range []int{0, 1, a.chunk - 1, a.chunk, a.chunk + 1, 2*a.chunk + 3} {
			nx, n := nx, n
			wc = append(wc, &Case{Name: fmt.Sprintf("held%d_new%d", nx, n), Samples: 3, Build: func(b *B) []Val {
				return []Val{a.digest(b, nx, b.U("len", 64)), b.Slice(wordArr(b, "p", n, 8).e...)}
			}})
			if nx != 1 && n != a.chunk {
				Wc = append(Wc, &Case{Name: fmt.Sprintf("held%d_new%d", nx, n), Samples: 3, Build: func(b *B) []Val {
					return []Val{a.digest(b, nx, b.U("len", 64)), b.FesB("p", n, 300)}
				}, Sample: smallBytes("p")})
			}
		}
	}
	reg(&Contract{Prop: "C04", Pkg: a.pkg, Fn: "(*digest).write", Mutates: true, Cases: wc, Spec: func(e *Env) {
		stream(e, e.words(e.Args[1]))
	}})
	reg(&Contract{Prop: "C04", Pkg: a.pkg, Fn: "(*digest).Write", Mutates: true, Cases: Wc, Spec: func(e *Env) {
		var p []word
		for i, t := range e.Ints(1) {
			e.Constrain(fmt.Sprintf("element %d is a byte", i), Lt(t, CI(256)))
			p = append(p, wordOf(t, 8))
		}
		stream(e, p)
	}})
	lenBytes := a.w / 4 // width of the length field
	ivWords := func() []word {
		var h []word
		for _, v := range a.iv {
			h = append(h, wordOf(CB(new(big.Int).SetUint64(v)), a.w))
		}
		return h
	}
	var sc []*Case
	for _, n := range []int{0, 1, a.chunk - lenBytes - 1, a.chunk - lenBytes, a.chunk/2 + 5, a.chunk - 1} {
		n := n
		sc = append(sc, &Case{Name: fmt.Sprintf("held%d", n), Samples: 6, Build: func(b *B) []Val {
			// any number of whole blocks has been absorbed before
			return []Val{a.digest(b, n, AddC(MulC(b.R("blocks", 0, 1<<50), big.NewInt(int64(a.chunk))), int64(n)))}
		}})
	}
	reg(&Contract{Prop: "C04", Pkg: a.pkg, Fn: "(*digest).Sum", Cases: sc, Spec: func(e *Env) {
		d := e.st.load(e.Args[0].(Ptr)).(*StructV)
		nx := int(asInt(d.f[2]).C.Int64())
		data := append([]word{}, e.words(d.f[1])[:nx]...)
		konst := func(v *T) word { return wordOf(v, 8) }
		data = append(data, konst(CI(0x80)))
		for len(data)%a.chunk != a.chunk-lenBytes {
			data = append(data, konst(Zero))
		}
		bitlen := MulC(asInt(d.f[3]), big.NewInt(8))
		for i := lenBytes - 1; i >= 0; i-- {
			if i >= 8 {
				data = append(data, konst(Zero))
			} else {
				data = append(data, konst(Ext(bitlen, 8*i, 8)))
			}
		}
		h, _ := absorb(e, e.words(d.f[0]), data)
		var out []*T
		for _, x := range h {
			for i := a.w/8 - 1; i >= 0; i-- {
				out = append(out, byteVal(x[8*i:8*i+8]))
			}
		}
		e.Return(e.FeSlice(out))
	}})
	reg(&Contract{Prop: "C04", Pkg: a.pkg, Fn: "New", Cases: []*Case{nCase("any", func(b *B) []Val { return []Val{b.API()} })}, Spec: func(e *Env) {
		e.Return(&StructV{f: []Val{wordVals(ivWords()), nil, Zero, Zero, nil, nil}})
	}})
	reg(&Contract{Prop: "C04", Pkg: a.pkg, Fn: "(*digest).Reset", Mutates: true, Cases: []*Case{nCase("any", func(b *B) []Val {
		return []Val{a.digest(b, 3, b.U("len", 64))}
	})}, Spec: func(e *Env) {
		d := e.st.load(e.Args[0].(Ptr)).(*StructV)
		e.After = map[int]Val{0: e.Ptr(&StructV{f: []Val{wordVals(ivWords()), nil, Zero, Zero, d.f[4], d.f[5]}})}
		e.Return()
	}})
}

// smallBytes: make most elements bytes
func smallBytes(name string) func(*rand.Rand, map[string]*big.Int, *B) {
	return func(r *rand.Rand, m map[string]*big.Int, b *B) {
		out := r.Intn(4) == 0
		for k := range m {
			if strings.HasPrefix(k, name+"_") && !out {
				m[k] = big.NewInt(int64(r.Intn(256)))
			}
		}
	}
}

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// Contracts of the Keccak code: off-circuit padding and bit/word conversion
// (C01), in-circuit padding (C02), the permutation and the sponge (C03).

const (
	pCirc    = mod + "common/circuits"
	pKeccak  = mod + "circuits/gadgets/keccak"
	pKeccakf = mod + "circuits/gadgets/keccak/keccakf"
)

// ---- specification functions ----

// padSpec: Keccak's multi-rate padding (rate 136 bytes): data | 01 | 00.. | 80.
func padSpec(d []*T) []*T {
	n := len(d)
	total := (n/136 + 1) * 136
	out := make([]*T, total)
	for i := range out {
		switch {
		case i < n:
			out[i] = d[i]
		default:
			v := int64(0)
			if i == n {
				v |= 0x01
			}
			if i == total-1 {
				v |= 0x80
			}
			out[i] = CI(v)
		}
	}
	return out
}
func le64(b []*T) *T {
	s := Zero
	for i := range b {
		s = Add(s, MulC(b[i], pow2(8*i)))
	}
	return s
}
func le64s(b []*T) []*T {
	var out []*T
	for i := 0; i+8 <= len(b); i += 8 {
		out = append(out, le64(b[i:i+8]))
	}
	return out
}
func bitsLE(x *T, n int) []*T {
	out := make([]*T, n)
	for i := range out {
		out[i] = B2I(Bit(x, i))
	}
	return out
}
func bytesBits(b []*T) []*T {
	var out []*T
	for _, x := range b {
		out = append(out, bitsLE(x, 8)...)
	}
	return out
}

var kRC = []uint64{
	0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001,
	0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
	0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
	0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
}

// keccakF: FIPS 202 section 3.2/3.3 (theta, rho, pi, chi, iota with LFSR-derived offsets), on bits A[x+5y][z].
func keccakF(bits []*T) []*T {
	var A [5][5][64]*T
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			for z := 0; z < 64; z++ {
				A[x][y][z] = bits[64*(5*y+x)+z]
			}
		}
	}
	for r := 0; r < 24; r++ {
		var C [5][64]*T
		for x := 0; x < 5; x++ {
			for z := 0; z < 64; z++ {
				C[x][z] = Xor(A[x][0][z], A[x][1][z], A[x][2][z], A[x][3][z], A[x][4][z])
			}
		}
		for x := 0; x < 5; x++ {
			for z := 0; z < 64; z++ {
				d := Xor(C[(x+4)%5][z], C[(x+1)%5][(z+63)%64])
				for y := 0; y < 5; y++ {
					A[x][y][z] = Xor(A[x][y][z], d)
				}
			}
		}
		B := A
		x, y := 1, 0
		for t := 0; t < 24; t++ {
			for z := 0; z < 64; z++ {
				B[x][y][z] = A[x][y][((z-(t+1)*(t+2)/2)%64+64)%64]
			}
			x, y = y, (2*x+3*y)%5
		}
		var D [5][5][64]*T
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				D[x][y] = B[(x+3*y)%5][x]
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				for z := 0; z < 64; z++ {
					A[x][y][z] = Xor(D[x][y][z], And(Not(D[(x+1)%5][y][z]), D[(x+2)%5][y][z]))
				}
			}
		}
		for z := 0; z < 64; z++ {
			if kRC[r]>>z&1 == 1 {
				A[0][0][z] = Not(A[0][0][z])
			}
		}
	}
	out := make([]*T, 1600)
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			for z := 0; z < 64; z++ {
				out[64*(5*y+x)+z] = A[x][y][z]
			}
		}
	}
	return out
}

// concrete keccak-f for evaluating the opaque symbol in replays
func keccakFNative(s *[25]uint64) {
	rot := func(v uint64, n int) uint64 { n &= 63; return v<<n | v>>((64-n)&63) }
	for r := 0; r < 24; r++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = s[x] ^ s[x+5] ^ s[x+10] ^ s[x+15] ^ s[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ rot(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				s[x+5*y] ^= d
			}
		}
		b := *s
		x, y := 1, 0
		for t := 0; t < 24; t++ {
			b[x+5*y] = rot(s[x+5*y], (t+1)*(t+2)/2)
			x, y = y, (2*x+3*y)%5
		}
		var d [25]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				d[x+5*y] = b[(x+3*y)%5+5*x]
			}
		}
		for y := 0; y < 5; y++ {
			for x := 0; x < 5; x++ {
				s[x+5*y] = d[x+5*y] ^ (^d[(x+1)%5+5*y] & d[(x+2)%5+5*y])
			}
		}
		s[0] ^= kRC[r]
	}
}

func init() {
	appEval["keccakf"] = func(as []*big.Int) *big.Int {
		var s [25]uint64
		for i := range as {
			if as[i].Sign() != 0 {
				s[i/64] |= 1 << (i % 64)
			}
		}
		keccakFNative(&s)
		r := new(big.Int)
		for i := 24; i >= 0; i-- {
			r.Lsh(r, 64)
			r.Or(r, new(big.Int).SetUint64(s[i]))
		}
		return r
	}
}

// kf is the permutation as an opaque function of 1600 bits.
func kf(bits []*T) []*T {
	as := make([]*T, 1600)
	for i, b := range bits {
		as[i] = B2I(b)
	}
	a := App("keccakf", as...)
	a.lo, a.hi = b0, new(big.Int).Sub(pow2(1600), b1)
	out := make([]*T, 1600)
	for i := range out {
		out[i] = Bit(a, i)
	}
	return out
}

func init() {
	lens := []int{0, 1, 2, 7, 8, 64, 134, 135, 136, 137, 270, 271, 272, 273, 300, 407, 408}
	byteCases := func(ls ...int) (cs []*Case) {
		for _, n := range ls {
			n := n
			cs = append(cs, &Case{Name: fmt.Sprintf("len%d", n), Build: func(b *B) []Val { return []Val{b.Bytes("d", n)} }})
		}
		return
	}
	for _, pk := range []string{pCirc, pKeccak} {
		reg(&Contract{Prop: "C01", Pkg: pk, Fn: "Pad101Bytes", Cases: byteCases(lens...), Spec: func(e *Env) {
			e.Return(e.IntSlice(padSpec(e.Ints(0))))
		}})
		reg(&Contract{Prop: "C01", Pkg: pk, Fn: "Pad101", Cases: byteCases(lens...), Spec: func(e *Env) {
			e.Return(e.IntSlice(le64s(padSpec(e.Ints(0)))))
		}})
		reg(&Contract{Prop: "C01", Pkg: pk, Fn: "Bytes2BlockBits", Cases: byteCases(0, 1, 8, 135, 136, 137, 272), Spec: func(e *Env) {
			if len(e.Ints(0))%136 != 0 {
				e.PanicIff = True
				return
			}
			e.Return(e.IntSlice(bytesBits(e.Ints(0))))
		}})
		reg(&Contract{Prop: "C01", Pkg: pk, Fn: "Bytes2Bits", Cases: byteCases(0, 1, 4, 7, 8, 9, 16, 32, 136), Spec: func(e *Env) {
			if len(e.Ints(0))%8 != 0 {
				e.PanicIff = True
				return
			}
			e.Return(e.IntSlice(bytesBits(e.Ints(0))))
		}})
		reg(&Contract{Prop: "C01", Pkg: pk, Fn: "byte2Bits", Optional: true, Cases: []*Case{{Name: "any", Build: func(b *B) []Val { return []Val{b.U("b", 8)} }}}, Spec: func(e *Env) {
			e.Return(e.IntSlice(bitsLE(e.Int(0), 8)))
		}})
		reg(&Contract{Prop: "C01", Pkg: pk, Fn: "Bytes2Uint64", Cases: byteCases(0, 1, 7, 8, 9, 16), Spec: func(e *Env) {
			if len(e.Ints(0)) != 8 {
				e.PanicIff = True
				return
			}
			e.Return(le64(e.Ints(0)))
		}})
		reg(&Contract{Prop: "C01", Pkg: pk, Fn: "Bytes2Uint64s", Cases: byteCases(0, 1, 7, 8, 9, 16, 136, 272), Spec: func(e *Env) {
			if len(e.Ints(0))%8 != 0 {
				e.PanicIff = True
				return
			}
			e.Return(e.IntSlice(le64s(e.Ints(0))))
		}})
	}
	reg(&Contract{Prop: "C01", Pkg: pKeccak, Fn: "GetKeccakRoundForPaddedBytes", Cases: byteCases(136, 272, 408, 1360), Spec: func(e *Env) {
		e.Return(CI(int64(e.Len(0)/136 - 1)))
	}})
	var u64Cases []*Case
	for _, n := range []int{0, 17, 34, 153, 170, 171, 187} {
		n := n
		u64Cases = append(u64Cases, &Case{Name: fmt.Sprintf("n%d", n), Build: func(b *B) []Val { return []Val{b.UintSlice("p", n, 64)} }})
	}
	reg(&Contract{Prop: "C01", Pkg: pKeccak, Fn: "Uint64s2Blocks", Cases: u64Cases, Spec: func(e *Env) {
		in := e.Ints(0)
		if len(in) > 170 {
			e.PanicIff = True
			return
		}
		e.Return(blocks(in, 10))
	}})

	// ---- C03: permutation ----
	reg(&Contract{Prop: "C03", Pkg: pKeccakf, Fn: "Permute", Fraig: true, Summary: true, Cases: []*Case{{Name: "any", Weight: 100, Samples: 6, Build: func(b *B) []Val {
		return []Val{b.API(), b.FeArr("s", 1600, b1)}
	}}}, Spec: func(e *Env) {
		in := e.Ints(1)
		for _, t := range in {
			e.Require(isBit(t))
		}
		var out []*T
		if e.Call {
			out = kf(bools(in))
		} else {
			out = keccakF(bools(in))
		}
		r := make([]*T, 1600)
		for i := range r {
			r[i] = B2I(out[i])
		}
		e.Return(FeArr(r))
	}})
}

// sponge: states after each absorbed block of 1088 bits
func sponge(data []*T, rounds int) (out [][]*T) {
	st := make([]*T, 1600)
	for i := range st {
		st[i] = False
	}
	for r := 0; r < rounds; r++ {
		n := append([]*T{}, st...)
		for i := 0; i < 1088; i++ {
			n[i] = Xor(st[i], data[r*1088+i])
		}
		st = kf(n)
		out = append(out, st)
	}
	return
}

func init() {
	lane := func(bs []*T) *T {
		s := Zero
		for i, b := range bs {
			s = Add(s, MulC(B2I(b), pow2(i)))
		}
		return s
	}
	// the dependency's own permutation on 64-bit lanes
	reg(&Contract{Prop: "C03", Pkg: gnarkMod + "/std/permutation/keccakf", Fn: "PermuteOld", NoNative: true, Fraig: true, Summary: true,
		Cases: []*Case{{Name: "any", Weight: 100, Build: func(b *B) []Val { return []Val{b.API(), b.FeArr("s", 25, nil)} }}},
		Spec: func(e *Env) {
			in := e.Ints(1)
			var bs []*T
			for i, t := range in {
				if t.hi == nil || t.hi.Cmp(pow2(64)) >= 0 {
					e.Constrain(fmt.Sprintf("lane %d is a 64-bit word", i), Lt(t, CB(pow2(64))))
				}
				for k := 0; k < 64; k++ {
					bs = append(bs, Bit(t, k))
				}
			}
			var o []*T
			if e.Call {
				o = kf(bs)
			} else {
				o = keccakF(bs)
			}
			out := make([]*T, 25)
			for i := range out {
				out[i] = lane(o[64*i : 64*i+64])
			}
			e.Return(FeArr(out))
		}})

	pick := func(e *Env, idx *T, sts [][]*T, n int) []*T {
		out := make([]*T, n)
		for i := range out {
			r := sts[len(sts)-1][i]
			for k := len(sts) - 2; k >= 0; k-- {
				r = IteB(Eq(idx, CI(int64(k))), sts[k][i], r)
			}
			out[i] = r
		}
		return out
	}
	asFe := func(bs []*T) []*T {
		out := make([]*T, len(bs))
		for i, b := range bs {
			out[i] = B2I(b)
		}
		return out
	}
	mkCases := func(opt bool) (cs []*Case) {
		type sh struct{ min, max, n int }
		for _, s := range []sh{{1, 1, 1088}, {1, 2, 2176}, {2, 3, 3264}, {1, 4, 4352}, {3, 3, 3264}, {1, 2, 1088}, {1, 2, 2177}, {1, 1, 2176}, {1, 2, 2175}} {
			s := s
			if !opt && s.min != 1 {
				continue
			}
			cs = append(cs, &Case{Name: fmt.Sprintf("min%d_max%d_len%d", s.min, s.max, s.n), Weight: s.max, Samples: 12, Build: func(b *B) []Val {
				r := []Val{b.API()}
				if opt {
					r = append(r, b.I(s.min))
				}
				return append(r, b.I(s.max), b.Fe("round"), b.FesB("d", s.n, 1))
			}, Sample: func(r *rand.Rand, m map[string]*big.Int, b *B) {
				for k := range m {
					if strings.HasPrefix(k, "round!") {
						m[k] = big.NewInt(int64(s.min-1) + r.Int63n(int64(s.max-s.min+1)))
					}
				}
			}})
		}
		return
	}
	spongeSpec := func(e *Env, min, max int, round *T, data []*T) {
		if len(data) != max*1088 {
			e.PanicIff = True
			return
		}
		for _, t := range data {
			e.Require(isBit(t))
		}
		sts := sponge(bools(data), max)
		if max == 1 {
			e.Return(FeArr(asFe(sts[0][:256])))
			return
		}
		e.Constrain("the round index addresses one of the selectable rounds", And(Le(CI(int64(min-1)), round), Lt(round, CI(int64(max)))))
		e.Return(FeArr(asFe(pick(e, Sub(round, CI(int64(min-1))), sts[min-1:], 256))))
	}
	reg(&Contract{Prop: "C03", Pkg: pKeccak, Fn: "Keccak256Bits", Cases: mkCases(false), Spec: func(e *Env) {
		spongeSpec(e, 1, e.N(1), e.Int(2), e.Ints(3))
	}})
	reg(&Contract{Prop: "C03", Pkg: pKeccak, Fn: "Keccak256BitsOptimized", Cases: mkCases(true), Spec: func(e *Env) {
		spongeSpec(e, e.N(1), e.N(2), e.Int(3), e.Ints(4))
	}})
	// lane-based sponges with a fixed number of rounds
	for _, f := range []struct {
		fn string
		n  int
	}{{"Keccak256", 10}, {"Keccak256ForNormalTransaction", 13}, {"Keccak256ForMaxTransaction", 13}} {
		f := f
		reg(&Contract{Prop: "C03", Pkg: pKeccak, Fn: f.fn, Summary: true, Cases: []*Case{{Name: "any", Weight: 20, Samples: 8, Build: func(b *B) []Val {
			a := &ArrV{}
			for i := 0; i < f.n; i++ {
				a.e = append(a.e, b.FeArr(fmt.Sprintf("b%d", i), 17, nil))
			}
			return []Val{b.API(), a, b.Fe("round")}
		}, Sample: func(r *rand.Rand, m map[string]*big.Int, b *B) {
			for k := range m {
				if strings.HasPrefix(k, "round!") {
					m[k] = big.NewInt(r.Int63n(int64(f.n)))
				} else if r.Intn(200) != 0 {
					m[k] = new(big.Int).SetUint64(r.Uint64() >> uint(r.Intn(64)))
				}
			}
		}}}, Spec: func(e *Env) {
			var bits []*T
			for i := 0; i < f.n; i++ {
				for k, w := range intsOf(e.st, e.Args[1].(*ArrV).e[i]) {
					e.Constrain(fmt.Sprintf("block %d word %d is a 64-bit word", i, k), Lt(w, CB(pow2(64))))
					for j := 0; j < 64; j++ {
						bits = append(bits, Bit(w, j))
					}
				}
			}
			round := e.Int(2)
			e.Constrain("the round index addresses one of the rounds", Lt(round, CI(int64(f.n))))
			sts := sponge(bits, f.n)
			var out []*T
			for i := 0; i < 4; i++ {
				r := lane(sts[f.n-1][64*i : 64*i+64])
				for k := f.n - 2; k >= 0; k-- {
					r = Ite(Eq(round, CI(int64(k))), lane(sts[k][64*i:64*i+64]), r)
				}
				out = append(out, r)
			}
			e.Return(FeArr(out))
		}})
	}
}

func isBit(t *T) *T { return And(Le(Zero, t), Le(t, One)) }

// blocks: the 64-bit words grouped 17 per round, zero-filled to n rounds
func blocks(w []*T, n int) Val {
	a := &ArrV{}
	for r := 0; r < n; r++ {
		var l []*T
		for i := 0; i < 17; i++ {
			if k := r*17 + i; k < len(w) {
				l = append(l, w[k])
			} else {
				l = append(l, Zero)
			}
		}
		a.e = append(a.e, FeArr(l))
	}
	return a
}

// anyOrBits: n arbitrary field elements when n is small (so the range constraints are
// part of what is decided), elements already known to be in range otherwise.
func anyOrBits(b *B, name string, n, w int) Val {
	if n > 40 {
		return b.FesBits(name, n, w)
	}
	return b.Fes(name, n)
}

// ---- C02: in-circuit padding and block recomposition ----
func init() {
	// padBitsSpec: padding of a bit string (bytes LE within the byte in the
	// output), as 0/1 terms, zero-extended to total bits
	padBits := func(bits []*T, total int) []*T {
		n := len(bits)
		end := (n/1088 + 1) * 1088
		out := make([]*T, total)
		for i := range out {
			switch {
			case i < n:
				out[i] = bits[i]
			case i == n || i == end-1:
				out[i] = One
			default:
				out[i] = Zero
			}
		}
		return out
	}
	var cs []*Case
	type sh struct{ inBits, min, max, n int }
	for _, s := range []sh{{4, 0, 4, 4}, {8, 2, 5, 5}, {4, 268, 274, 274}, {8, 134, 137, 137}, {8, 271, 273, 273}, {1, 0, 24, 24}, {1, 1072, 1096, 1096}, {2, 4, 16, 16},
		{4, 100, 100, 100}, {4, 270, 270, 270}, {4, 3, 8, 8}, {4, 2, 7, 7}, {1, 8, 20, 20}, {4, 260, 290, 290}, {8, 405, 409, 409}} {
		s := s
		cs = append(cs, &Case{Name: fmt.Sprintf("b%d_min%d_max%d", s.inBits, s.min, s.max), Weight: s.max * s.inBits / 100, Samples: 12, Build: func(b *B) []Val {
			return []Val{b.API(), b.I(s.inBits), b.I(s.min), b.I(s.max), anyOrBits(b, "in", s.n, s.inBits), b.Fe("len")}
		}, Sample: func(r *rand.Rand, m map[string]*big.Int, b *B) {
			for k := range m {
				if strings.HasPrefix(k, "len!") {
					k8 := 8 / s.inBits
					m[k] = big.NewInt(int64(s.min) + int64(r.Intn((s.max-s.min)/k8+1)*k8))
				}
			}
		}})
	}
	reg(&Contract{Prop: "C02", Pkg: pKeccak, Fn: "Pad101Bits", Cases: cs, Spec: func(e *Env) {
		ib, min, max := e.N(1), e.N(2), e.N(3)
		in, l := e.Ints(4), e.Int(5)
		k := 8 / ib
		if min%k != 0 || max%k != 0 {
			e.PanicIff = True
			return
		}
		var bits []*T
		for i, t := range in {
			e.Constrain(fmt.Sprintf("element %d fits in %d bits", i, ib), Lt(t, CB(pow2(ib))))
			bs := bitsLE(t, ib)
			for j := ib - 1; j >= 0; j-- {
				bits = append(bits, bs[j])
			}
		}
		total := (max*ib/1088 + 1) * 1088
		var valid []*T
		rows := (max-min)/k + 1
		rs := make([][]*T, rows)
		for i := 0; i < rows; i++ {
			valid = append(valid, Eq(l, CI(int64(min+i*k))))
			n := min*ib + i*8
			// little-endian within each byte
			d := make([]*T, n)
			for j := range d {
				d[j] = bits[j/8*8+7-j%8]
			}
			rs[i] = padBits(d, total)
		}
		e.Constrain("the length is one of the selectable lengths", Or(valid...))
		out := make([]*T, total)
		for j := range out {
			r := rs[rows-1][j]
			for i := rows - 2; i >= 0; i-- {
				r = Ite(valid[i], rs[i][j], r)
			}
			out[j] = r
		}
		e.Return(e.FeSlice(out))
	}})
	reg(&Contract{Prop: "C02", Pkg: pKeccak, Fn: "GetRoundIndex", Cases: []*Case{{Name: "any", Build: func(b *B) []Val { return []Val{b.U("n", 40)} }}}, Spec: func(e *Env) {
		// index of the last block of a padded byte string of n bits
		e.Require(Eq(Mod(e.Int(0), big.NewInt(8)), Zero))
		e.Return(Div(e.Int(0), big.NewInt(1088)))
	}})
	var pc []*Case
	for _, s := range [][2]int{{0, 1}, {8, 1}, {536, 1}, {1064, 1}, {1072, 1}, {1080, 1}, {1072, 3}, {1080, 2}, {1088, 2}, {1096, 2}, {2160, 2}, {2168, 2}, {2168, 4}, {2176, 3}, {256, 3}} {
		s := s
		pc = append(pc, &Case{Name: fmt.Sprintf("n%d_max%d", s[0], s[1]), Samples: 8, Build: func(b *B) []Val {
			return []Val{b.API(), b.FesB("d", s[0], 1), b.I(s[1])}
		}})
	}
	reg(&Contract{Prop: "C02", Pkg: pKeccak, Fn: "PadBits101", Cases: pc, Spec: func(e *Env) {
		e.Return(e.FeSlice(padBits(e.Ints(1), e.N(2)*1088)))
	}})
	// nibbles (high first) to 64-bit little-endian lanes, by blocks of 17
	lanes := func(e *Env, in []*T) (out []*T) {
		for i := 0; i+16 <= len(in); i += 16 {
			var bs []*T
			for j := 0; j < 16; j += 2 {
				for q := 0; q < 2; q++ {
					e.Constrain("hex digits are nibbles", Lt(in[i+j+q], CI(16)))
				}
				bs = append(bs, Add(MulC(in[i+j], big.NewInt(16)), in[i+j+1]))
			}
			out = append(out, le64(bs))
		}
		return
	}
	for _, f := range []struct {
		fn string
		n  int
	}{{"NibblesToU64Array", 10}, {"NibblesToU64ArrayForNormalTransactionLeafValue", 13}, {"NibblesToU64ArrayForMaxTransactionLeafValue", 13}} {
		f := f
		var cs []*Case
		for _, n := range []int{0, 15, 16, 17, 272, 288, 544, f.n * 272, f.n*272 + 16} {
			n := n
			cs = append(cs, &Case{Name: fmt.Sprintf("n%d", n), Weight: n / 100, Samples: 8, Build: func(b *B) []Val { return []Val{b.API(), anyOrBits(b, "h", n, 4)} }})
		}
		reg(&Contract{Prop: "C02", Pkg: pKeccak, Fn: f.fn, Cases: cs, Spec: func(e *Env) {
			if len(e.Ints(1))/16 > f.n*17 {
				e.PanicIff = True
				return
			}
			e.Return(blocks(lanes(e, e.Ints(1)), f.n))
		}})
	}
	var hc []*Case
	for _, s := range [][2]int{{0, 1}, {15, 1}, {16, 1}, {32, 1}, {272, 1}, {288, 1}, {288, 2}, {544, 2}, {544, 4}} {
		s := s
		hc = append(hc, &Case{Name: fmt.Sprintf("n%d_w%d", s[0], s[1]), Weight: s[0] / 100, Samples: 8, Build: func(b *B) []Val {
			return []Val{b.API(), anyOrBits(b, "h", s[0], 4), b.I(s[1])}
		}})
	}
	reg(&Contract{Prop: "C02", Pkg: pKeccak, Fn: "RecomposeHexToKeccakU64s", Cases: hc, Spec: func(e *Env) {
		l := lanes(e, e.Ints(1))
		if len(l) > 17*e.N(2) {
			e.PanicIff = True
			return
		}
		a := blocks(l, e.N(2))
		e.Return(e.SliceOf(a.(*ArrV).e))
	}})
}

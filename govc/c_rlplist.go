package main

// Contracts of the RLP list gadgets (C08).

import (
	"fmt"
	"math/big"
	"math/rand"
)

type rlpCfg struct {
	L, F, A  int
	min, max []int
}

func (c rlpCfg) val(b *B) Val {
	ints := func(xs []int) Val {
		var vs []Val
		for _, x := range xs {
			vs = append(vs, CI(int64(x)))
		}
		return b.Slice(vs...)
	}
	return b.PtrTo(&StructV{f: []Val{CI(int64(c.L)), CI(int64(c.F)), CI(int64(c.A)), ints(c.min), ints(c.max)}})
}

func cfgOf(e *Env) rlpCfg {
	var c rlpCfg
	n := func(i int) int { return int(asInt(e.Field(0, i)).Int64()) }
	c.L, c.F, c.A = n(0), n(1), n(2)
	for i, d := range []*[]int{&c.min, &c.max} {
		for _, t := range intsOf(e.st, e.Field(0, 3+i)) {
			*d = append(*d, int(t.Int64()))
		}
	}
	return c
}

// lenDigits: digits reserved for the length of a length by a list gadget
func lenDigits(max int) int { return (logCeil(max)/8 + 1) * 2 }

func logCeil(n int) int {
	b := big.NewInt(int64(n))
	return b.BitLen()
}

// decodeList: the RLP decoding of one list, item by item, over a nibble window.
//
//	mode 0  RlpArrayCheck       items from index num on are absent
//	mode 1  RlpNestArrayCheck   list items keep their prefix
//	mode 2  BlkHeaderRlpCheck   the optional trailing field has no content when absent
func decodeList(e *Env, c rlpCfg, in []*T, num *T, mode int) (out, total *T, lens []*T, fields [][]*T) {
	for _, t := range in[:c.L] {
		e.Require(Le(t, CI(15)))
	}
	if e.Call {
		return opaqueList(e, c, in, num, mode)
	}
	hw := c.A
	if mode == 0 {
		hw = 10
	}
	bg, n, valid := arrPrefix(in[0], in[1])
	e.Constrain("the length of the list length fits its window", Or(Not(bg), Le(n, CI(int64(c.A)))))
	payload := Ite(bg, MulC(digitsAt(in, c.A, n), b2), n)
	shift := Add(CI(2), Ite(bg, n, Zero))
	total = Add(shift, payload)
	e.Constrain("the list header fits its window", Lt(shift, CB(pow2(bitLen(hw)))))
	win := rotl(in[:c.L], 0, shift, bitLen(hw))
	sum := Zero
	for i := 0; i < c.F; i++ {
		if i > 0 {
			lo, hi := c.min[i-1], c.max[i-1]
			w := bitLen(hi - lo)
			off := Zero
			if lo != hi {
				off = Sub(lens[i-1], CI(int64(lo)))
				e.Constrain(fmt.Sprintf("the length of item %d lies in its window", i-1), And(Le(Zero, off), Lt(off, CB(pow2(w)))))
				off = Mod(off, fieldP)
			}
			win = rotl(fields[i-1], lo, off, w)
		}
		on := True
		if num != nil && mode == 0 {
			on = Lt(CI(int64(i)), num)
		}
		fb, lit, fn, _, arr, _, zero := fldPrefix(win[0], win[1])
		d := lenDigits(c.max[i])
		head := Ite(Or(lit, Not(on)), Zero, Add(CI(2), Ite(fb, fn, Zero)))
		e.Constrain(fmt.Sprintf("the length of the length of item %d fits its window", i), Or(Not(And(fb, on)), Le(fn, CI(int64(d)))))
		drop := head
		if mode == 1 {
			drop = Ite(arr, Zero, head)
		}
		e.Constrain(fmt.Sprintf("the header of item %d fits its window", i), Lt(drop, CB(pow2(bitLen(d)))))
		fields = append(fields, rotl(win, 0, drop, bitLen(d)))
		cont := Ite(lit, CI(2), Ite(fb, MulC(digitsAt(win, d, fn), b2), fn))
		switch mode {
		case 0:
			cont = Ite(on, cont, Zero)
		case 1:
			cont = Ite(zero, Zero, cont)
		case 2:
			cont = Ite(Lt(CI(int64(i)), num), cont, Zero)
		}
		sum = Add(sum, head, cont)
		if mode == 1 {
			cont = Add(cont, Ite(arr, head, Zero))
		}
		lens = append(lens, cont)
	}
	ok := And(valid, Eq(payload, sum))
	if mode == 0 {
		ok = And(ok, Le(num, CI(int64(c.F))))
	}
	return B2I(ok), total, lens, fields
}

// digitsAt: the value of the first n digits after a one-byte prefix
func digitsAt(win []*T, max int, n *T) *T {
	v := hexVal(win[2 : 2+max])
	for k := max - 1; k >= 1; k-- {
		v = Ite(Le(n, CI(int64(k))), hexVal(win[2:2+k]), v)
	}
	return v
}

// rlpHex: RLP encoding of a byte string, as nibbles
func rlpHex(data []byte) []byte {
	if len(data) == 1 && data[0] < 0x80 {
		return hexOf(data)
	}
	return append(rlpHead(0x80, len(data)), hexOf(data)...)
}

func rlpHead(base, n int) []byte {
	if n <= 55 {
		return hexOf([]byte{byte(base + n)})
	}
	var be []byte
	for x := n; x > 0; x >>= 8 {
		be = append([]byte{byte(x)}, be...)
	}
	return hexOf(append([]byte{byte(base + 55 + len(be))}, be...))
}

func hexOf(bs []byte) (out []byte) {
	for _, b := range bs {
		out = append(out, b>>4, b&15)
	}
	return
}

// sampleList: an RLP list of n items within the configuration, sometimes disturbed
func sampleList(r *rand.Rand, m map[string]*big.Int, name string, c rlpCfg, n int, nest bool) {
	var body []byte
	for i := 0; i < n; i++ {
		lo, hi := c.min[i]/2, c.max[i]/2
		d := make([]byte, lo+r.Intn(hi-lo+1))
		for j := range d {
			d[j] = byte(r.Intn(256))
		}
		if len(d) > 0 && r.Intn(3) == 0 {
			d[0] = byte(r.Intn(128))
		}
		if nest && r.Intn(3) == 0 && len(d) < 56 {
			body = append(append(body, rlpHead(0xc0, len(d))...), hexOf(d)...)
			continue
		}
		body = append(body, rlpHex(d)...)
	}
	all := append(rlpHead(0xc0, len(body)/2), body...)
	if r.Intn(4) == 0 {
		all[r.Intn(len(all))] = byte(r.Intn(16))
	}
	for i := 0; i < c.L; i++ {
		v := 0
		if i < len(all) {
			v = int(all[i])
		} else if r.Intn(8) == 0 {
			v = r.Intn(16)
		}
		m[fmt.Sprintf("%s_%d", name, i)] = big.NewInt(int64(v))
	}
}

func init() {
	cfgs := []rlpCfg{
		{12, 1, 4, []int{0}, []int{8}},
		{14, 2, 4, []int{0, 0}, []int{4, 8}},
		{18, 3, 4, []int{0, 2, 0}, []int{6, 2, 8}},
		{136, 2, 4, []int{0, 0}, []int{66, 64}},
		{228, 4, 4, []int{0, 0, 64, 64}, []int{64, 24, 64, 64}},
		{140, 2, 4, []int{0, 0}, []int{66, 66}},
		{302, 2, 4, []int{0, 0}, []int{66, 228}},
		{1064, 17, 8, make([]int, 17), []int{64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 0}},
	}
	mk := func(num int) []*Case {
		var cs []*Case
		for _, c := range cfgs {
			c := c
			name := fmt.Sprintf("hex%d_fields%d", c.L, c.F)
			build := func(b *B) []Val {
				a := []Val{c.val(b), b.API(), b.FesB("in", c.L, 15)}
				switch num {
				case 1:
					a = append(a, b.Slice(b.FeB("num", int64(c.F))))
				case 2:
					a = append(a, b.FeB("num", int64(c.F)))
				case 3:
					a = append(a, b.Slice())
				}
				return a
			}
			if num == 3 {
				name += "_fixed"
			}
			also := ""
			if num == 3 && c.L > 100 && c.L < 1000 {
				also = "C10"
			}
			cs = append(cs, &Case{Name: name, Also: also, Build: build, Thorough: c.L > 303 || c.L == 228 && num != 1, Sample: func(r *rand.Rand, m map[string]*big.Int, b *B) {
				n := c.F
				if num == 1 {
					n = r.Intn(c.F + 1)
				}
				if num == 2 {
					n = c.F - r.Intn(2)
				}
				if num != 3 && num != 0 {
					m["num"] = big.NewInt(int64(n))
				}
				sampleList(r, m, "in", c, n, num == 0)
			}})
		}
		return cs
	}
	ret := func(e *Env, c rlpCfg, out, total *T, lens []*T, fields [][]*T) {
		var fs []Val
		for _, f := range fields {
			fs = append(fs, e.FeSlice(f))
		}
		e.Return(feVal(out), feVal(total), e.FeSlice(lens), e.SliceOf(fs))
	}
	reg(&Contract{Prop: "C08 C10", Sweep: true, Summary: true, Pkg: pRlp, Fn: "(*ArrayCheck).RlpArrayCheck", Cases: append(mk(1), mk(3)...), Spec: func(e *Env) {
		c := cfgOf(e)
		var num *T = CI(int64(c.F))
		if e.Len(3) > 0 {
			num = e.Ints(3)[0]
		}
		out, total, lens, fields := decodeList(e, c, e.Ints(2), num, 0)
		ret(e, c, out, total, lens, fields)
	}})
	reg(&Contract{Prop: "C08", Sweep: true, Pkg: pRlp, Fn: "(*ArrayCheck).RlpNestArrayCheck", Cases: mk(0), Spec: func(e *Env) {
		c := cfgOf(e)
		out, total, lens, fields := decodeList(e, c, e.Ints(2), nil, 1)
		ret(e, c, out, total, lens, fields)
	}})
	reg(&Contract{Prop: "C08", Sweep: true, Summary: true, Pkg: pRlp, Fn: "(*ArrayCheck).BlkHeaderRlpCheck", Cases: mk(2), Spec: func(e *Env) {
		c := cfgOf(e)
		out, total, lens, fields := decodeList(e, c, e.Ints(2), e.Int(3), 2)
		ret(e, c, out, total, lens, fields)
	}})
	reg(&Contract{Prop: "C08", Sweep: true, Pkg: pRlp, Fn: "(*ArrayCheck).LeftShiftRlpArrayPrefix", Cases: mk(0), Spec: func(e *Env) {
		c, in := cfgOf(e), e.Ints(2)
		bg, n, valid := arrPrefix(in[0], in[1])
		e.Constrain("a list prefix", valid)
		e.Constrain("the length of the list length fits its window", Or(Not(bg), Le(n, CI(int64(c.A)))))
		shift := Add(CI(2), Ite(bg, n, Zero))
		e.Constrain("the list header fits its window", Lt(shift, CB(pow2(bitLen(c.A)))))
		e.Return(e.FeSlice(rotl(in[:c.L], 0, shift, bitLen(c.A))), feVal(Ite(bg, MulC(digitsAt(in, c.A, n), b2), n)))
	}})
}

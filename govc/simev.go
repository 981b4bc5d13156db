package main

// Vectorised evaluation of a term DAG on K valuations, with a machine-integer
// fast path.

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
)

type vec struct {
	i []int64    // small values
	b []*big.Int // or arbitrary ones
}

func (v *vec) big(k int) *big.Int {
	if v.b != nil {
		return v.b[k]
	}
	return big.NewInt(v.i[k])
}
func (v *vec) zero(k int) bool {
	if v.b != nil {
		return v.b[k].Sign() == 0
	}
	return v.i[k] == 0
}
func (v *vec) sign(k int) int {
	if v.b != nil {
		return v.b[k].Sign()
	}
	switch {
	case v.i[k] < 0:
		return -1
	case v.i[k] > 0:
		return 1
	}
	return 0
}

// pack keeps the vector in machine integers when every value is small
func pack(b []*big.Int) *vec {
	for _, x := range b {
		if x.BitLen() > 31 {
			return &vec{b: b}
		}
	}
	v := &vec{i: make([]int64, len(b))}
	for k, x := range b {
		v.i[k] = x.Int64()
	}
	return v
}

func (v *vec) sig(s Sort) string {
	h := sha256.New()
	var buf [8]byte
	small := v.b == nil
	if small {
		for _, x := range v.i {
			binary.LittleEndian.PutUint64(buf[:], uint64(x))
			h.Write(buf[:])
		}
	} else {
		h.Write([]byte("big"))
		for _, x := range v.b {
			h.Write([]byte(x.String()))
			h.Write([]byte{' '})
		}
	}
	return fmt.Sprint(s) + string(h.Sum(nil)[:12])
}

// simulate evaluates nodes (children first) on K valuations given by pick.
func simulate(nodes []*T, K int, pick func(t *T, k int) *big.Int) (map[*T]*vec, bool) {
	val := make(map[*T]*vec, len(nodes))
	const lim = int64(1) << 31
	for _, t := range nodes {
		as := make([]*vec, len(t.Args))
		small := true
		for i, a := range t.Args {
			as[i] = val[a]
			small = small && as[i].b == nil
		}
		var r *vec
		bools := func(f func(k int) bool) {
			r = &vec{i: make([]int64, K)}
			for k := range r.i {
				if f(k) {
					r.i[k] = 1
				}
			}
		}
		bigs := func(f func(k int) *big.Int) {
			b := make([]*big.Int, K)
			for k := range b {
				b[k] = f(k)
			}
			r = pack(b)
		}
		ints := func(f func(k int) int64) {
			i := make([]int64, K)
			over := false
			for k := range i {
				i[k] = f(k)
				over = over || i[k] > lim || i[k] < -lim
			}
			r = &vec{i: i}
			if over {
				b := make([]*big.Int, K)
				for k := range b {
					b[k] = big.NewInt(i[k])
				}
				r = &vec{b: b}
			}
		}
		switch t.Op {
		case OConst:
			bigs(func(int) *big.Int { return t.C })
		case OVar:
			bigs(func(k int) *big.Int { return pick(t, k) })
		case OLin:
			ok := small && t.C.BitLen() < 31 && len(t.Args) < 1000
			cs := make([]int64, len(t.Args))
			for i, c := range t.Coef {
				ok = ok && c.BitLen() < 20
				cs[i] = c.Int64()
			}
			if ok {
				c0 := t.C.Int64()
				ints(func(k int) int64 {
					s := c0
					for i, c := range cs {
						s += c * as[i].i[k]
					}
					return s
				})
			} else {
				bigs(func(k int) *big.Int {
					s := new(big.Int).Set(t.C)
					for i, c := range t.Coef {
						s.Add(s, new(big.Int).Mul(c, as[i].big(k)))
					}
					return s
				})
			}
		case OMul:
			if small && len(as) == 2 {
				ints(func(k int) int64 { return as[0].i[k] * as[1].i[k] })
			} else {
				bigs(func(k int) *big.Int {
					p := as[0].big(k)
					for _, a := range as[1:] {
						p = new(big.Int).Mul(p, a.big(k))
					}
					return p
				})
			}
		case ODiv:
			if small && t.C.BitLen() < 31 {
				c := t.C.Int64()
				ints(func(k int) int64 {
					x := as[0].i[k]
					q := x / c
					if x%c < 0 {
						q--
					}
					return q
				})
			} else {
				bigs(func(k int) *big.Int { return fdiv(as[0].big(k), t.C) })
			}
		case OMod:
			nonneg := small
			if small {
				for _, x := range as[0].i {
					nonneg = nonneg && x >= 0
				}
			}
			if nonneg && t.C.BitLen() > 32 {
				r = as[0]
			} else {
				bigs(func(k int) *big.Int { return emod(as[0].big(k), t.C) })
			}
		case OIte:
			if small {
				ints(func(k int) int64 {
					if as[0].i[k] != 0 {
						return as[1].i[k]
					}
					return as[2].i[k]
				})
			} else {
				bigs(func(k int) *big.Int {
					if !as[0].zero(k) {
						return as[1].big(k)
					}
					return as[2].big(k)
				})
			}
		case OB2I:
			r = as[0]
		case OApp, OBApp:
			bigs(func(k int) *big.Int {
				xs := make([]*big.Int, len(as))
				for i := range as {
					xs[i] = as[i].big(k)
				}
				if f, ok := appEval[t.Name]; ok {
					return f(xs)
				}
				h := sha256.Sum256([]byte(fmt.Sprint(t.Name, xs)))
				v := new(big.Int).SetBytes(h[:])
				if t.Op == OBApp {
					return emod(v, b2)
				}
				if t.lo != nil && t.hi != nil {
					d := new(big.Int).Sub(t.hi, t.lo)
					return v.Add(emod(v, d.Add(d, b1)), t.lo)
				}
				return v
			})
		case ONot:
			bools(func(k int) bool { return as[0].zero(k) })
		case OAnd:
			bools(func(k int) bool {
				for _, a := range as {
					if a.zero(k) {
						return false
					}
				}
				return true
			})
		case OXor:
			bools(func(k int) bool {
				x := false
				for _, a := range as {
					x = x != !a.zero(k)
				}
				return x
			})
		case OEq0:
			bools(func(k int) bool { return as[0].zero(k) })
		case OLe0:
			bools(func(k int) bool { return as[0].sign(k) <= 0 })
		case OBit:
			if small && t.I < 31 {
				bools(func(k int) bool { return as[0].i[k]>>uint(t.I)&1 == 1 })
			} else {
				bools(func(k int) bool { return emod(fdiv(as[0].big(k), pow2(t.I)), b2).Sign() != 0 })
			}
		default:
			return nil, false
		}
		val[t] = r
	}
	return val, true
}

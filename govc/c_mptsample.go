package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// Samplers for the MPT contracts: honest proofs built bottom-up, most of them
// then disturbed in one place.

func keccakBytes(in []byte) []byte {
	var s [25]uint64
	p := append([]byte{}, in...)
	p = append(p, 1)
	for len(p)%136 != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] ^= 0x80
	for o := 0; o < len(p); o += 136 {
		for i, c := range p[o : o+136] {
			s[i/8] ^= uint64(c) << (8 * (i % 8))
		}
		keccakFNative(&s)
	}
	out := make([]byte, 32)
	for i := range out {
		out[i] = byte(s[i/8] >> (8 * (i % 8)))
	}
	return out
}

func unhex(n []byte) (out []byte) {
	for i := 0; i+1 < len(n); i += 2 {
		out = append(out, n[i]<<4|n[i+1])
	}
	return
}

func hpPath(nib []byte, leaf bool) ([]byte, int) {
	f := byte(0)
	if leaf {
		f = 2
	}
	if len(nib)%2 == 1 {
		return unhex(append([]byte{f + 1}, nib...)), 1
	}
	return unhex(append([]byte{f, 0}, nib...)), 2
}

func rlpListOf(items ...[]byte) []byte {
	var body []byte
	for _, d := range items {
		body = append(body, rlpHex(d)...)
	}
	return unhex(append(rlpHead(0xc0, len(body)/2), body...))
}

func rndNib(r *rand.Rand, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(r.Intn(16))
	}
	return out
}

func rndBytes(r *rand.Rand, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(r.Intn(256))
	}
	return out
}

func accountValue(r *rand.Rand) []byte {
	tr := func(n int) []byte {
		b := rndBytes(r, r.Intn(n+1))
		for len(b) > 0 && b[0] == 0 {
			b = b[1:]
		}
		return b
	}
	return rlpListOf(tr(8), tr(12), rndBytes(r, 32), rndBytes(r, 32))
}

// mput stores nibbles (zero padded) into name_0.. of a sample
func mput(m map[string]*big.Int, name string, nib []byte) {
	for i := 0; ; i++ {
		k := fmt.Sprintf("%s_%d", name, i)
		key := ""
		if _, ok := m[k]; ok {
			key = k
		} else {
			return
		}
		v := int64(0)
		if i < len(nib) {
			v = int64(nib[i])
		}
		m[key] = big.NewInt(v)
	}
}

func mputInts(m map[string]*big.Int, name string, xs []int) {
	for i, x := range xs {
		k := fmt.Sprintf("%s_%d", name, i)
		if _, ok := m[k]; ok {
			m[k] = big.NewInt(int64(x))
		}
	}
}

func padNode(node []byte, nibs int) ([]byte, int) {
	p := append(append([]byte{}, node...), 1)
	for len(p)%136 != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] ^= 0x80
	n := hexOf(p)
	for len(n) < nibs {
		n = append(n, 0)
	}
	return n, len(p)/136 - 1
}

// disturb changes one thing in a sample
func disturb(r *rand.Rand, m map[string]*big.Int, skip ...string) {
	pre := map[string][]string{}
	var names []string
	for k := range m {
		p := k
		if i := strings.LastIndex(k, "_"); i > 0 {
			p = k[:i]
		}
		if pre[p] == nil {
			names = append(names, p)
		}
		pre[p] = append(pre[p], k)
	}
	sortStrings(names)
	p := names[r.Intn(len(names))]
	ks := pre[p]
	sortStrings(ks)
	k := ks[r.Intn(len(ks))]
	if r.Intn(2) == 0 && len(ks) > 8 { // near the front: headers and flags
		var front []string
		for _, x := range ks {
			if i := strings.LastIndex(x, "_"); len(x)-i <= 2 {
				front = append(front, x)
			}
		}
		if len(front) > 0 {
			k = front[r.Intn(len(front))]
		}
	}
	if len(ks) > 8 {
		m[k] = big.NewInt(int64(r.Intn(16)))
		return
	}
	m[k] = big.NewInt(int64(r.Intn(4)) + m[k].Int64()%64 - 1)
	if m[k].Sign() < 0 {
		m[k] = new(big.Int)
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// rename maps the plain names of a sample to its variables (name_i!n)
type plain struct {
	m   map[string]*big.Int
	ren map[string]string
}

func plainNames(m map[string]*big.Int) (map[string]*big.Int, map[string]string) {
	q, ren := map[string]*big.Int{}, map[string]string{}
	for k, v := range m {
		p := k
		if i := strings.IndexByte(k, '!'); i > 0 {
			p = k[:i]
		}
		q[p], ren[p] = v, k
	}
	return q, ren
}

func mptSample(f func(r *rand.Rand, m map[string]*big.Int)) func(r *rand.Rand, m map[string]*big.Int, b *B) {
	return func(r *rand.Rand, m map[string]*big.Int, b *B) {
		q, ren := plainNames(m)
		for k := range q {
			q[k] = new(big.Int)
		}
		f(r, q)
		for i := []int{0, 0, 1, 1, 2}[r.Intn(5)]; i > 0; i-- {
			disturb(r, q)
		}
		for k, v := range q {
			if old, ok := ren[k]; ok {
				m[old] = v
			}
		}
	}
}

func leafSample(key, val int) func(*rand.Rand, map[string]*big.Int, *B) {
	return mptSample(func(r *rand.Rand, m map[string]*big.Int) {
		n := r.Intn(key + 1)
		path := rndNib(r, n)
		hp, pl := hpPath(path, true)
		v := rndBytes(r, 1+r.Intn(val/2))
		if val == 66 {
			v = rlpString(rndBytes(r, 1+r.Intn(32)))
		}
		claimed := v
		key := append([]byte{}, path...)
		if r.Intn(3) == 0 {
			claimed = []byte{0x80}
			if n > 0 && r.Intn(3) > 0 {
				key[r.Intn(n)] ^= 1
			}
		}
		m["n"], m["pl"] = big.NewInt(int64(n)), big.NewInt(int64(pl))
		mput(m, "key", key)
		mput(m, "values", hexOf(claimed))
		mput(m, "node", hexOf(rlpListOf(hp, v)))
	})
}

func rlpString(d []byte) []byte { return unhex(rlpHex(d)) }

func extSample(key int) func(*rand.Rand, map[string]*big.Int, *B) {
	return mptSample(func(r *rand.Rand, m map[string]*big.Int) {
		n := r.Intn(key) + 1
		path := rndNib(r, n)
		hp, pl := hpPath(path, false)
		ref := rndBytes(r, 32)
		k := append([]byte{}, path...)
		if r.Intn(3) == 0 {
			k[r.Intn(n)] ^= 1
		}
		m["n"], m["pl"], m["rl"] = big.NewInt(int64(n)), big.NewInt(int64(pl)), big.NewInt(64)
		mput(m, "key", k)
		mput(m, "ref", hexOf(ref))
		mput(m, "node", hexOf(rlpListOf(hp, ref)))
	})
}

func branchOf(r *rand.Rand, at int, ref []byte) []byte {
	var it [17][]byte
	for i := 0; i < 16; i++ {
		if r.Intn(2) == 0 {
			it[i] = rndBytes(r, 32)
		}
	}
	it[at] = ref
	return rlpListOf(it[:]...)
}

func branchSample() func(*rand.Rand, map[string]*big.Int, *B) {
	return mptSample(func(r *rand.Rand, m map[string]*big.Int) {
		at := r.Intn(16)
		ref := rndBytes(r, 32)
		rl := int64(64)
		if r.Intn(3) == 0 {
			ref, rl = nil, 0
		}
		m["nib"] = big.NewInt(int64(at))
		if _, ok := m["rl"]; ok {
			m["rl"] = big.NewInt(rl)
		}
		mput(m, "ref", hexOf(ref))
		mput(m, "node", hexOf(branchOf(r, at, ref)))
	})
}

// proofSample: a proof of depth at most D for a key of keyN nibbles; val is the
// width of the claimed value (0: the last reference is public)
func proofSample(D, keyN, val, lastN int, sto bool) func(*rand.Rand, map[string]*big.Int, *B) {
	return mptSample(func(r *rand.Rand, m map[string]*big.Int) { proofBody(r, m, D, keyN, val, lastN, sto, nil) })
}

// under: the part of a sample with a name prefix, as a sample of its own
func under(m map[string]*big.Int, pre string, f func(map[string]*big.Int)) {
	s := map[string]*big.Int{}
	for k, v := range m {
		if strings.HasPrefix(k, pre) {
			s[k[len(pre):]] = v
		}
	}
	f(s)
	for k, v := range s {
		m[pre+k] = v
	}
}

// proofBody fills in one proof; held is the value the trie holds (random when nil).
// The root is returned.
func proofBody(r *rand.Rand, m map[string]*big.Int, D, keyN, val, lastN int, sto bool, held []byte) []byte {
	depth := 1 + r.Intn(D)
	if val == 0 && depth == 1 && D > 1 {
		depth = 2
	}
	key := rndNib(r, keyN)
	// starts of the layers
	types := make([]int, D-1)
	starts := make([]int, D)
	at := 0
	for l := 0; l < depth-1; l++ {
		starts[l] = at
		if r.Intn(3) == 0 && (l == 0 || types[l-1] == 0) {
			types[l] = 1
			at += 1 + r.Intn(2)
		} else {
			at++
		}
	}
	starts[depth-1] = at
	for l := depth; l < D; l++ {
		starts[l] = keyN
	}
	for l := depth - 1; l < D-1; l++ {
		types[l] = 1
	}
	// last node
	rest := key[at:]
	ext := func(path, ref []byte) ([]byte, int) {
		hp, pl := hpPath(path, false)
		return rlpListOf(hp, ref), pl
	}
	var last, claimed []byte
	pl := 0
	if val > 0 {
		v := rlpString(rndBytes(r, 1+r.Intn(32)))
		if val == 228 {
			v = accountValue(r)
		}
		if held != nil {
			v = held
		}
		path := append([]byte{}, rest...)
		claimed = v
		kind := r.Intn(4)
		if held != nil {
			kind = 0
		}
		if kind == 3 && !sto {
			kind = 1
		}
		switch kind {
		case 0, 2:
		case 1:
			claimed = []byte{0x80}
			path[r.Intn(len(path))] ^= 1
		case 3:
			claimed = []byte{0x80}
		}
		if kind == 3 && r.Intn(2) == 0 {
			last = branchOf(r, int(key[at]), nil)
			if r.Intn(4) == 0 {
				last = branchOf(r, int(key[at]), rndBytes(r, 32))
			}
		} else if kind == 3 {
			p := append([]byte{}, rest[:1+r.Intn(len(rest)-1)]...)
			if r.Intn(4) > 0 {
				p[r.Intn(len(p))] ^= 1
			}
			last, pl = ext(p, rndBytes(r, 32))
		} else {
			var hp []byte
			hp, pl = hpPath(path, true)
			last = rlpListOf(hp, v)
		}
	} else {
		last = rndBytes(r, 100)
	}
	ref := keccakBytes(last)
	if val == 0 {
		m["leaf_0"] = new(big.Int).SetBytes(ref[:16])
		m["leaf_1"] = new(big.Int).SetBytes(ref[16:])
		m["keyLen"] = big.NewInt(int64(keyN))
	} else {
		n, rd := padNode(last, lastN)
		mput(m, "last", n)
		m["lastRound"] = big.NewInt(int64(rd))
		m["pl"] = big.NewInt(int64(pl))
		mput(m, "value", hexOf(claimed))
	}
	npl, rounds := make([]int, D-1), make([]int, D-1)
	for l := depth - 2; l >= 0; l-- {
		var node []byte
		if types[l] == 1 {
			node, npl[l] = ext(key[starts[l]:starts[l+1]], ref)
		} else {
			node = branchOf(r, int(key[starts[l]]), ref)
		}
		n, rd := padNode(node, 1088)
		rounds[l] = rd
		mput(m, fmt.Sprintf("node%d", l), n)
		ref = keccakBytes(node)
	}
	mput(m, "key", key)
	mput(m, "root", hexOf(ref))
	mputInts(m, "starts", starts)
	mputInts(m, "types", types)
	mputInts(m, "npl", npl)
	mputInts(m, "rounds", rounds)
	m["depth"] = big.NewInt(int64(depth))
	return ref
}

// headerOf: a block header with the given state root
func headerOf(r *rand.Rand, stateRoot []byte) ([]byte, int) {
	num := func(n int) []byte {
		b := rndBytes(r, 1+r.Intn(n))
		b[0] |= 1
		return b
	}
	items := [][]byte{rndBytes(r, 32), rndBytes(r, 32), rndBytes(r, 20), stateRoot, rndBytes(r, 32), rndBytes(r, 32), rndBytes(r, 256),
		nil, num(4), num(4), num(4), num(4), rndBytes(r, r.Intn(32)), rndBytes(r, 32), rndBytes(r, 8), num(5), rndBytes(r, 32)}
	if r.Intn(2) == 0 {
		items[7] = num(7)
	}
	n := 17
	switch r.Intn(3) {
	case 0:
		n = 16
	case 1:
		n = 15
	}
	return rlpListOf(items[:n]...), n
}

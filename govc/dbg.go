package main

import "fmt"

// dbgXor prints how the two sides of a failed equivalence differ.
func dbgXor(t *T) {
	if t.Op == ONot {
		t = t.Args[0]
	}
	in := map[*T]int{}
	for i, a := range t.Args {
		as := []*T{a}
		if a.Op == ONot {
			a = a.Args[0]
		}
		if a.Op == OAnd {
			as = a.Args
		}
		for _, x := range as {
			in[x] |= 1 << i
		}
	}
	for i, a := range t.Args {
		as := []*T{a}
		neg := a.Op == ONot
		if neg {
			a = a.Args[0]
		}
		if a.Op == OAnd {
			as = a.Args
		}
		fmt.Println("  side", i, a.Op, neg, len(as))
		nd := 0
		for _, x := range as {
			if in[x] < 3 {
				nd++
				if nd > 9 {
					continue
				}
				fmt.Println("     ", trunc(shallow(x, 5), 700))
				dbgMod(x)
			}
		}
	}
}

func dbgMod(t *T) {
	if t.Op == OMod {
		for i, a := range t.Args[0].Args {
			fmt.Println("   MODARG", i, a.lo, a.hi, trunc(shallow(a, 3), 200))
			if a.Op == OIte {
				for j, b := range a.Args[1:] {
					fmt.Println("   BR", j, b.lo, b.hi)
					for k, c := range b.Args {
						fmt.Println("       ", k, c.lo, c.hi, trunc(shallow(c, 4), 300))
					}
				}
			}
		}
		return
	}
	if t.Op == OLin || t.Op == OEq0 {
		for _, a := range t.Args {
			dbgMod(a)
		}
	}
}

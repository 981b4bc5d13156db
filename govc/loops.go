package main

import (
	"os"
	"time"
)

// Loop handling.  Loops whose trip count is decided by concrete values are
// unrolled exactly; loops with a symbolic trip count are cut at an invariant.

type tracker struct {
	objs map[*Obj]bool
}
type activeLoop struct {
	info *loopInfo
}

func (x *Exec) track(st *State, p Ptr) {
	for _, t := range x.trackers {
		t.objs[p.o] = true
	}
}

func (x *Exec) atHeader(st *State, f *Frame, li *loopInfo) bool {
	f.visits[li.header]++
	if f.visits[li.header] > x.loopUnr*100 {
		unsup("loop limit at %s", x.posOf(li.pos))
	}
	return true
}

func quickSat(h []*T, lim time.Duration) bool {
	for _, t := range h {
		if t == False {
			return false
		}
	}
	r := Solve(slice(h, h[len(h)-1]), False, nil, lim)
	return r.Verdict != "unsat"
}

func init() { _ = os.Getenv }

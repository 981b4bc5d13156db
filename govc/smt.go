package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// axioms emitted when the named function occurs
var axioms = map[string][]string{
	"pow2": {
		"(assert (= (pow2 0) 1))",
		"(assert (forall ((k Int)) (! (=> (>= k 0) (and (= (pow2 (+ k 1)) (* 2 (pow2 k))) (>= (pow2 k) 1))) :pattern ((pow2 k)))))",
	},
}

func smtInt(c *big.Int) string {
	if c.Sign() < 0 {
		return "(- " + new(big.Int).Neg(c).String() + ")"
	}
	return c.String()
}

type emitter struct {
	buf   bytes.Buffer
	names map[*T]string
	refs  map[*T]int
	decl  []*T
	rng   []*T // applications of known range
	apps  map[string]int
	bapps map[string]int
	inB   map[*T]bool // depends on a bound variable
}

func (e *emitter) count(t *T) {
	e.refs[t]++
	if e.refs[t] > 1 {
		return
	}
	for _, a := range t.Args {
		e.count(a)
	}
	switch t.Op {
	case OVar:
		if !strings.Contains(t.Name, "?") {
			e.decl = append(e.decl, t)
		}
	case OApp:
		e.apps[t.Name] = len(t.Args)
		if t.lo != nil && t.hi != nil {
			e.rng = append(e.rng, t)
		}
	case OBApp:
		e.bapps[t.Name] = len(t.Args)
	}
}

func (e *emitter) dep(t *T) bool {
	if v, ok := e.inB[t]; ok {
		return v
	}
	e.inB[t] = false
	r := t.Op == OVar && strings.Contains(t.Name, "?")
	for _, a := range t.Args {
		if e.dep(a) {
			r = true
		}
	}
	if t.Op == OForall {
		r = true // keep quantifiers inline
	}
	e.inB[t] = r
	return r
}

func sname(n string) string { return "|" + n + "|" }

func (e *emitter) emit(t *T) string {
	if s, ok := e.names[t]; ok {
		return s
	}
	var sb strings.Builder
	w := func(s string) { sb.WriteString(s) }
	switch t.Op {
	case OConst:
		if t.Sort == SBool {
			if t.C.Sign() != 0 {
				return "true"
			}
			return "false"
		}
		return smtInt(t.C)
	case OVar:
		return sname(t.Name)
	case OLin:
		var s []string
		if t.C.Sign() != 0 {
			s = append(s, smtInt(t.C))
		}
		for i, a := range t.Args {
			if t.Coef[i].Cmp(b1) == 0 {
				s = append(s, e.emit(a))
			} else {
				s = append(s, "(* "+smtInt(t.Coef[i])+" "+e.emit(a)+")")
			}
		}
		if len(s) == 1 {
			w(s[0])
		} else {
			w("(+ " + strings.Join(s, " ") + ")")
		}
	case OMul:
		w("(* " + e.emit(t.Args[0]) + " " + e.emit(t.Args[1]) + ")")
	case ODiv:
		w("(div " + e.emit(t.Args[0]) + " " + smtInt(t.C) + ")")
	case OMod:
		w("(mod " + e.emit(t.Args[0]) + " " + smtInt(t.C) + ")")
	case OIte, OIteA:
		w("(ite " + e.emit(t.Args[0]) + " " + e.emit(t.Args[1]) + " " + e.emit(t.Args[2]) + ")")
	case OB2I:
		w("(ite " + e.emit(t.Args[0]) + " 1 0)")
	case OSelect:
		w("(select " + e.emit(t.Args[0]) + " " + e.emit(t.Args[1]) + ")")
	case OStore:
		w("(store " + e.emit(t.Args[0]) + " " + e.emit(t.Args[1]) + " " + e.emit(t.Args[2]) + ")")
	case OApp, OBApp:
		if len(t.Args) == 0 {
			w(sname(t.Name))
		} else {
			w("(" + sname(t.Name))
			for _, a := range t.Args {
				w(" " + e.emit(a))
			}
			w(")")
		}
	case ONot:
		w("(not " + e.emit(t.Args[0]) + ")")
	case OAnd, OXor:
		if t.Op == OAnd {
			w("(and")
		} else {
			w("(xor")
		}
		for _, a := range t.Args {
			w(" " + e.emit(a))
		}
		w(")")
	case OEq0, OLe0:
		op := "="
		if t.Op == OLe0 {
			op = "<="
		}
		l := t.Args[0]
		if l.Op == OLin {
			pos, neg := newLin(), newLin()
			for i, a := range l.Args {
				if l.Coef[i].Sign() > 0 {
					pos.add(a, l.Coef[i])
				} else {
					neg.add(a, new(big.Int).Neg(l.Coef[i]))
				}
			}
			if l.C.Sign() > 0 {
				pos.c.Set(l.C)
			} else {
				neg.c.Neg(l.C)
			}
			w("(" + op + " " + e.emitLin(pos) + " " + e.emitLin(neg) + ")")
		} else {
			w("(" + op + " " + e.emit(l) + " 0)")
		}
	case OBit:
		x := e.emit(t.Args[0])
		if t.I > 0 {
			x = "(div " + x + " " + pow2(t.I).String() + ")"
		}
		w("(= (mod " + x + " 2) 1)")
	case OForall:
		w("(forall ((" + sname(t.Args[0].Name) + " Int)) " + e.emit(t.Args[1]) + ")")
	case OEqA:
		w("(= " + e.emit(t.Args[0]) + " " + e.emit(t.Args[1]) + ")")
	}
	s := sb.String()
	if e.refs[t] > 1 && !e.dep(t) && len(s) > 12 {
		n := fmt.Sprintf("n%d", t.id)
		srt := map[Sort]string{SBool: "Bool", SInt: "Int", SArr: "(Array Int Int)"}[t.Sort]
		fmt.Fprintf(&e.buf, "(define-fun %s () %s %s)\n", n, srt, s)
		e.names[t] = n
		return n
	}
	return s
}

func (e *emitter) emitLin(l *linB) string {
	var s []string
	as := l.keysLin()
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		if l.m[a].Cmp(b1) == 0 {
			s = append(s, e.emit(a))
		} else {
			s = append(s, "(* "+smtInt(l.m[a])+" "+e.emit(a)+")")
		}
	}
	if l.c.Sign() != 0 || len(s) == 0 {
		s = append(s, smtInt(l.c))
	}
	if len(s) == 1 {
		return s[0]
	}
	return "(+ " + strings.Join(s, " ") + ")"
}

// Script builds the SMT-LIB query hyps /\ not goal.
func Script(hyps []*T, goal *T, extra []string) (string, []*T) {
	e := &emitter{names: map[*T]string{}, refs: map[*T]int{}, apps: map[string]int{}, bapps: map[string]int{}, inB: map[*T]bool{}}
	all := append(append([]*T{}, hyps...), goal)
	for _, h := range all {
		e.count(h)
	}
	var head bytes.Buffer
	head.WriteString("(set-logic ALL)\n")
	for _, v := range e.decl {
		srt := map[Sort]string{SBool: "Bool", SInt: "Int", SArr: "(Array Int Int)"}[v.Sort]
		fmt.Fprintf(&head, "(declare-fun %s () %s)\n", sname(v.Name), srt)
		if v.Sort == SInt {
			if lo := declLo[v]; lo != nil {
				fmt.Fprintf(&head, "(assert (<= %s %s))\n", smtInt(lo), sname(v.Name))
			}
			if hi := declHi[v]; hi != nil {
				fmt.Fprintf(&head, "(assert (<= %s %s))\n", sname(v.Name), smtInt(hi))
			}
		}
		if v.Sort == SArr {
			if b, ok := arrBounds[v]; ok && b[0] != nil && b[1] != nil {
				fmt.Fprintf(&head, "(assert (forall ((k Int)) (! (and (<= %s (select %s k)) (<= (select %s k) %s)) :pattern ((select %s k)))))\n",
					smtInt(b[0]), sname(v.Name), sname(v.Name), smtInt(b[1]), sname(v.Name))
			}
		}
	}
	emitF := func(m map[string]int, srt string) {
		var ns []string
		for n := range m {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Fprintf(&head, "(declare-fun %s (%s) %s)\n", sname(n), strings.TrimSpace(strings.Repeat("Int ", m[n])), srt)
		}
		for _, n := range ns {
			for _, a := range axioms[n] {
				head.WriteString(a + "\n")
			}
		}
	}
	emitF(e.apps, "Int")
	emitF(e.bapps, "Bool")
	for _, x := range extra {
		head.WriteString(x + "\n")
	}
	for _, h := range hyps {
		s := e.emit(h)
		fmt.Fprintf(&e.buf, "(assert %s)\n", s)
	}
	s := e.emit(goal)
	for _, t := range e.rng {
		if !e.dep(t) {
			fmt.Fprintf(&e.buf, "(assert (<= %s %s %s))\n", smtInt(t.lo), e.emit(t), smtInt(t.hi))
		}
	}
	fmt.Fprintf(&e.buf, "(assert (not %s))\n(check-sat)\n", s)
	var scal []*T
	for _, v := range e.decl {
		if v.Sort != SArr {
			scal = append(scal, v)
		}
	}
	return head.String() + e.buf.String(), scal
}

type SolveRes struct {
	Verdict string // unsat sat unknown
	Solver  string
	Dur     time.Duration
	Model   map[string]*big.Int
	Raw     string
	Script  string
}

func runSolver(ctx context.Context, name string, argv []string, script string) (string, error) {
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	return out.String(), err
}

type solverDef struct {
	name string
	argv []string
}

// Solve runs a portfolio; first definite answer wins.
func Solve(hyps []*T, goal *T, extra []string, tmo time.Duration) SolveRes {
	script, vars := Script(hyps, goal, extra)
	return solveScript(script, vars, tmo)
}

func solveScript(script string, vars []*T, tmo time.Duration) SolveRes {
	full := script
	if len(vars) > 0 {
		var ns []string
		for _, v := range vars {
			ns = append(ns, sname(v.Name))
		}
		full += "(get-value (" + strings.Join(ns, " ") + "))\n"
	}
	secs := int(tmo.Seconds())
	if secs < 1 {
		secs = 1
	}
	start := time.Now()
	quick := []solverDef{{"z3-5.3.2", []string{"z3-new", "-in", "-T:" + fmt.Sprint(min(secs, 4))}}}
	port := []solverDef{
		{"z3-5.3.2", []string{"z3-new", "-in", "-T:" + fmt.Sprint(secs)}},
		{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", secs*1000), "-"}},
		{"z3-4.8.12", []string{"z3", "-in", "-T:" + fmt.Sprint(secs)}},
	}
	for _, stage := range [][]solverDef{quick, port} {
		ctx, cancel := context.WithTimeout(context.Background(), tmo+5*time.Second)
		ch := make(chan SolveRes, len(stage))
		for _, sd := range stage {
			go func(sd solverDef) {
				sc := full
				if strings.HasPrefix(sd.name, "cvc5") {
					sc = "(set-option :produce-models true)\n" + sc
				}
				out, _ := runSolver(ctx, sd.name, sd.argv, sc)
				r := SolveRes{Verdict: "unknown", Solver: sd.name, Raw: out}
				f := strings.TrimSpace(out)
				if strings.HasPrefix(f, "unsat") {
					r.Verdict = "unsat"
				} else if strings.HasPrefix(f, "sat") {
					r.Verdict = "sat"
					r.Model = parseModel(f)
				}
				ch <- r
			}(sd)
		}
		var last SolveRes
		for range stage {
			r := <-ch
			last = r
			if r.Verdict != "unknown" {
				break
			}
		}
		cancel()
		last.Dur = time.Since(start)
		last.Script = script
		if last.Verdict != "unknown" {
			return last
		}
		if len(last.Raw) > 0 && strings.Contains(last.Raw, "error") && !strings.Contains(last.Raw, "model is not available") && len(stage) > 1 {
			return last
		}
		if len(stage) > 1 {
			return last
		}
	}
	return SolveRes{Verdict: "unknown"}
}

func parseModel(s string) map[string]*big.Int {
	m := map[string]*big.Int{}
	i := strings.Index(s, "((")
	if i < 0 {
		return m
	}
	toks := tokenize(s[i:])
	// ((name val) (name val) ...)
	p := 1
	for p < len(toks) && toks[p] == "(" {
		p++
		name := strings.Trim(toks[p], "|")
		p++
		neg := false
		if toks[p] == "(" {
			p++
			if toks[p] == "-" {
				neg = true
				p++
			}
		}
		var v *big.Int
		switch toks[p] {
		case "true":
			v = big.NewInt(1)
		case "false":
			v = big.NewInt(0)
		default:
			v, _ = new(big.Int).SetString(toks[p], 10)
		}
		p++
		if neg {
			p++
			if v != nil {
				v.Neg(v)
			}
		}
		for p < len(toks) && toks[p] == ")" {
			p++
			break
		}
		if v != nil {
			m[name] = v
		}
	}
	return m
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// Eval evaluates a ground term under a model; unknown symbols default to 0.
type Model struct {
	M    map[string]*big.Int
	Arr  map[string]func(i *big.Int) *big.Int
	App  map[string]func(args []*big.Int) *big.Int
	memo map[*T]*big.Int
	ok   bool
}

func NewModel(m map[string]*big.Int) *Model {
	return &Model{M: m, memo: map[*T]*big.Int{}, ok: true, Arr: map[string]func(*big.Int) *big.Int{}, App: map[string]func([]*big.Int) *big.Int{}}
}

func bb(b bool) *big.Int {
	if b {
		return b1
	}
	return b0
}

func (m *Model) Eval(t *T) *big.Int {
	if v, ok := m.memo[t]; ok {
		return v
	}
	v := m.eval(t)
	m.memo[t] = v
	return v
}
func (m *Model) eval(t *T) *big.Int {
	ev := func(i int) *big.Int { return m.Eval(t.Args[i]) }
	switch t.Op {
	case OConst:
		return t.C
	case OVar:
		if v, ok := m.M[t.Name]; ok {
			return v
		}
		if declLo[t] != nil && declLo[t].Sign() > 0 {
			return declLo[t]
		}
		return b0
	case OLin:
		r := new(big.Int).Set(t.C)
		for i := range t.Args {
			r.Add(r, new(big.Int).Mul(t.Coef[i], ev(i)))
		}
		return r
	case OMul:
		return new(big.Int).Mul(ev(0), ev(1))
	case ODiv:
		return fdiv(ev(0), t.C)
	case OMod:
		return emod(ev(0), t.C)
	case OIte:
		if ev(0).Sign() != 0 {
			return ev(1)
		}
		return ev(2)
	case OB2I:
		return ev(0)
	case OSelect:
		a := t.Args[0]
		ix := ev(1)
		for a.Op == OStore {
			if m.Eval(a.Args[1]).Cmp(ix) == 0 {
				return m.Eval(a.Args[2])
			}
			a = a.Args[0]
		}
		if f, ok := m.Arr[a.Name]; ok {
			return f(ix)
		}
		m.ok = false
		return b0
	case OApp, OBApp:
		var as []*big.Int
		for i := range t.Args {
			as = append(as, ev(i))
		}
		if f, ok := m.App[t.Name]; ok {
			return f(as)
		}
		if f, ok := appEval[t.Name]; ok {
			return f(as)
		}
		m.ok = false
		return b0
	case ONot:
		return bb(ev(0).Sign() == 0)
	case OAnd:
		for i := range t.Args {
			if ev(i).Sign() == 0 {
				return b0
			}
		}
		return b1
	case OXor:
		x := 0
		for i := range t.Args {
			if ev(i).Sign() != 0 {
				x ^= 1
			}
		}
		return bb(x == 1)
	case OEq0:
		return bb(ev(0).Sign() == 0)
	case OLe0:
		return bb(ev(0).Sign() <= 0)
	case OBit:
		return bb(emod(fdiv(ev(0), pow2(t.I)), b2).Sign() != 0)
	}
	m.ok = false
	return b0
}

// appEval: concrete meaning of the functions contracts leave opaque to the solver.
var appEval = map[string]func([]*big.Int) *big.Int{}

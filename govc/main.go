package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

//go:embed harness/main.go.txt
var harnessSrc string

type Job struct {
	C, K   int
	Replay bool
	Models []map[string]string
	Bin    string
	Seed   int64
	N      int
	Tmo    int
	NoSum  []string
}

type JobRes struct {
	C, K    int
	Name    string
	Err     string
	Obls    []OblRes
	Total   int
	Disch   int
	Triv    int
	By      map[string]int
	SolveMs int64
	SymMs   int64
	Steps   int64
	Used    []string
	Inlined []string
	Trusted []string
	Vac     string
	// replay
	Found  string // description of the failing input
	Input  json.RawMessage
	Got    json.RawMessage
	Expect string
	Tried  int
	Crash  string
}

func repoDir() string {
	if r := os.Getenv("GOVC_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func instOverlay() map[string][]byte {
	// only what is needed to instantiate generics for the loader
	var gs []*Contract
	for _, c := range contracts {
		if strings.Contains(c.Fn, "[") {
			gs = append(gs, c)
		}
	}
	return exportOverlay(repoDir(), gs)
}

func jobName(j Job) string {
	c := contracts[j.C]
	return c.Key() + "/" + c.Cases[j.K].Name
}

func symbolicJob(P *Program, j Job) (jr JobRes) {
	jr = JobRes{C: j.C, K: j.K, Name: jobName(j), By: map[string]int{}}
	resetTerms()
	fvMemo = nil
	c := contracts[j.C]
	r := runCase(P, c, c.Cases[j.K], j.NoSum...)
	jr.Err = r.Err
	jr.SymMs = r.SymTime.Milliseconds()
	jr.Steps = r.Exec.steps
	for n := range r.Exec.used {
		jr.Used = append(jr.Used, n)
	}
	for n := range r.Exec.inlined {
		jr.Inlined = append(jr.Inlined, n)
	}
	for n := range r.Exec.trusted {
		jr.Trusted = append(jr.Trusted, n)
	}
	if r.Err != "" {
		return
	}
	t0 := time.Now()
	tmo := time.Duration(j.Tmo) * time.Second
	sweepOn = c.Sweep
	res := discharge(r.Obls, tmo)
	jr.Vac = vacuity(r)
	jr.SolveMs = time.Since(t0).Milliseconds()
	for _, o := range res {
		jr.Total++
		if o.Verdict == "discharged" {
			jr.Disch++
			jr.By[o.Solver]++
		} else {
			jr.Obls = append(jr.Obls, o)
		}
	}
	return
}

// vacuity: the hypotheses of the returning path must be satisfiable.
func vacuity(r *CaseResult) string {
	// a sampled input satisfying the precondition (and the circuit condition) is a witness
	rng := rand.New(rand.NewSource(7))
	for i := 0; i < 200; i++ {
		m := NewModel(sample(r, rng, i))
		ok := true
		for _, p := range r.Env.Pre {
			if m.Eval(p).Sign() == 0 {
				ok = false
			}
		}
		for _, p := range r.Env.Cons {
			if m.Eval(p.T).Sign() == 0 {
				ok = false
			}
		}
		if ok && m.ok {
			return ""
		}
	}
	for _, k := range r.Env.Cons {
		if k.T == False {
			return ""
		}
	}
	h := append([]*T{}, r.Env.Pre...)
	for _, k := range r.Env.Cons {
		h = append(h, k.T)
	}
	res := Solve(h, False, nil, 20*time.Second)
	if res.Verdict == "unsat" {
		return "contract hypotheses are contradictory"
	}
	return ""
}

func sample(r *CaseResult, rng *rand.Rand, i int) map[string]*big.Int {
	m := map[string]*big.Int{}
	mode := i % 6
	for _, v := range r.B.vars {
		lo, hi := declLo[v], declHi[v]
		if lo == nil {
			lo = big.NewInt(-1000)
		}
		if hi == nil {
			hi = pow2(260)
		}
		m[v.Name] = pick(rng, lo, hi, mode)
	}
	if r.Case.Sample != nil && i%8 != 7 {
		r.Case.Sample(rng, m, r.B)
		// samplers may write variables by their declared names
		for _, v := range r.B.vars {
			if i := strings.IndexByte(v.Name, '!'); i > 0 {
				if x, ok := m[v.Name[:i]]; ok {
					m[v.Name] = x
				}
			}
		}
	}
	return m
}

func pick(rng *rand.Rand, lo, hi *big.Int, mode int) *big.Int {
	span := new(big.Int).Sub(hi, lo)
	span.Add(span, b1)
	uni := func() *big.Int { return new(big.Int).Add(lo, new(big.Int).Rand(rng, span)) }
	clamp := func(x *big.Int) *big.Int {
		if x.Cmp(lo) < 0 {
			return lo
		}
		if x.Cmp(hi) > 0 {
			return hi
		}
		return x
	}
	switch mode {
	case 0:
		return uni()
	case 1:
		return lo
	case 2:
		return hi
	case 3: // small values
		return clamp(new(big.Int).Add(lo, big.NewInt(int64(rng.Intn(6)))))
	case 4: // near powers of two
		k := rng.Intn(hi.BitLen() + 1)
		return clamp(new(big.Int).Add(pow2(k), big.NewInt(int64(rng.Intn(3)-1))))
	}
	switch rng.Intn(5) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return clamp(new(big.Int).Add(lo, big.NewInt(int64(rng.Intn(4)))))
	case 3:
		return clamp(new(big.Int).Sub(hi, big.NewInt(int64(rng.Intn(4)))))
	}
	return uni()
}

// ---- native replay ----

type Native struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	w   interface{ Close() error }
}

func startNative(bin string) (*Native, error) {
	cmd := exec.Command("/bin/sh", "-c", "ulimit -v 12000000; exec "+bin)
	cmd.Dir = os.TempDir()
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=6GiB", "ZEROLOG_LEVEL=disabled")
	wi, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	ro, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if os.Getenv("GOVC_TRACE") != "" {
		cmd.Stderr = os.Stderr
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &Native{cmd: cmd, in: bufio.NewWriterSize(wi, 1<<20), out: bufio.NewReaderSize(ro, 1<<20), w: wi}, nil
}
func (n *Native) call(req J) (map[string]interface{}, error) {
	b, err := json.Marshal(req)
	if err != nil {
		return nil, err
	}
	n.in.Write(b)
	n.in.WriteByte('\n')
	if err := n.in.Flush(); err != nil {
		return nil, err
	}
	var line []byte
	for {
		var err error
		line, err = n.out.ReadBytes('\n')
		if err != nil {
			return nil, err
		}
		if bytes.HasPrefix(line, []byte("@@")) {
			line = line[2:]
			break
		}
	}
	var out map[string]interface{}
	err = json.Unmarshal(line, &out)
	return out, err
}
func (n *Native) close() {
	n.w.Close()
	done := make(chan int)
	go func() { n.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		n.cmd.Process.Kill()
	}
}

// buildNative compiles the replay driver against the repository's current tree.
func buildNative(dir string, cs []*Contract) (string, error) {
	ov := exportOverlay(repoDir(), cs)
	pk := map[string]bool{}
	for _, c := range cs {
		if !c.NoNative {
			pk[c.Pkg] = true
		}
	}
	var pks []string
	for p := range pk {
		pks = append(pks, p)
	}
	sort.Strings(pks)
	var im, tb strings.Builder
	for i, p := range pks {
		fmt.Fprintf(&im, "\tp%d %q\n", i, p)
		fmt.Fprintf(&tb, "\tp%d.VerifFuncs,\n", i)
	}
	src := strings.Replace(harnessSrc, "//IMPORTS", im.String(), 1)
	src = strings.Replace(src, "//TABLES", tb.String(), 1)
	ov[filepath.Join(repoDir(), "zz_verif_harness", "main.go")] = []byte(src)
	rep := map[string]string{}
	n := 0
	for p, b := range ov {
		f := filepath.Join(dir, fmt.Sprintf("ov%d.go", n))
		n++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return "", err
		}
		rep[p] = f
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, js, 0o644)
	bin := filepath.Join(dir, "native")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./zz_verif_harness")
	cmd.Dir = repoDir()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, trunc(string(out), 3000))
	}
	return bin, nil
}

// judge runs the real function on one input and compares with the contract.
// skip=true: input outside the contract. bad != "": the contract is violated.
func judge(r *CaseResult, nat *Native, m *Model) (skip bool, bad string, req J, got map[string]interface{}, expect string, err error) {
	for _, p := range r.Env.Pre {
		if m.Eval(p).Sign() == 0 {
			return true, "", nil, nil, "", nil
		}
	}
	consOK := true
	failed := ""
	for _, k := range r.Env.Cons {
		if m.Eval(k.T).Sign() == 0 {
			consOK = false
			failed = k.Name
		}
	}
	panics := r.Env.PanicIff != nil && m.Eval(r.Env.PanicIff).Sign() != 0
	if !m.ok {
		return true, "", nil, nil, "", nil
	}
	sig := r.B.fn
	var args []interface{}
	for i, a := range r.StartArgs {
		var j J
		if sig != nil && i < len(sig.Params) {
			j = encVal(r.Start, a, sig.Params[i].Type(), m)
		} else {
			j = encVal(r.Start, a, nil, m)
		}
		args = append(args, j)
	}
	req = J{"fn": r.C.Key(), "field": fieldP.String(), "args": args}
	got, err = nat.call(req)
	if err != nil {
		return
	}
	if got["missing"] != nil {
		return true, "", req, got, "", nil
	}
	accepted := got["panic"] == nil && got["unsat"] == nil && got["timeout"] == nil
	if got["timeout"] != nil {
		return true, "", req, got, "", nil
	}
	if panics || !consOK {
		if accepted {
			why := "must be rejected: " + failed
			if panics {
				why = "must panic"
			}
			return false, "accepted an input that " + why, req, got, why, nil
		}
		return
	}
	if !accepted {
		return false, fmt.Sprintf("rejected a valid input: %v %v", got["panic"], got["unsat"]), req, got, "accept", nil
	}
	resJ, _ := got["res"].([]interface{})
	sigR := sig.Signature.Results()
	rs := &State{x: r.Exec, mem: map[*Obj]Val{}}
	var res []Val
	for i := 0; i < sigR.Len() && i < len(resJ); i++ {
		res = append(res, decVal(rs, resJ[i], sigR.At(i).Type()))
	}
	if len(res) != sigR.Len() {
		return false, "result count", req, got, "", nil
	}
	p := &Post{e: r.Env, Res: res, st: rs}
	for i := range r.Env.Results {
		eqClauses(p, r.Start, r.Env.Results[i], rs, res[i], fmt.Sprintf("result%d", i))
	}
	if r.Env.PostF != nil {
		r.Env.PostF(p)
	}
	aft, _ := got["after"].([]interface{})
	var pt = func(i int) Val { return decVal(rs, aft[i], sig.Params[i].Type()) }
	for i, v := range r.Env.After {
		if i < len(aft) && aft[i] != nil {
			eqClauses(p, r.Start, v, rs, pt(i), fmt.Sprintf("arg%d afterwards", i))
		}
	}
	if !r.C.Mutates {
		for i, a := range r.StartArgs {
			if i < len(aft) && aft[i] != nil && r.Env.After[i] == nil {
				if j, ok := aft[i].(map[string]interface{}); ok && j["nil"] == nil {
					eqClauses(p, r.Start, a, rs, pt(i), fmt.Sprintf("frame: argument %d unchanged", i))
				}
			}
		}
	}
	for _, k := range p.Clauses {
		v := m.Eval(k.T)
		if !m.ok {
			return true, "", nil, nil, "", nil
		}
		if v.Sign() == 0 {
			return false, "violates: " + k.Name, req, got, expectStr(r, m), nil
		}
	}
	return
}

func expectStr(r *CaseResult, m *Model) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint(e)
		}
	}()
	if r.Env.Results == nil {
		return "see postcondition"
	}
	var l []interface{}
	for i, v := range r.Env.Results {
		l = append(l, encVal(r.Start, v, r.B.fn.Signature.Results().At(i).Type(), m))
	}
	b, _ := json.Marshal(l)
	return trunc(string(b), 20000)
}

func replayJob(P *Program, j Job) (jr JobRes) {
	jr = JobRes{C: j.C, K: j.K, Name: jobName(j)}
	resetTerms()
	fvMemo = nil
	c := contracts[j.C]
	r := runCaseSpecOnly(P, c, c.Cases[j.K])
	if r.Env == nil || r.B.fn == nil {
		jr.Err = "replay: " + r.Err
		return
	}
	nat, err := startNative(j.Bin)
	if err != nil {
		jr.Err = err.Error()
		return
	}
	defer func() { nat.close() }()
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("GOVC_CRASH") != "" {
				panic(e)
			}
			jr.Err = fmt.Sprint("replay: ", e)
		}
	}()
	rng := rand.New(rand.NewSource(j.Seed*7919 + int64(j.C)*31 + int64(j.K)))
	deadline := time.Now().Add(time.Duration(j.Tmo) * time.Second)
	n := j.N
	if c.Cases[j.K].Samples > 0 && c.Cases[j.K].Samples < n {
		n = c.Cases[j.K].Samples
	}
	for i := -len(j.Models); i < n; i++ {
		if time.Now().After(deadline) {
			break
		}
		var mm map[string]*big.Int
		if i < 0 {
			mm = map[string]*big.Int{}
			for k, v := range j.Models[-i-1] {
				b, _ := new(big.Int).SetString(v, 10)
				mm[k] = b
			}
		} else {
			mm = sample(r, rng, i)
		}
		skip, bad, req, got, exp, err := judge(r, nat, NewModel(mm))
		if err != nil {
			// the native process died on this input
			nat.close()
			if nat2, e2 := startNative(j.Bin); e2 == nil {
				nat = nat2
			}
			jr.Crash = err.Error()
			continue
		}
		if skip {
			continue
		}
		jr.Tried++
		if os.Getenv("GOVC_SHOW") != "" {
			gj, _ := json.Marshal(got)
			fmt.Println("   sample", i, string(gj[max(0, len(gj)-60):]))
		}
		if bad != "" {
			jr.Found = bad
			jr.Input, _ = json.Marshal(req)
			jr.Got, _ = json.Marshal(got)
			jr.Expect = exp
			return
		}
	}
	return
}

// runCaseSpecOnly builds the arguments and the specification without executing the body.
func runCaseSpecOnly(P *Program, c *Contract, cs *Case) (r *CaseResult) {
	r = &CaseResult{C: c, Case: cs}
	defer func() {
		if e := recover(); e != nil {
			r.Err = fmt.Sprint(e)
		}
	}()
	fieldP = bn254
	if c.Field != nil {
		fieldP = c.Field
	}
	fraigOn = false
	x := NewExec(P)
	x.active = c
	r.Exec = x
	st := &State{x: x, mem: map[*Obj]Val{}}
	r.B = &B{x: x, st: st}
	r.B.fn = P.Lookup(c.SSAName())
	r.StartArgs = cs.Build(r.B)
	e := &Env{x: x, st: st, fn: r.B.fn, b: r.B, Args: r.StartArgs}
	c.Spec(e)
	r.Env = e
	r.Start = st
	return
}

func workerMain() {
	P, err := LoadProgram(repoDir(), instOverlay())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	wr := bufio.NewWriter(os.Stdout)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var j Job
			json.Unmarshal(line, &j)
			var r JobRes
			if j.Replay {
				r = replayJob(P, j)
			} else {
				r = symbolicJob(P, j)
			}
			b, _ := json.Marshal(r)
			wr.Write(b)
			wr.WriteByte('\n')
			wr.Flush()
		}
		if err != nil {
			return
		}
	}
}

// poolUntil runs jobs on worker processes; a job still running at the deadline is stopped and reported as an error.
func poolUntil(jobs []Job, nw int, deadline time.Time) []JobRes {
	if nw > len(jobs) {
		nw = len(jobs)
	}
	ch := make(chan int, len(jobs))
	for i := range jobs {
		ch <- i
	}
	close(ch)
	res := make([]JobRes, len(jobs))
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in *bufio.Writer
			var out *bufio.Reader
			var cl interface{ Close() error }
			start := func() {
				cmd = exec.Command(self, "worker")
				cmd.Env = append(os.Environ(), "GOGC=200", "GOMEMLIMIT=5GiB")
				cmd.Stderr = os.Stderr
				wi, _ := cmd.StdinPipe()
				ro, _ := cmd.StdoutPipe()
				cl = wi
				in, out = bufio.NewWriter(wi), bufio.NewReaderSize(ro, 1<<20)
				if err := cmd.Start(); err != nil {
					fmt.Fprintln(os.Stderr, err)
				}
			}
			start()
			for i := range ch {
				if time.Now().After(deadline) {
					res[i] = JobRes{C: jobs[i].C, K: jobs[i].K, Name: jobName(jobs[i]), Err: "time budget exhausted"}
					continue
				}
				b, _ := json.Marshal(jobs[i])
				in.Write(b)
				in.WriteByte('\n')
				in.Flush()
				left := time.Until(deadline)
				if left < time.Second {
					left = time.Second
				}
				tm := time.AfterFunc(left, func() { cmd.Process.Kill() })
				line, err := out.ReadBytes('\n')
				tm.Stop()
				if err != nil {
					res[i] = JobRes{C: jobs[i].C, K: jobs[i].K, Name: jobName(jobs[i]), Err: "worker died: " + err.Error()}
					cmd.Wait()
					start()
					continue
				}
				json.Unmarshal(line, &res[i])
			}
			cl.Close()
			cmd.Wait()
		}()
	}
	wg.Wait()
	return res
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		workerMain()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		os.Exit(replayMain(os.Args[2]))
	}
	if len(os.Args) > 1 && os.Args[1] == "one" {
		oneMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "conform" {
		conformMain(os.Args[2:])
		return
	}
	fmt.Println("usage: govc check -prop ID [-tier quick|thorough] | one PATTERN | conform PATTERN")
	os.Exit(2)
}

func selectJobs(pat string, thorough bool) (js []Job) {
	for ci, c := range contracts {
		for ki, k := range c.Cases {
			n := c.Key() + "/" + k.Name
			if pat != "" && !strings.Contains(n, pat) && !hasProp(c, pat) {
				continue
			}
			if k.Thorough && !thorough && os.Getenv("GOVC_THOROUGH") == "" {
				continue
			}
			js = append(js, Job{C: ci, K: ki, Tmo: 40, Seed: 1, N: 200})
		}
	}
	return
}

// one: debugging entry, verifies matching cases in-process.
func oneMain(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	v := fs.Bool("v", false, "")
	th := fs.Bool("t", false, "")
	fs.Parse(args)
	P, err := LoadProgram(repoDir(), instOverlay())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, e := range P.errs {
		fmt.Println("load:", e)
	}
	solverPar = 8
	for _, j := range selectJobs(fs.Arg(0), *th) {
		r := symbolicJob(P, j)
		st := "OK"
		if r.Err != "" || r.Disch != r.Total || r.Total == 0 || r.Vac != "" {
			st = "FAIL"
		}
		fmt.Printf("%-5s %s: %d/%d obligations, %v, sym %dms, solve %dms %s %s\n", st, r.Name, r.Disch, r.Total, r.By, r.SymMs, r.SolveMs, r.Err, r.Vac)
		for i, o := range r.Obls {
			if i < 8 {
				fmt.Printf("      %s %s [%s] %s %s\n", o.Verdict, o.Name, o.Kind, o.Pos, o.Solver)
				if *v {
					fmt.Println("        goal:", o.goal)
					fmt.Println("        model:", trunc(fmt.Sprint(o.Model), 600), trunc(o.Raw, 300))
				}
			}
		}
		if *v {
			fmt.Println("      inlined", r.Inlined, "used", r.Used, "trusted", r.Trusted)
		}
	}
}

// conform: development cross-check of specifications and engine against the real code on random inputs.
func conformMain(args []string) {
	fs := flag.NewFlagSet("conform", flag.ExitOnError)
	n := fs.Int("n", 60, "")
	sy := fs.Bool("sym", false, "also evaluate the symbolically executed results")
	fs.Parse(args)
	_ = sy
	js := selectJobs(fs.Arg(0), true)
	dir, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(dir)
	var cs []*Contract
	seen := map[int]bool{}
	for _, j := range js {
		if !seen[j.C] {
			seen[j.C] = true
			cs = append(cs, contracts[j.C])
		}
	}
	bin, err := buildNative(dir, cs)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	P, err := LoadProgram(repoDir(), instOverlay())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, j := range js {
		j.Bin, j.N, j.Tmo = bin, *n, 60
		if contracts[j.C].NoNative {
			continue
		}
		r := replayJob(P, j)
		st := "agree"
		if r.Found != "" {
			st = "DIFFER"
		}
		fmt.Printf("%-6s %s tried %d %s %s %s\n", st, r.Name, r.Tried, r.Err, r.Found, r.Crash)
		if r.Found != "" {
			fmt.Println("   in ", trunc(string(r.Input), 1500))
			fmt.Println("   got", trunc(string(r.Got), 1000))
			fmt.Println("   exp", trunc(r.Expect, 1000))
		}
	}
}

func envSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

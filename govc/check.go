package main

// The check command: verifies every contract of one property against the
// repository's current tree, replays what is refuted, and writes the evidence.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type Finding struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"` // finding | fixed
	Contract string          `json:"contract,omitempty"`
	Request  json.RawMessage `json:"request,omitempty"`
	Correct  json.RawMessage `json:"correct,omitempty"` // what the property demands: {"res":[..]} or {"reject":true}
	What     string          `json:"what"`
	Commit   string          `json:"commit,omitempty"`
}

func verifDir() string {
	if d := os.Getenv("GOVC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// covers: a property that relies on another property's contract re-checks only
// the cases marked for it (all of them when none is)
func (c *Contract) covers(k *Case, id string) bool {
	if strings.Fields(c.Prop)[0] == id || strings.Contains(k.Also, id) {
		return true
	}
	for _, o := range c.Cases {
		if strings.Contains(o.Also, id) {
			return false
		}
	}
	return true
}

func hasProp(c *Contract, id string) bool {
	for _, p := range strings.Fields(c.Prop) {
		if p == id {
			return true
		}
	}
	return false
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "")
	fs.Parse(args)
	t0 := time.Now()
	seed := envSeed()
	thorough := *tier == "thorough"
	budget := 780 * time.Second
	tmo := 60
	if thorough {
		budget = 3 * time.Hour
		tmo = 300
	}
	deadline := t0.Add(budget)
	var jobs []Job
	for ci, c := range contracts {
		if !hasProp(c, *id) {
			continue
		}
		for ki, k := range c.Cases {
			if k.Thorough && !thorough || !c.covers(k, *id) {
				continue
			}
			jobs = append(jobs, Job{C: ci, K: ki, Tmo: tmo, Seed: seed, N: 400})
		}
	}
	if len(jobs) == 0 {
		fmt.Println("no contracts for", *id)
		return 2
	}
	// heavier cases first
	sort.SliceStable(jobs, func(a, b int) bool {
		return contracts[jobs[a].C].Cases[jobs[a].K].Weight > contracts[jobs[b].C].Cases[jobs[b].K].Weight
	})
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)

	// warm the build cache once before the workers load the program
	P, err := LoadProgram(repoDir(), instOverlay())
	if err != nil {
		fmt.Println("load:", err)
		return 2
	}
	if len(P.errs) > 0 {
		fmt.Println("the repository does not type-check:", trunc(strings.Join(P.errs, "; "), 800))
		return 2
	}
	// native replay driver, built in parallel with the proof
	var used []*Contract
	seen := map[int]bool{}
	for _, j := range jobs {
		if !seen[j.C] {
			seen[j.C] = true
			used = append(used, contracts[j.C])
		}
	}
	binCh := make(chan string, 1)
	var binErr error
	go func() {
		b, e := buildNative(dir, used)
		binErr = e
		binCh <- b
	}()

	present := func(j Job) bool { return P.Lookup(contracts[j.C].SSAName()) != nil }
	var run []Job
	missing := map[string]bool{}
	for _, j := range jobs {
		if !present(j) && contracts[j.C].Optional {
			missing[contracts[j.C].Key()] = true
			continue
		}
		run = append(run, j)
	}
	res := poolUntil(run, 8, deadline)
	failed := func(r JobRes) bool { return r.Err != "" || r.Total == 0 || r.Disch != r.Total || r.Vac != "" }

	// helper contracts that no longer hold are dropped, and their callers verified with the helper inlined
	dropped := map[string]bool{}
	for _, r := range res {
		if failed(r) && contracts[r.C].Optional {
			dropped[contracts[r.C].Key()] = true
		}
	}
	if len(dropped) > 0 {
		var ds []string
		for n := range dropped {
			ds = append(ds, n)
		}
		sort.Strings(ds)
		var again []Job
		var idx []int
		for i, r := range res {
			if failed(r) || dropped[contracts[r.C].Key()] {
				continue
			}
			dep := false
			for _, u := range r.Used {
				if dropped[u] {
					dep = true
				}
			}
			if dep {
				j := run[i]
				j.NoSum = ds
				again = append(again, j)
				idx = append(idx, i)
			}
		}
		for k, r := range poolUntil(again, 8, deadline) {
			res[idx[k]] = r
		}
	}

	bin := <-binCh
	if binErr != nil {
		fmt.Fprintln(os.Stderr, "replay driver:", binErr)
	}

	var bad []int
	for i, r := range res {
		if failed(r) {
			bad = append(bad, i)
		}
	}
	// An undischarged obligation is replayed on the real code; independent of
	// that, every case is cross-checked on concrete inputs (engine validation).
	xn := 24
	if thorough {
		xn = 400
	}
	var rj []Job
	var rOf []int
	if bin != "" {
		isBad := map[int]bool{}
		for _, i := range bad {
			isBad[i] = true
		}
		for _, first := range []bool{true, false} {
			for i, j := range run {
				if isBad[i] != first || contracts[j.C].NoNative {
					continue
				}
				j.Replay, j.Bin, j.Tmo = true, bin, 20
				if first {
					j.N, j.Tmo = 3000, 60
					for _, o := range res[i].Obls {
						if len(o.Model) > 0 {
							j.Models = append(j.Models, o.Model)
						}
					}
				} else {
					j.N = xn
				}
				rj = append(rj, j)
				rOf = append(rOf, i)
			}
		}
	}
	rdead := deadline
	if m := time.Now().Add(90 * time.Second); m.After(rdead) {
		rdead = m
	}
	rres := poolUntil(rj, 8, rdead)
	tried := 0
	type viol struct {
		i   int
		rep *JobRes
	}
	var found []viol
	for k := range rres {
		r := &rres[k]
		tried += r.Tried
		if r.Found != "" {
			if contracts[r.C].Optional && len(dropped) > 0 {
				continue // an internal helper whose contract is not required
			}
			if contracts[r.C].Optional && !failed(res[rOf[k]]) {
				continue
			}
			found = append(found, viol{rOf[k], r})
		}
	}
	exit := 0
	repDir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	writeReplay := func(v interface{}) string {
		p := filepath.Join(repDir, *id+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644)
		return p
	}
	nviol := 0
	if len(found) > 0 {
		v := found[0]
		p := writeReplay(J{"property": *id, "function": contracts[v.rep.C].Key(), "case": v.rep.Name, "what": v.rep.Found,
			"request": v.rep.Input, "observed": v.rep.Got, "expected": v.rep.Expect, "failed_obligations": res[v.i].Obls, "engine": res[v.i].Err,
			"how": "govc replay " + filepath.Join(repDir, *id+".json")})
		for _, f := range found {
			fmt.Printf("  %s: %s\n    input %s\n", f.rep.Name, f.rep.Found, trunc(string(f.rep.Input), 300))
			nviol++
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, p)
		exit = 1
	} else {
		var hard []int
		for _, i := range bad {
			if !contracts[res[i].C].Optional {
				hard = append(hard, i)
			}
		}
		if len(hard) > 0 {
			var l []interface{}
			for _, i := range hard {
				r := res[i]
				nviol++
				l = append(l, J{"case": r.Name, "engine": r.Err, "vacuity": r.Vac, "failed_obligations": r.Obls, "discharged": r.Disch, "total": r.Total})
				fmt.Printf("  %s: %d/%d obligations discharged %s %s\n", r.Name, r.Disch, r.Total, trunc(r.Err, 300), r.Vac)
				for k, o := range r.Obls {
					if k < 3 {
						fmt.Printf("    %s: %s [%s] at %s\n", o.Verdict, o.Name, o.Kind, o.Pos)
					}
				}
			}
			p := writeReplay(J{"property": *id, "note": "the obligations below are not discharged on the current tree; the concrete search on the real code found no failing input", "inputs_tried": tried, "cases": l})
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *id, p)
			exit = 1
		}
	}
	known := knownFindings(*id, bin)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, k)
	}
	writeEvidence(*id, *tier, seed, t0, res, rres, tried, missing, dropped, nviol, known)
	return exit
}

func knownFindings(id, bin string) (out []string) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return
	}
	var fs []Finding
	if json.Unmarshal(b, &fs) != nil {
		return
	}
	for _, f := range fs {
		if f.Property != id || f.Kind != "finding" || bin == "" {
			continue
		}
		nat, err := startNative(bin)
		if err != nil {
			continue
		}
		var req J
		json.Unmarshal(f.Request, &req)
		got, err := nat.call(req)
		nat.close()
		if err != nil || got["missing"] != nil {
			continue
		}
		var want map[string]interface{}
		json.Unmarshal(f.Correct, &want)
		rejected := got["panic"] != nil || got["unsat"] != nil
		ok := false
		if want["reject"] != nil {
			ok = rejected
		} else if want["accept"] != nil {
			ok = !rejected
		} else {
			a, _ := json.Marshal(got["res"])
			w, _ := json.Marshal(want["res"])
			ok = !rejected && string(a) == string(w)
		}
		if !ok {
			out = append(out, f.What)
		}
	}
	return
}

func writeEvidence(id, tier string, seed int64, t0 time.Time, res, rres []JobRes, tried int, missing, dropped map[string]bool, nviol int, known []string) {
	obl, dis := 0, 0
	by := map[string]int{}
	var solveMs, symMs int64
	fns := map[string]bool{}
	inl := map[string]bool{}
	trusted := map[string]bool{}
	usedC := map[string]bool{}
	bounded := map[string]string{}
	cases := map[string][]string{}
	var undis []string
	vac := 0
	for _, r := range res {
		c := contracts[r.C]
		obl += r.Total
		dis += r.Disch
		for k, v := range r.By {
			by[k] += v
		}
		solveMs += r.SolveMs
		symMs += r.SymMs
		if r.Err == "" && r.Disch == r.Total && r.Total > 0 {
			fns[c.Key()] = true
			if r.Vac == "" {
				vac++
			}
		}
		cases[c.Key()] = append(cases[c.Key()], c.Cases[r.K].Name)
		if c.Bounded != "" {
			bounded[c.Key()] = c.Bounded
		}
		for _, n := range r.Inlined {
			inl[strings.ReplaceAll(n, mod, "")] = true
		}
		for _, n := range r.Used {
			usedC[strings.ReplaceAll(n, mod, "")] = true
		}
		for _, n := range r.Trusted {
			trusted[strings.ReplaceAll(n, mod, "")] = true
		}
		for _, o := range r.Obls {
			undis = append(undis, r.Name+": "+o.Name)
		}
		if r.Err != "" {
			obl++
			undis = append(undis, r.Name+": "+r.Err)
		}
	}
	keys := func(m map[string]bool) []string {
		l := []string{}
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	agree := 0
	for _, r := range rres {
		if r.Found == "" && r.Tried > 0 {
			agree++
		}
	}
	tb := []string{
		"govc, the verification-condition generator in /verif/govc (go/ssa semantics of the interpreted Go subset, term normaliser; cross-checked on every run against the compiled code on concrete inputs)",
		"go/ssa and go/types (golang.org/x/tools), which give the typed SSA of /repo's sources",
		"z3 5.3.2, cvc5 1.1.2",
		"contract of frontend.API (github.com/consensys/gnark): Add/Sub/Mul/Select/IsZero/AssertIsEqual/ToBinary/Lookup2/Cmp... as arithmetic in the scalar field",
	}
	for _, n := range keys(trusted) {
		tb = append(tb, "assumed contract: "+n)
	}
	as := []string{
		"slice lengths and circuit shapes are the ones listed under shapes; element values are unbounded symbols over their whole domain",
		"machine integers are mathematical integers with an explicit wrap-around at every operation of a sized type; memory exhaustion and stack overflow are not modelled",
		"termination is established by complete unrolling on each shape",
		"the scalar field is the one named in the contract (BN254 unless stated)",
	}
	for k, v := range bounded {
		as = append(as, "bounded: "+k+": "+v)
	}
	ev := J{
		"property": id, "tier": tier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": as,
		"coverage": J{
			"obligations": obl, "discharged": dis, "checker_cmd": "govc check -prop " + id + " -tier " + tier,
			"trusted_base": tb, "functions_under_contract": keys(fns), "functions_inlined": keys(inl), "contracts_used_at_calls": keys(usedC),
			"shapes": cases, "by_backend": by, "solver_ms": solveMs, "vcgen_ms": symMs,
			"undischarged": undis, "non_vacuous_cases": vac, "cases": len(res),
			"helpers_absent": keys(missing), "helper_contracts_dropped": keys(dropped),
			"engine_crosscheck": J{"concrete_inputs": tried, "cases_agreeing": agree, "note": "same contracts evaluated on the compiled code; not counted as proof"},
			"known_findings":    known, "bounded": bounded,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), b, 0o644)
}

// replayMain re-runs the recorded input of a replay file on the real code.
func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f map[string]json.RawMessage
	json.Unmarshal(b, &f)
	if f["request"] == nil {
		fmt.Println("no concrete input recorded:", trunc(string(b), 4000))
		return 0
	}
	var req J
	json.Unmarshal(f["request"], &req)
	var cs []*Contract
	for _, c := range contracts {
		if c.Key() == req["fn"] {
			cs = append(cs, c)
		}
	}
	dir, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(dir)
	bin, err := buildNative(dir, cs)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	nat, err := startNative(bin)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer nat.close()
	got, err := nat.call(req)
	o, _ := json.Marshal(got)
	fmt.Println("function:", string(f["function"]))
	fmt.Println("request: ", string(f["request"]))
	fmt.Println("observed:", string(o), err)
	fmt.Println("expected:", string(f["expected"]), string(f["what"]))
	return 0
}

var _ = sync.Mutex{}

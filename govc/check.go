package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const verifDir = "/verif"

type finding struct {
	Prop, Oblig, Text string
}

// known_findings.txt lines:
//
//	finding: property=C04 obligation=<task>/<clause> <what fails>
//	fixed: property=C12 <commit> <what failed>
func readFindings(path string) []finding {
	var out []finding
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	re := regexp.MustCompile(`^finding: property=(\S+) obligation=(\S+) (.*)$`)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil {
			out = append(out, finding{m[1], strings.ReplaceAll(m[2], "_", " "), m[3]})
		}
	}
	return out
}

func cmdCheck(repo, contracts string, args []string) int {
	t0 := time.Now()
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: govc check ID")
		return 1
	}
	id := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	quick, full, natMS, natN := 5, 25, 2500, 40000
	if tier == "thorough" {
		quick, full, natMS, natN = 10, 90, 30000, 2000000
	}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0o755)
	repDir := filepath.Join(verifDir, "replays")
	os.MkdirAll(repDir, 0o755)
	work, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	defer os.RemoveAll(work)

	P, err := loadProgram(repo, contracts, nil)
	if err != nil {
		fmt.Println("load:", err)
		writeReplay(repDir, id, "load", map[string]interface{}{"error": err.Error()})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, filepath.Join(repDir, id+"-load.json"))
		return 1
	}
	var fns []*ssa.Function
	for _, fn := range P.tasks {
		if fn.Name()[:3] == id {
			fns = append(fns, fn)
		}
	}
	// native build runs alongside the proofs
	type nb struct {
		bin string
		err error
	}
	nch := make(chan nb, 1)
	go func() {
		b, e := buildNative(P, work)
		nch <- nb{b, e}
	}()
	// symbolic execution + proofs, several tasks at a time
	var mu sync.Mutex
	var tasks []*Task
	var wg sync.WaitGroup
	hardStop = t0.Add(600 * time.Second)
	sem := make(chan bool, 4)
	lim := 150 * time.Second
	if tier == "thorough" {
		lim = 900 * time.Second
	}
	usesSeen := map[string]bool{}
	var runOne func(fn *ssa.Function)
	runOne = func(fn *ssa.Function) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			l := lim
			if r := time.Until(hardStop); r < l {
				l = r
			}
			t := decide(P, fn, l, quick, full, 3)
			<-sem
			mu.Lock()
			tasks = append(tasks, t)
			var more []*ssa.Function
			for u := range t.Uses {
				if !usesSeen[u] {
					usesSeen[u] = true
					if k := P.contractFn(u); k != nil {
						more = append(more, k)
					} else {
						t.Err = "no verifying task V for contract " + u
					}
				}
			}
			mu.Unlock()
			for _, m := range more {
				dup := false
				for _, f := range fns {
					if f == m {
						dup = true
					}
				}
				if !dup {
					runOne(m)
				}
			}
		}()
	}
	for _, fn := range fns {
		runOne(fn)
	}
	wg.Wait()
	sort.Slice(tasks, func(i, j int) bool { return tasks[i].Name < tasks[j].Name })
	nat := <-nch
	// native confirmation / counterexample search
	var jobs []njob
	for _, t := range tasks {
		j := njob{Task: t.Name, Seed: seed, N: natN, MS: natMS}
		bad := t.Err != ""
		for _, o := range t.Obligs {
			if o.Res.res != resUnsat {
				bad = true
				if len(o.Res.model) > 0 {
					j.Fixed = append(j.Fixed, o.Res.model)
				}
			}
		}
		if bad {
			j.MS = 25000
			j.N *= 20
		}
		jobs = append(jobs, j)
	}
	nres := map[string]nresult{}
	if nat.err == nil {
		nres = runNative(nat.bin, jobs, 90*time.Second+time.Duration(natMS)*time.Millisecond)
	} else {
		fmt.Println("native harness:", nat.err)
	}
	// undecided obligations of contracts that no concrete input breaks: once more, one at a
	// time with the machine to themselves and longer limits (slow or busy machines)
	patience := time.Now().Add(240 * time.Second)
	if patience.After(hardStop) {
		patience = hardStop
	}
	for _, t := range tasks {
		if t.Err != "" || nres[t.Name].Failed != "" || !retryable(t) {
			continue
		}
		for _, o := range t.Obligs {
			if left := time.Until(patience); o.Res.res == resUnknown && left > 30*time.Second {
				f := 100
				if int(left/time.Second) < f {
					f = int(left / time.Second)
				}
				if r := proveGoal(o.Hyps, o.Goal, t.Inputs, 4*quick, f); r.res == resUnsat {
					o.Res = r
				}
			}
		}
	}
	finds := readFindings(filepath.Join(verifDir, "known_findings.txt"))
	known := func(task, name string) *finding {
		for i := range finds {
			f := &finds[i]
			if f.Prop == id && f.Oblig == strings.ReplaceAll(task+"/"+name, "_", " ") {
				return f
			}
		}
		return nil
	}
	violations := 0
	printed := map[string]bool{}
	total, disc := 0, 0
	by := map[string]int{}
	var solverMS int64
	inlined := map[string]bool{}
	var fnNames []string
	var bounded []string
	evals, acc := 0, 0
	for _, t := range tasks {
		fnNames = append(fnNames, t.Name)
		for k := range t.Inlined {
			if strings.Contains(k, modPath) && !strings.Contains(k, "/internal/v") {
				inlined[k] = true
			}
		}
		if t.Bounded != "" {
			bounded = append(bounded, t.Name+": "+t.Bounded)
		}
		nr := nres[t.Name]
		evals += nr.Runs
		acc += nr.Accepted
		type fail struct{ name, detail string }
		var fails []fail
		if t.Err != "" {
			fails = append(fails, fail{"verification condition generation", t.Err})
		}
		seen := map[string]bool{}
		for _, o := range t.Obligs {
			total++
			solverMS += o.Res.ms
			if o.Res.res == resUnsat {
				disc++
				by[o.Res.by]++
				continue
			}
			if !seen[o.Name] {
				seen[o.Name] = true
				fails = append(fails, fail{o.Name, fmt.Sprintf("%s obligation %q at %s (%s): solver answer %v", o.Kind, o.Name, o.Pos, o.Trace, o.Res.res)})
			}
		}
		if t.Err == "" && len(t.Obligs) == 0 {
			fails = append(fails, fail{"vacuity", "no obligation generated"})
		}
		if t.Err == "" && !t.Reached && len(fails) == 0 {
			fails = append(fails, fail{"vacuity", "end of contract unreachable"})
		}
		var open []fail
		for _, f := range fails {
			if k := known(t.Name, f.name); k != nil {
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k.Text)
				if !printed[line] {
					printed[line] = true
					fmt.Println(line)
				}
				continue
			}
			open = append(open, f)
		}
		natFail := nr.Failed
		if natFail != "" && known(t.Name, natFail) != nil {
			line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, known(t.Name, natFail).Text)
			if !printed[line] {
				printed[line] = true
				fmt.Println(line)
			}
			natFail = ""
		}
		if len(open) == 0 && natFail == "" {
			continue
		}
		violations++
		rp := filepath.Join(repDir, id+"-"+t.Name+".json")
		m := map[string]interface{}{"property": id, "task": t.Name}
		var ds []string
		for _, f := range open {
			ds = append(ds, f.name+": "+f.detail)
		}
		m["failed_obligations"] = ds
		if natFail != "" {
			m["failing_clause"] = natFail
			m["inputs"] = nr.Log
			m["seed"] = nr.Seed
			m["fixed"] = nr.Fixed
			m["replay_cmd"] = "bash /verif/check.sh replay " + rp
		} else {
			for _, o := range t.Obligs {
				if o.Res.res != resUnsat {
					m["solver_model"] = o.Res.model
					m["goal"] = o.Goal.String()
					if len(o.Res.script) < 1<<20 {
						m["smt_script"] = o.Res.script
					}
					break
				}
			}
		}
		writeReplay(repDir, id, t.Name, m)
		for _, d := range ds {
			fmt.Println("  failed:", t.Name, d)
		}
		if natFail != "" {
			fmt.Printf("  concrete: %s clause %q inputs %s\n", t.Name, natFail, strings.Join(nr.Log, " "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
		}
	}
	if len(tasks) == 0 {
		fmt.Println("no contract of this property applies to the current tree")
		for f, why := range P.Dropped {
			fmt.Println("  dropped", f, why)
		}
	}
	wall := time.Since(t0).Seconds()
	trusted := []string{
		"govc (this directory): go/ssa front end, memory model, loop rule, term simplifier, ring normaliser",
		"z3 5.3.2, z3 4.8.12, cvc5 1.1.2 answers of unsat",
		"float64 arithmetic treated as exact real arithmetic; NaN and infinities excluded by separate side conditions (division by zero, square roots, acos) where generated",
		"machine integers treated as mathematical (8, 16 and 32 bit wrap-around modelled; 64 bit overflow is not)",
		"math.* functions by their real axioms (sqrt, sin, cos, atan2, acos, asin, exp)",
		"termination of loops not proved",
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": disc, "checker_cmd": "bash /verif/check.sh " + id + " " + tier,
		"trusted_base": trusted, "contracts": fnNames, "functions_under_contract": sortedKeys(inlined), "by_backend": by,
		"solver_ms": solverMS, "native_runs": evals, "native_accepted": acc,
	}
	repl := map[string]bool{}
	for _, t := range tasks {
		for _, r := range t.Replaced {
			repl[t.Name+": "+r] = true
		}
	}
	if len(repl) > 0 {
		cov["calls_replaced_by_stand_ins"] = sortedKeys(repl)
	}
	if len(bounded) > 0 {
		cov["bounded_stand_ins"] = bounded
	}
	if len(P.Dropped) > 0 {
		cov["dropped_contract_files"] = P.Dropped
	}
	inv := []string{}
	loops := 0
	for _, t := range tasks {
		loops += t.Loops
		if len(t.InvKept) > 0 {
			inv = append(inv, fmt.Sprintf("%s: %d annotated invariants", t.Name, len(t.InvKept)))
		}
	}
	cov["loop_cuts"] = loops
	cov["loop_invariants"] = inv
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": trusted[2:]}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d contracts, %d/%d obligations discharged, %d native runs (%d accepted), %.1fs\n", id, len(tasks), disc, total, evals, acc, wall)
	if violations > 0 {
		return 1
	}
	return 0
}

func writeReplay(dir, id, name string, m map[string]interface{}) {
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(filepath.Join(dir, id+"-"+name+".json"), append(b, '\n'), 0o644)
}

// contractFn finds the task verifying modular contract name (function Cxx_V_<name>).
func (P *Program) contractFn(name string) *ssa.Function {
	for _, fn := range P.tasks {
		if fn.Name() == name || strings.HasSuffix(fn.Name(), "_V_"+name) {
			return fn
		}
	}
	return nil
}

func cmdReplay(repo, contracts, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	var m struct {
		Task  string            `json:"task"`
		Seed  int64             `json:"seed"`
		Fixed map[string]string `json:"fixed"`
	}
	json.Unmarshal(b, &m)
	P, err := loadProgram(repo, contracts, nil)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	work, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(work)
	bin, err := buildNative(P, work)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	j := njob{Task: m.Task, One: true, OnlySeed: m.Seed}
	if m.Fixed != nil {
		j.Fixed = []map[string]string{m.Fixed}
	}
	r := runNative(bin, []njob{j}, 60*time.Second)[m.Task]
	if r.Failed != "" {
		fmt.Printf("reproduced: %s fails clause %q with %s\n", m.Task, r.Failed, strings.Join(r.Log, " "))
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

// retryable: a few obligations are undecided and none refuted
func retryable(t *Task) bool {
	n := 0
	for _, o := range t.Obligs {
		switch o.Res.res {
		case resUnsat:
		case resUnknown:
			n++
		default:
			return false
		}
	}
	return 0 < n && n <= 3
}

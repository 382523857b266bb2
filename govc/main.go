package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

func newExec(P *Program, t *Task, limit time.Duration) *Exec {
	return &Exec{P: P, T: t, frozen: map[*Obj]bool{}, globals: map[*ssa.Global]*Obj{}, base: &State{heap: map[*Obj]Value{}},
		flags: map[string]bool{}, feasMemo: map[string]bool{}, origins: map[string]*originInfo{}, deadline: time.Now().Add(limit),
		cutNames: map[string]bool{}, uses: map[*ssa.Function]*useC{}, memo: &proofMemo{m: map[string]proofResult{}}}
}

// runTask symbolically executes one contract function and collects its obligations.
func runTask(P *Program, fn *ssa.Function, limit time.Duration) *Task {
	return runTaskAs(P, fn, limit, false)
}

// decide executes a contract function and discharges its obligations; if that fails, loops are
// tried once more with more candidates (code rewritten to count differently).
func decide(P *Program, fn *ssa.Function, limit time.Duration, quick, full, par int) *Task {
	t0 := time.Now()
	t := runTask(P, fn, limit)
	proveTask(t, quick, full, par)
	if t.proved() || t.Loops == 0 {
		return t
	}
	left := limit - time.Since(t0)
	if left < 20*time.Second {
		left = 20 * time.Second
	}
	if !hardStop.IsZero() && time.Until(hardStop) < left {
		left = time.Until(hardStop)
	}
	if left < 5*time.Second {
		return t
	}
	u := runTaskAs(P, fn, left, true)
	proveTask(u, quick, full, par)
	if u.proved() {
		u.Retried = true
		return u
	}
	return t
}

func (t *Task) proved() bool {
	if t.Err != "" || len(t.Obligs) == 0 {
		return false
	}
	for _, o := range t.Obligs {
		if o.Res.res != resUnsat {
			return false
		}
	}
	return true
}

func runTaskAs(P *Program, fn *ssa.Function, limit time.Duration, extended bool) (t *Task) {
	t = &Task{Fn: fn, Name: fn.Name(), Prop: fn.Name()[:3], Pkg: fn.Pkg.Pkg.Path(), Inlined: map[string]bool{}, Uses: map[string]bool{}, Targets: map[string]bool{}, Trusted: map[string]bool{}, Ensures: map[string]int{}}
	t0 := time.Now()
	defer func() { t.MS = time.Since(t0).Milliseconds() }()
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				t.Err = e.msg
			case splitReq:
				t.Err = "unresolved case split"
			default:
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(r)
				}
				t.Err = fmt.Sprint("internal: ", r)
			}
		}
	}()
	x := newExec(P, t, limit)
	x.extended = extended
	st := &State{heap: map[*Obj]Value{}}
	tobj := newObj("t", nil)
	st.heap[tobj] = &StructV{}
	outs := x.execFunc(st, fn, []Value{&PtrV{Obj: tobj}}, nil, false, P.posString(fn.Pos()))
	t.Paths = len(outs)
	for _, o := range outs {
		if o.pan {
			nm := "no panic"
			if iv, ok := o.pv.(*IfaceV); ok {
				o.pv = iv.V
			}
			if sv, ok := o.pv.(*StrV); ok && sv.Known {
				nm += ": " + sv.S
			}
			t.Obligs = append(t.Obligs, &Oblig{Name: nm, Kind: "safety", Pos: P.posString(fn.Pos()), Hyps: o.st.hyps(), Goal: tFalse, Task: t})
			continue
		}
		// vacuity: the end of the contract must be reachable
		if !t.Reached {
			hy := o.st.hyps()
			if prove(hy, tFalse, nil, 5, 0).res != resUnsat {
				t.Reached = true
			}
		}
	}
	return t
}

// hardStop: no proof attempt starts after it (zero: no limit).
var hardStop time.Time

func proveTask(t *Task, quick, full int, par int) {
	// group identical obligations
	type key struct{ s string }
	memo := map[string]*Oblig{}
	var todo []*Oblig
	dup := map[*Oblig]*Oblig{}
	for _, o := range t.Obligs {
		if o.Res.res == resUnsat {
			continue
		}
		var sb strings.Builder
		for _, h := range o.Hyps {
			fmt.Fprintf(&sb, "%d,", h.id)
		}
		fmt.Fprintf(&sb, "|%d", o.Goal.id)
		if p, ok := memo[sb.String()]; ok {
			dup[o] = p
			continue
		}
		memo[sb.String()] = o
		todo = append(todo, o)
	}
	var wg sync.WaitGroup
	var fails int32
	sem := make(chan struct{}, par)
	for _, o := range todo {
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Oblig) {
			defer wg.Done()
			defer func() { <-sem }()
			q, f := quick, full
			if n := atomic.LoadInt32(&fails); n >= 3 {
				q, f = 2, 3
			} else if !hardStop.IsZero() && time.Now().Add(time.Duration(f)*time.Second).After(hardStop) {
				q, f = 1, 2
			}
			if !hardStop.IsZero() && time.Now().After(hardStop) {
				o.Res = proofResult{res: resUnknown, by: "out of time"}
				return
			}
			o.Res = proveGoal(o.Hyps, o.Goal, t.Inputs, q, f)
			if o.Res.res != resUnsat {
				atomic.AddInt32(&fails, 1)
			}
		}(o)
	}
	wg.Wait()
	for o, p := range dup {
		o.Res = p.Res
	}
}

// proveGoal splits conjunctions of the goal.
func proveGoal(h []*Term, g *Term, vals []*Term, quick, full int) proofResult {
	if g.op == OAnd && len(g.args) <= 40 {
		by := map[string]bool{}
		var ms int64
		for _, a := range g.args {
			r := proveGoal(h, a, vals, quick, full)
			ms += r.ms
			if r.res != resUnsat {
				r.ms = ms
				return r
			}
			by[r.by] = true
			h = append(h[:len(h):len(h)], a)
		}
		return proofResult{res: resUnsat, by: strings.Join(sortedKeys(by), "+"), ms: ms}
	}
	// implication: move the antecedent into the hypotheses
	if g.op == OOr && len(g.args) == 2 {
		for k := 0; k < 2; k++ {
			if g.args[1-k].op == OAnd {
				r := proveGoal(append(h[:len(h):len(h)], tNot(g.args[k])), g.args[1-k], vals, quick, full)
				if r.res == resUnsat {
					return r
				}
				break
			}
		}
	}
	return prove(h, g, vals, quick, full)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	contracts := flag.String("contracts", "/verif/contracts", "")
	run := flag.String("run", "", "regexp of contract names")
	quick := flag.Int("quick", 4, "")
	full := flag.Int("full", 20, "")
	verbose := flag.Bool("v", false, "")
	lim := flag.Int("limit", 120, "")
	nseed := flag.Int("seed", 1, "")
	flag.Parse()
	if flag.NArg() > 0 && flag.Arg(0) == "check" {
		os.Exit(cmdCheck(*repo, *contracts, flag.Args()[1:]))
	}
	if flag.NArg() > 1 && flag.Arg(0) == "replay" {
		os.Exit(cmdReplay(*repo, *contracts, flag.Arg(1)))
	}
	if flag.NArg() > 0 && flag.Arg(0) == "native" {
		P, err := loadProgram(*repo, *contracts, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		work, _ := os.MkdirTemp("", "govc")
		bin, err := buildNative(P, work)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		re := regexp.MustCompile(*run)
		var jobs []njob
		for _, fn := range P.tasks {
			if re.MatchString(fn.Name()) {
				jobs = append(jobs, njob{Task: fn.Name(), Seed: int64(*nseed), N: 1 << 30, MS: *lim * 1000})
			}
		}
		for n, r := range runNative(bin, jobs, time.Duration(*lim+30)*time.Second) {
			fmt.Printf("%-40s runs %d accepted %d %v failed %q %v\n", n, r.Runs, r.Accepted, r.Covers, r.Failed, r.Log)
		}
		os.RemoveAll(work)
		return
	}
	t0 := time.Now()
	P, err := loadProgram(*repo, *contracts, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for f, w := range P.Dropped {
		fmt.Println("DROPPED", f, w)
	}
	fmt.Printf("loaded in %v, %d contracts\n", time.Since(t0).Round(time.Millisecond), len(P.tasks))
	re := regexp.MustCompile(*run)
	for _, fn := range P.tasks {
		if !re.MatchString(fn.Name()) {
			continue
		}
		t1 := time.Now()
		t := decide(P, fn, time.Duration(*lim)*time.Second, *quick, *full, 4)
		report(t, *verbose, time.Since(t1))
	}
}

func report(t *Task, verbose bool, d time.Duration) {
	ok := 0
	by := map[string]int{}
	for _, o := range t.Obligs {
		if o.Res.res == resUnsat {
			ok++
			by[o.Res.by]++
		}
	}
	status := "OK"
	if t.Err != "" {
		status = "ERR " + t.Err
	} else if ok < len(t.Obligs) {
		status = "FAIL"
	} else if !t.Reached {
		status = "VACUOUS?"
	} else if len(t.Obligs) == 0 {
		status = "EMPTY"
	}
	fmt.Printf("%-40s %s obl %d/%d paths %d exec %dms prove %v loops %d %v\n", t.Name, status, ok, len(t.Obligs), t.Paths, t.MS, d.Round(time.Millisecond), t.Loops, by)
	for _, o := range t.Obligs {
		if o.Res.res != resUnsat || verbose {
			fmt.Printf("    %v %s %q at %s by %s %dms\n", o.Res.res, o.Kind, o.Name, o.Pos, o.Res.by, o.Res.ms)
			if o.Res.res != resUnsat && verbose {
				fmt.Printf("      goal %v\n", o.Goal)
				for _, h := range o.Hyps {
					fmt.Printf("        hyp %v\n", h)
				}
				var ks []string
				for k := range o.Res.model {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					fmt.Printf("        %s = %s\n", k, o.Res.model[k])
				}
			}
		}
	}
	if verbose {
		for _, k := range t.InvKept {
			fmt.Println("    kept", k)
		}
	}
}

func (r satResult) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

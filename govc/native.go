package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

const vrunSrc = `//go:build verif

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/soypat/sdf/internal/vspec"
%s)

type job struct {
	Task  string
	Seed  int64
	N     int
	MS    int
	Fixed []map[string]string
	One   bool
	OnlySeed int64
}
type result struct {
	Task     string
	Runs     int
	Accepted int
	Failed   string
	Seed     int64
	Log      []string
	Fixed    map[string]string
	Covers   map[string]int
}

var reg = map[string]func(*vspec.T){
%s}

func once(j job, seed int64, fixed map[string]string, covers map[string]int) (bool, *vspec.T) {
	fx := map[string]string{}
	for k, v := range fixed {
		fx[k] = v
	}
	rng := rand.New(rand.NewSource(seed))
	t := &vspec.T{Rng: rng, Fixed: fx, Size: 1 + rng.Intn(8), Covers: covers}
	ok := vspec.Run(t, reg[j.Task])
	return ok, t
}

func runJob(j job) (r result) {
	r.Task = j.Task
	r.Covers = map[string]int{}
	if j.One {
		var fx map[string]string
		if len(j.Fixed) > 0 {
			fx = j.Fixed[0]
		}
		ok, t := once(j, j.OnlySeed, fx, r.Covers)
		r.Runs = 1
		if ok {
			r.Accepted = 1
		}
		r.Failed, r.Log, r.Seed, r.Fixed = t.Failed, t.Log, j.OnlySeed, fx
		return
	}
	end := time.Now().Add(time.Duration(j.MS) * time.Millisecond)
	try := func(seed int64, fx map[string]string) bool {
		ok, t := once(j, seed, fx, r.Covers)
		r.Runs++
		if ok {
			r.Accepted++
		}
		if t.Failed != "" {
			r.Failed, r.Log, r.Seed, r.Fixed = t.Failed, t.Log, seed, fx
			return true
		}
		return false
	}
	for _, fx := range j.Fixed {
		for k := 0; k < 40; k++ {
			if try(j.Seed*1000003+int64(k), fx) {
				return
			}
		}
	}
	for k := 0; k < j.N; k++ {
		if k&15 == 0 && time.Now().After(end) {
			break
		}
		var fx map[string]string
		if len(j.Fixed) > 0 && k%%4 == 0 {
			// keep a random part of a counterexample model
			full := j.Fixed[k/4%%len(j.Fixed)]
			fx = map[string]string{}
			rng := rand.New(rand.NewSource(int64(k)))
			for _, kk := range sorted(full) {
				if rng.Intn(3) > 0 {
					fx[kk] = full[kk]
				}
			}
		}
		if try(j.Seed*7919+1000000+int64(k), fx) {
			return
		}
	}
	return
}

func sorted(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func main() {
	log.SetOutput(io.Discard)
	realOut := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	var jobs []job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	enc := json.NewEncoder(realOut)
	for _, j := range jobs {
		if reg[j.Task] == nil {
			continue
		}
		wg.Add(1)
		sem <- true
		go func(j job) {
			defer func() { <-sem; wg.Done() }()
			r := runJob(j)
			mu.Lock()
			enc.Encode(r)
			mu.Unlock()
		}(j)
	}
	wg.Wait()
}
`

type njob struct {
	Task     string
	Seed     int64
	N        int
	MS       int
	Fixed    []map[string]string
	One      bool
	OnlySeed int64
}
type nresult struct {
	Task     string
	Runs     int
	Accepted int
	Failed   string
	Seed     int64
	Log      []string
	Fixed    map[string]string
	Covers   map[string]int
}

// buildNative compiles the contracts against the real code.
func buildNative(P *Program, dir string) (string, error) {
	imps := map[string]string{}
	var reg []string
	for _, fn := range P.tasks {
		p := fn.Pkg.Pkg.Path()
		if imps[p] == "" {
			imps[p] = fmt.Sprintf("p%d", len(imps))
		}
		reg = append(reg, fmt.Sprintf("\t%q: %s.%s,\n", fn.Name(), imps[p], fn.Name()))
	}
	var il []string
	for p, a := range imps {
		il = append(il, fmt.Sprintf("\t%s %q\n", a, p))
	}
	sort.Strings(il)
	src := fmt.Sprintf(vrunSrc, strings.Join(il, ""), strings.Join(reg, ""))
	mp := filepath.Join(dir, "vrun_main.go")
	if err := os.WriteFile(mp, []byte(src), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{filepath.Join(P.repo, "internal/vrun/main.go"): mp}
	for k, v := range P.overlay {
		rep[k] = v
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	op := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(op, ob, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "vrun")
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-overlay", op, "-tags", "verif", "-o", bin, modPath+"/internal/vrun")
	cmd.Dir = P.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

func runNative(bin string, jobs []njob, limit time.Duration) map[string]nresult {
	res := map[string]nresult{}
	// one process per job, so that a crash or a hang stays local
	type r1 struct {
		t string
		r nresult
	}
	ch := make(chan r1)
	sem := make(chan bool, 6)
	for _, j := range jobs {
		go func(j njob) {
			sem <- true
			defer func() { <-sem }()
			in, _ := json.Marshal([]njob{j})
			ctx, cancel := context.WithTimeout(context.Background(), limit)
			defer cancel()
			scratch, _ := os.MkdirTemp("", "vrun")
			defer os.RemoveAll(scratch)
			cmd := exec.CommandContext(ctx, bin)
			cmd.Dir = scratch
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "VRUN_SCRATCH="+scratch)
			cmd.Stdin = bytes.NewReader(in)
			var out, errb bytes.Buffer
			cmd.Stdout = &out
			cmd.Stderr = &errb
			cmd.Run()
			var r nresult
			json.NewDecoder(&out).Decode(&r)
			r.Task = j.Task
			if r.Runs == 0 && strings.Contains(errb.String(), "fatal error: stack overflow") {
				r.Failed = "no panic: stack overflow"
			}
			ch <- r1{j.Task, r}
		}(j)
	}
	for range jobs {
		r := <-ch
		res[r.t] = r.r
	}
	return res
}

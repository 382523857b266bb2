package main

import (
	"context"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var ctxBG = context.Background()

const modPath = "github.com/soypat/sdf"
const vspecPath = modPath + "/internal/vspec"

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	ipd   map[*ssa.BasicBlock]*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loop
}

type Program struct {
	prog    *ssa.Program
	fset    *token.FileSet
	repo    string
	pkgs    []*packages.Package
	infoMu  sync.Mutex
	infos   map[*ssa.Function]*fnInfo
	Dropped map[string]string // contract file -> reason
	tasks   []*ssa.Function
	overlay map[string]string // repo path -> verif path
}

// contractOverlay maps every contract file onto its place in the module.
func contractOverlay(repo, contracts string) map[string]string {
	ov := map[string]string{}
	filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(contracts, p)
		ov[filepath.Join(repo, rel)] = p
		return nil
	})
	return ov
}

func goEnv() []string {
	env := os.Environ()
	def := map[string]string{"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build", "GOWORK": "off", "HOME": "/root"}
	var ks []string
	for k := range def {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		env = append(env, k+"="+def[k])
	}
	return env
}

func loadProgram(repo, contracts string, only func(file string) bool) (*Program, error) {
	P := &Program{repo: repo, infos: map[*ssa.Function]*fnInfo{}, Dropped: map[string]string{}}
	ov := contractOverlay(repo, contracts)
	for k, v := range ov {
		if only != nil && !only(v) {
			delete(ov, k)
		}
	}
	for try := 0; try < 8; try++ {
		P.overlay = ov
		m := map[string][]byte{}
		dirs := map[string]bool{}
		for k, v := range ov {
			b, err := os.ReadFile(v)
			if err != nil {
				return nil, err
			}
			m[k] = b
			dirs[filepath.Dir(k)] = true
		}
		var pats []string
		for d := range dirs {
			rel, _ := filepath.Rel(repo, d)
			pats = append(pats, modPath+"/"+rel)
		}
		sort.Strings(pats)
		P.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Fset: P.fset, Overlay: m, BuildFlags: []string{"-tags=verif"}}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var other []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i > 0 {
					f = f[:i]
				}
				if v, ok := ov[f]; ok && !strings.HasSuffix(filepath.Dir(v), "vspec") {
					bad[f] = e.Error()
				} else if strings.HasPrefix(p.PkgPath, modPath) {
					other = append(other, p.PkgPath+": "+e.Error())
				}
			}
		})
		if len(bad) > 0 {
			for f, why := range bad {
				P.Dropped[ov[f]] = why
				delete(ov, f)
			}
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("type errors: %s", strings.Join(other, "; "))
		}
		P.pkgs = pkgs
		P.prog, _ = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		P.prog.Build()
		P.findTasks()
		return P, nil
	}
	return nil, fmt.Errorf("contracts do not type-check")
}

func (P *Program) findTasks() {
	seen := map[*ssa.Function]bool{}
	for _, p := range P.prog.AllPackages() {
		if p.Pkg == nil || !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for n, m := range p.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || seen[fn] {
				continue
			}
			f := P.fset.Position(fn.Pos()).Filename
			if _, isC := P.overlay[f]; !isC {
				continue
			}
			if len(n) > 4 && n[0] == 'C' && n[1] >= '0' && n[1] <= '9' && n[3] == '_' && fn.Signature.Params().Len() == 1 {
				seen[fn] = true
				P.tasks = append(P.tasks, fn)
			}
		}
	}
	sort.Slice(P.tasks, func(i, j int) bool { return P.tasks[i].String() < P.tasks[j].String() })
}

func (P *Program) posString(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.fset.Position(p)
	f := q.Filename
	if v, ok := P.overlay[f]; ok {
		f = v
	} else if r, err := filepath.Rel(P.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (P *Program) repoPkg(p *ssa.Package) bool {
	return p != nil && p.Pkg != nil && (strings.HasPrefix(p.Pkg.Path(), modPath))
}

func (P *Program) methodOf(T types.Type, m *types.Func) *ssa.Function {
	sel := P.prog.MethodSets.MethodSet(T).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

func (P *Program) info(fn *ssa.Function) *fnInfo {
	P.infoMu.Lock()
	defer P.infoMu.Unlock()
	if fi, ok := P.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{ipd: ipdoms(fn), loops: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				lp := fi.loops[s]
				if lp == nil {
					lp = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = lp
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					q := st[len(st)-1]
					st = st[:len(st)-1]
					if lp.blocks[q] {
						continue
					}
					lp.blocks[q] = true
					st = append(st, q.Preds...)
				}
			}
		}
	}
	P.infos[fn] = fi
	return fi
}

func (P *Program) ipdom(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	return P.info(fn).ipd[b]
}
func (P *Program) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loop {
	return P.info(fn).loops[b]
}

// ipdoms computes immediate post-dominators, ignoring blocks that panic.
func ipdoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// can reach a return?
	live := make([]bool, n)
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if live[b.Index] {
				continue
			}
			l := false
			if len(b.Instrs) > 0 {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					l = true
				}
			}
			for _, s := range b.Succs {
				l = l || live[s.Index]
			}
			if l {
				live[b.Index] = true
				ch = true
			}
		}
	}
	words := n + 1
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = make([]bool, words)
		for j := range pd[i] {
			pd[i][j] = i != n || j == n
		}
	}
	for ch := true; ch; {
		ch = false
		for k := n - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			if !live[k] {
				continue
			}
			nw := make([]bool, words)
			first := true
			and := func(o []bool) {
				if first {
					copy(nw, o)
					first = false
					return
				}
				for j := range nw {
					nw[j] = nw[j] && o[j]
				}
			}
			for _, s := range b.Succs {
				if live[s.Index] {
					and(pd[s.Index])
				}
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				and(pd[n])
			}
			nw[k] = true
			for j := range nw {
				if nw[j] != pd[k][j] {
					pd[k] = nw
					ch = true
					break
				}
			}
		}
	}
	res := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for k := 0; k < n; k++ {
		if !live[k] {
			continue
		}
		// immediate: the strict post-dominator post-dominated by all others
		var best = -1
		cnt := -1
		for j := 0; j < n; j++ {
			if j == k || !pd[k][j] || !live[j] {
				continue
			}
			c := 0
			for q := range pd[j] {
				if pd[j][q] {
					c++
				}
			}
			if c > cnt {
				cnt, best = c, j
			}
		}
		if best >= 0 {
			res[fn.Blocks[k]] = fn.Blocks[best]
		}
	}
	return res
}

var _ = ast.NewIdent

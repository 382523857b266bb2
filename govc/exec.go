package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one proof obligation.
type Oblig struct {
	Name  string
	Pos   string
	Hyps  []*Term
	Goal  *Term
	Kind  string // ensures, safety, frame, use-requires, invariant
	Res   proofResult
	Task  *Task
	Where string
	Trace string
}

// Task is the verification of one contract function.
type Task struct {
	Fn       *ssa.Function
	Name     string
	Prop     string
	Pkg      string
	Obligs   []*Oblig
	Err      string
	Paths    int
	Inputs   []*Term
	Inlined  map[string]bool
	Uses     map[string]bool
	Replaced []string // calls replaced by a stand-in
	Targets  map[string]bool
	Trusted  map[string]bool
	InvKept  []string
	Loops    int
	Retried  bool // proved with the larger set of loop invariant candidates
	MS       int64
	Ensures  map[string]int
	Reached  bool
	Bounded  string
	LoopTime int64
}

type Exec struct {
	P         *Program
	T         *Task
	catch     int
	dry       int
	modOnly   int // collecting what loops modify: their invariants are not needed
	invs      []*FuncV
	invAll    map[*FuncV]bool
	extended  bool // second attempt: more ways to match loop variables
	stack     []*ssa.Function
	frozen    map[*Obj]bool
	frame     bool
	nodiv     bool
	deadline  time.Time
	globals   map[*ssa.Global]*Obj
	base      *State
	flags     map[string]bool
	feasMemo  map[string]bool
	origins   map[string]*originInfo
	useOff    bool
	ghostN    int
	steps     int
	inSpec    int
	lazyGuard int
	cutNames  map[string]bool
	uses      map[*ssa.Function]*useC
	memo      *proofMemo
	specMode  bool // executing trusted spec code: no safety obligations
}

type originInfo struct {
	flags map[string]bool
	hooks []*FuncV
	dim   int
}

type Outcome struct {
	st  *State
	ret Value
	pan bool
	pv  Value
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type cfg struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	st     *State
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	defers []deferred
	cut    map[*ssa.BasicBlock]*cutInfo
	iters  map[*ssa.BasicBlock]int
	inDef  bool // recover is meaningful: this frame is a deferred call
}

func (c *cfg) clone() *cfg {
	n := *c
	n.env = make(map[ssa.Value]Value, len(c.env))
	for k, v := range c.env {
		n.env[k] = v
	}
	n.st = c.st.clone()
	n.defers = c.defers[:len(c.defers):len(c.defers)]
	n.cut = map[*ssa.BasicBlock]*cutInfo{}
	for k, v := range c.cut {
		n.cut[k] = v
	}
	n.iters = map[*ssa.BasicBlock]int{}
	for k, v := range c.iters {
		n.iters[k] = v
	}
	return &n
}

type splitReq struct{ cond *Term }

func (x *Exec) posOf(c *cfg, in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		for i := c.ip; i >= 0 && i < len(c.blk.Instrs); i-- {
			if q := c.blk.Instrs[i].Pos(); q.IsValid() {
				p = q
				break
			}
		}
	}
	return x.P.posString(p)
}

func (x *Exec) trace() string {
	var s []string
	for _, f := range x.stack {
		s = append(s, f.String())
	}
	return strings.Join(s, " > ")
}

// oblige records an obligation (unless dry) and assumes the goal.
func (x *Exec) oblige(st *State, kind, name, pos string, goal *Term) {
	if goal == tTrue {
		if x.dry == 0 {
			x.T.Obligs = append(x.T.Obligs, &Oblig{Name: name, Kind: kind, Pos: pos, Goal: goal, Task: x.T, Res: proofResult{res: resUnsat, by: "syntactic"}})
		}
		return
	}
	if x.dry == 0 {
		if st.infeasible() {
			return
		}
		x.T.Obligs = append(x.T.Obligs, &Oblig{Name: name, Kind: kind, Pos: pos, Hyps: st.hyps(), Goal: goal, Task: x.T, Trace: x.trace()})
	}
	st.assume(goal)
}

// safety handles a run-time check: returns the states in which it failed (as panics).
func (x *Exec) safety(st *State, name, pos string, ok *Term, outs *[]Outcome) {
	if ok == tTrue {
		return
	}
	if d, known := st.decided(ok); known && d {
		return
	}
	if x.specMode {
		// specifications are total: an index out of range selects an
		// arbitrary element, it must not become an assumption
		if ok == tFalse {
			panic(unsup("specification is undefined: %s", name))
		}
		return
	}
	if x.catch > 0 && outs != nil {
		if x.feasible(st, tNot(ok)) {
			ps := st.clone()
			ps.branch(tNot(ok))
			*outs = append(*outs, Outcome{st: ps, pan: true, pv: &StrV{Known: true, S: "runtime error: " + name}})
			st.branch(ok)
			return
		}
		st.assume(ok)
		return
	}
	x.oblige(st, "safety", name, pos, ok)
}

func (x *Exec) feasible(st *State, c *Term) bool {
	if d, known := st.decided(c); known {
		return d
	}
	hy := st.hyps()
	var sb strings.Builder
	for _, h := range hy {
		fmt.Fprintf(&sb, "%d,", h.id)
	}
	fmt.Fprintf(&sb, "|%d", c.id)
	k := sb.String()
	if r, ok := x.feasMemo[k]; ok {
		return r
	}
	rel := relevant(hy, c)
	sc := smtScript(append(append([]*Term(nil), rel...), c), false, nil, "")
	sc = sc[:strings.IndexByte(sc, 0)]
	out := runProc(ctxBG, 3*time.Second, sc+"(check-sat)\n", "z3-new", "-in", "-t:400", "-memory:2000")
	r := !strings.HasPrefix(out, "unsat")
	x.feasMemo[k] = r
	return r
}

// proveQuick is a synchronous proof attempt.
func (x *Exec) proveQuick(st *State, g *Term, sec int) bool {
	if d, known := st.decided(g); known && d {
		return true
	}
	return prove(st.hyps(), g, nil, sec, 0).res == resUnsat
}

// ---------- memory ----------

func (x *Exec) content(st *State, o *Obj) Value {
	if v, ok := st.heap[o]; ok {
		return v
	}
	if v, ok := x.base.heap[o]; ok {
		return v
	}
	panic(unsup("object %s has no content", o.name))
}

func (x *Exec) load(st *State, p *PtrV) Value {
	v := x.content(st, p.Obj)
	return x.loadPath(st, v, p.Path)
}
func (x *Exec) loadPath(st *State, v Value, path []PathEl) Value {
	for i, e := range path {
		switch a := v.(type) {
		case *StructV:
			if e.Idx != nil {
				if k, ok := e.Idx.intVal(); ok {
					if k < 0 || k >= int64(len(a.F)) {
						panic(unsup("constant index out of range"))
					}
					v = a.F[k]
					continue
				}
				// symbolic index over fixed array
				var r Value
				rest := path[i+1:]
				for k := len(a.F) - 1; k >= 0; k-- {
					ev := x.loadPath(st, a.F[k], rest)
					if r == nil {
						r = ev
						continue
					}
					c := tEq(e.Idx, mkInt(int64(k)))
					m, ok := mergeValIdx(c, ev, r)
					if !ok {
						if d, known := st.decided(c); known {
							if d {
								r = ev
							}
							continue
						}
						panic(splitReq{c})
					}
					r = m
				}
				return r
			}
			v = a.F[e.F]
		case *ArrState:
			v = x.readArr(st, a, e.Idx)
		default:
			panic(unsup("load path through %T", v))
		}
	}
	return v
}

// mergeValIdx merges including distinct integer constants (table lookups).
func mergeValIdx(c *Term, a, b Value) (Value, bool) {
	if at, ok := a.(*Term); ok {
		if bt, ok := b.(*Term); ok && at.sort == bt.sort {
			return tIte(c, at, bt), true
		}
	}
	return mergeVal(c, a, b)
}

func (x *Exec) readArr(st *State, a *ArrState, i *Term) Value {
	x.noteIdx(st, i)
	return x.readArr1(st, a, i, 0)
}
func (x *Exec) readArr1(st *State, a *ArrState, i *Term, depth int) Value {
	for {
		switch a.Kind {
		case 0:
			if a.Zero {
				return zeroValue(a.Elem)
			}
			return symValue(x, st, a.Elem, a.Sym, append(append([]*Term(nil), a.Arg...), i))
		case 1:
			c := tEq(i, a.Idx)
			if d, known := st.decided(c); known {
				if d {
					return a.Val
				}
				a = a.Prev
				continue
			}
			old := x.readArr1(st, a.Prev, i, depth+1)
			m, ok := mergeValIdx(c, a.Val, old)
			if !ok {
				panic(splitReq{c})
			}
			return m
		case 2:
			c := tAnd(tLe(a.Idx, i), tLt(i, tAdd(a.Idx, a.N)))
			in, known := st.decided(c)
			if !known && c.op == OAnd {
				all := true
				for _, q := range c.args {
					d, k := st.decided(q)
					if k && !d {
						in, known = false, true
						break
					}
					if !k {
						all = false
					}
				}
				if !known && all {
					in, known = true, true
				}
			}
			si := tAdd(tSub(i, a.Idx), a.SrcOff)
			if known {
				if in {
					i = si
					a = a.Src
				} else {
					a = a.Prev
				}
				continue
			}
			nv := x.readArr1(st, a.Src, si, depth+1)
			old := x.readArr1(st, a.Prev, i, depth+1)
			m, ok := mergeValIdx(c, nv, old)
			if !ok {
				panic(splitReq{c})
			}
			return m
		case 3:
			if d, known := st.decided(a.Cond); known {
				if d {
					a = a.A
				} else {
					a = a.B
				}
				continue
			}
			v1 := x.readArr1(st, a.A, i, depth+1)
			v2 := x.readArr1(st, a.B, i, depth+1)
			m, ok := mergeValIdx(a.Cond, v1, v2)
			if !ok {
				panic(splitReq{a.Cond})
			}
			return m
		}
	}
}

func storePath(x *Exec, st *State, v Value, path []PathEl, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	switch a := v.(type) {
	case *StructV:
		if e.Idx != nil {
			if k, ok := e.Idx.intVal(); ok {
				if k < 0 || k >= int64(len(a.F)) {
					panic(unsup("constant index out of range"))
				}
				f := append([]Value(nil), a.F...)
				f[k] = storePath(x, st, a.F[k], path[1:], nv)
				return &StructV{f}
			}
			f := append([]Value(nil), a.F...)
			for k := range f {
				c := tEq(e.Idx, mkInt(int64(k)))
				n := storePath(x, st, a.F[k], path[1:], nv)
				m, ok := mergeValIdx(c, n, a.F[k])
				if !ok {
					if d, known := st.decided(c); known {
						if d {
							f[k] = n
						}
						continue
					}
					panic(splitReq{c})
				}
				f[k] = m
			}
			return &StructV{f}
		}
		f := append([]Value(nil), a.F...)
		f[e.F] = storePath(x, st, a.F[e.F], path[1:], nv)
		return &StructV{f}
	case *ArrState:
		x.noteIdx(st, e.Idx)
		var el Value
		if len(path) == 1 {
			el = nv
		} else {
			el = storePath(x, st, x.readArr(st, a, e.Idx), path[1:], nv)
		}
		prev := a
		for prev.Kind == 1 && prev.Idx == e.Idx {
			prev = prev.Prev
		}
		return &ArrState{Elem: a.Elem, Kind: 1, Prev: prev, Idx: e.Idx, Val: el}
	}
	panic(unsup("store path through %T", v))
}

func (x *Exec) store(st *State, p *PtrV, v Value, pos string) {
	x.checkFrame(st, p.Obj, pos)
	st.heap[p.Obj] = storePath(x, st, x.content(st, p.Obj), p.Path, v)
}

func (x *Exec) checkFrame(st *State, o *Obj, pos string) {
	if x.frozen[o] || (x.frame && o.pre) {
		x.oblige(st, "frame", "writes pre-existing memory "+o.name, pos, tFalse)
		if x.dry == 0 {
			// keep the path alive for the remaining obligations
			n := len(st.pc)
			if n > 0 && st.pc[n-1].t == tFalse {
				st.pc = st.pc[:n-1]
			}
		} else {
			n := len(st.pc)
			if n > 0 && st.pc[n-1].t == tFalse {
				st.pc = st.pc[:n-1]
			}
		}
	}
}

// noteIdx records an index term and instantiates integer schemas at it.
func (x *Exec) noteIdx(st *State, i *Term) {
	if i == nil || x.inSpec > 0 {
		return
	}
	for _, t := range st.idxs {
		if t == i {
			return
		}
	}
	st.idxs = append(st.idxs, i)
	x.instSchemas(st)
}

func (x *Exec) instSchemas(st *State) {
	if x.inSpec > 0 {
		return
	}
	for si := 0; si < len(st.schemas); si++ {
		n := 1 + len(st.schemas[si].more)
		pick := make([]int, n)
		for {
			if len(st.idxs) == 0 {
				break
			}
			s := st.schemas[si]
			key := ""
			args := make([]Value, n)
			for j, q := range pick {
				args[j] = st.idxs[q]
				key += fmt.Sprint(st.idxs[q].id, ",")
			}
			if !s.done[key] {
				s.done[key] = true
				g := tTrue
				for j, a := range args {
					if s.free {
						break
					}
					hi := s.n
					if j > 0 {
						hi = s.more[j-1]
					}
					g = tAnd(g, tAnd(tLe(s.lo, a.(*Term)), tLt(a.(*Term), hi)))
				}
				if s.cond != nil {
					g = tAnd(g, s.cond)
				}
				if v, known := st.decided(g); g != tFalse && (!known || v) {
					if b := x.specInstance(st, s, append(args, s.rest...)); b != nil {
						st.assume(tImp(g, b))
					}
				}
			}
			j := n - 1
			for ; j >= 0; j-- {
				if pick[j]++; pick[j] < len(st.idxs) {
					break
				}
				pick[j] = 0
			}
			if j < 0 {
				break
			}
		}
	}
}

// specInstance is evalSpec of an assumption: an instance that is undefined
// (an index out of range, so outside the assumption's own range) is dropped.
// It is evaluated in the memory of the moment it was assumed.
func (x *Exec) specInstance(st *State, s *schemaRec, args []Value) (b *Term) {
	is, sm, dry, catch := x.inSpec, x.specMode, x.dry, x.catch
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok && strings.Contains(u.msg, "specification is undefined") {
				x.inSpec, x.specMode, x.dry, x.catch = is, sm, dry, catch
				if os.Getenv("GOVC_DEBUG") == "loops" {
					fmt.Fprintf(os.Stderr, "  instance %v dropped: %s\n", args, u.msg)
				}
				b = nil
				return
			}
			panic(r)
		}
	}()
	st2 := st.clone()
	st2.heap = make(map[*Obj]Value, len(s.heap))
	for o, v := range s.heap {
		st2.heap[o] = v
	}
	n0 := len(st2.pc)
	b = x.evalSpec(st2, s.fn, args)
	for _, e := range st2.pc[n0:] {
		st.assume(e.t)
	}
	return b
}

// evalSpec runs a pure boolean closure and returns its value as a term
// (facts produced while evaluating are added to st).
func (x *Exec) evalSpec(st *State, fn *FuncV, args []Value) *Term {
	x.inSpec++
	sm := x.specMode
	x.specMode = true
	oc := x.catch
	x.catch = 0
	x.dry++
	defer func() { x.inSpec--; x.specMode = sm; x.dry--; x.catch = oc }()
	n0 := len(st.pc)
	outs := x.callFn(st.clone(), fn, args, "spec", nil)
	var acc *Term
	var rest []Outcome
	for _, o := range outs {
		if !o.pan {
			rest = append(rest, o)
		}
	}
	if len(rest) == 0 {
		return nil
	}
	for k := len(rest) - 1; k >= 0; k-- {
		o := rest[k]
		b, ok := o.ret.(*Term)
		if !ok {
			return nil
		}
		cond := tTrue
		for _, e := range o.st.pc[n0:] {
			if e.branch {
				cond = tAnd(cond, e.t)
			}
		}
		c2 := tTrue
		for _, e := range o.st.pc[n0:] {
			if e.branch {
				c2 = tAnd(c2, e.t)
			} else {
				st.assume(tImp(c2, e.t))
			}
		}
		if acc == nil {
			acc = tImp(cond, b)
		} else {
			acc = tAnd(tImp(cond, b), acc)
		}
	}
	return acc
}

// ---------- running ----------

func (x *Exec) callFn(st *State, fv Value, args []Value, pos string, c *cfg) []Outcome {
	f, ok := fv.(*FuncV)
	if !ok {
		panic(unsup("call of %T", fv))
	}
	if f.Nil {
		var outs []Outcome
		x.safety(st, "nil function call", pos, tFalse, &outs)
		return outs
	}
	if f.Opaque != "" {
		panic(unsup("call of opaque func %s needs signature", f.Opaque))
	}
	return x.execFunc(st, f.Fn, args, f.Bind, false, pos)
}

func (x *Exec) execFunc(st *State, fn *ssa.Function, args []Value, binds []Value, isDefer bool, pos string) []Outcome {
	if m := x.model(fn); m != nil {
		return m(x, st, fn, args, pos)
	}
	if !x.useOff {
		if uc := x.uses[fn]; uc != nil {
			return x.useCall(st, uc, fn, args, pos)
		}
	}
	if fn.Blocks == nil {
		panic(unsup("external function %s", fn))
	}
	if len(x.stack) > 60 {
		panic(unsup("call depth (recursion?) in %s", fn))
	}
	rec := 0
	for _, f := range x.stack {
		if f == fn {
			rec++
		}
	}
	if rec > 40 {
		panic(unsup("recursion in %s", fn))
	}
	x.T.Inlined[fn.String()] = true
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	env := make(map[ssa.Value]Value, 32)
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		env[fv] = binds[i]
	}
	hasDefer := fn.Recover != nil
	if hasDefer {
		x.catch++
		defer func() { x.catch-- }()
	}
	n0 := len(st.pc)
	h0 := st.heap
	_ = h0
	c := &cfg{fn: fn, env: env, st: st, blk: fn.Blocks[0], cut: map[*ssa.BasicBlock]*cutInfo{}, iters: map[*ssa.BasicBlock]int{}, inDef: isDefer}
	_, outs := x.run(c, nil)
	if len(outs) > 1 && !x.flags["nomergeret"] {
		outs = x.mergeOuts(outs, n0)
	}
	return outs
}

func (x *Exec) onStack(fn *ssa.Function) bool {
	for _, f := range x.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func pathCond(pc []pcEntry) (cond *Term, facts []*Term) {
	cond = tTrue
	for _, e := range pc {
		if e.branch {
			cond = tAnd(cond, e.t)
		} else {
			facts = append(facts, tImp(cond, e.t))
		}
	}
	return
}

// mergeStates merges two states sharing a pc prefix of length n0.
func (x *Exec) mergeStates(a, b *State, n0 int) (*State, *Term, bool) {
	ca, fa := pathCond(a.pc[n0:])
	cb, fb := pathCond(b.pc[n0:])
	m := a.clone()
	m.pc = a.pc[:n0:n0]
	for o, bv := range b.heap {
		av, ok := a.heap[o]
		if !ok {
			m.heap[o] = bv
			continue
		}
		if av == bv || sameVal(av, bv) {
			continue
		}
		v, ok := mergeVal(ca, av, bv)
		if !ok {
			return nil, nil, false
		}
		m.heap[o] = v
	}
	for _, f := range fa {
		m.assume(f)
	}
	for _, f := range fb {
		m.assume(f)
	}
	m.branch(tOr(ca, cb))
	if b.ncut > m.ncut {
		m.ncut = b.ncut
	}
	m.evals = append(m.evals, b.evals[min(len(b.evals), len(commonEvals(a.evals, b.evals))):]...)
	// schemas and index terms: union
	for _, i := range b.idxs {
		found := false
		for _, j := range m.idxs {
			if i == j {
				found = true
				break
			}
		}
		if !found {
			m.idxs = append(m.idxs, i)
		}
	}
	for k, v := range b.names {
		if m.names[k] < v {
			m.names[k] = v
		}
	}
	// a schema of one side only holds on that side
	inB := map[int]*schemaRec{}
	for _, r := range b.schemas {
		inB[r.id] = r
	}
	inA := map[int]bool{}
	for _, r := range m.schemas {
		inA[r.id] = true
		if q := inB[r.id]; q != nil {
			for k := range r.done {
				if !q.done[k] {
					delete(r.done, k)
				}
			}
			if r.cond != nil || q.cond != nil {
				cond := func(c *Term, side *Term) *Term {
					if c == nil {
						return side
					}
					return tAnd(c, side)
				}
				if r.cond != q.cond {
					r.cond = tOr(cond(r.cond, ca), cond(q.cond, cb))
				}
			}
		} else if r.cond == nil {
			r.cond = ca
		} else {
			r.cond = tAnd(r.cond, ca)
		}
	}
	for _, r := range b.clone().schemas {
		if inA[r.id] {
			continue
		}
		if r.cond == nil {
			r.cond = cb
		} else {
			r.cond = tAnd(r.cond, cb)
		}
		m.schemas = append(m.schemas, r)
	}
	if a.panicOn != b.panicOn {
		return nil, nil, false
	}
	return m, ca, true
}

func commonEvals(a, b []evalRec) []evalRec {
	n := 0
	for n < len(a) && n < len(b) && a[n].res == b[n].res {
		n++
	}
	return a[:n]
}

func (x *Exec) mergeOuts(outs []Outcome, n0 int) []Outcome {
	var res []Outcome
	var norm []Outcome
	for _, o := range outs {
		if o.pan {
			res = append(res, o)
		} else {
			norm = append(norm, o)
		}
	}
	for len(norm) > 0 {
		cur := norm[0]
		rest := norm[1:]
		var left []Outcome
		for _, o := range rest {
			ca, _ := pathCond(cur.st.pc[n0:])
			var v Value
			ok := true
			if cur.ret != nil || o.ret != nil {
				v, ok = mergeVal(ca, cur.ret, o.ret)
			}
			if ok {
				if ms, _, ok2 := x.mergeStates(cur.st, o.st, n0); ok2 {
					cur = Outcome{st: ms, ret: v}
					continue
				}
			}
			left = append(left, o)
		}
		res = append(res, cur)
		norm = left
	}
	return res
}

func (x *Exec) mergeCfgs(cs []*cfg, n0 int) []*cfg {
	var res []*cfg
	for len(cs) > 0 {
		cur := cs[0]
		var left []*cfg
	next:
		for _, o := range cs[1:] {
			if len(cur.defers) != len(o.defers) {
				left = append(left, o)
				continue
			}
			ca, _ := pathCond(cur.st.pc[n0:])
			env := map[ssa.Value]Value{}
			for k, v := range cur.env {
				w, ok := o.env[k]
				if !ok {
					continue
				}
				if v == nil || w == nil || k == nil {
					if v == nil && w == nil {
						env[k] = nil
					}
					continue
				}
				if sameVal(v, w) {
					env[k] = v
					continue
				}
				m, ok := mergeVal(ca, v, w)
				if !ok {
					// values defined in blocks dominating the join are needed; phis too
					if ins, isI := k.(ssa.Instruction); isI && !ins.Block().Dominates(cur.blk) {
						continue
					}
					left = append(left, o)
					continue next
				}
				env[k] = m
			}
			ms, _, ok := x.mergeStates(cur.st, o.st, n0)
			if !ok {
				left = append(left, o)
				continue
			}
			n := *cur
			n.env = env
			n.st = ms
			cur = &n
		}
		res = append(res, cur)
		cs = left
	}
	return res
}

// run explores from c until stop (not executing it) or function end.
func (x *Exec) run(c *cfg, stop *ssa.BasicBlock) (at []*cfg, outs []Outcome) {
	work := []*cfg{c}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		a, o, w := x.runOne(c, stop)
		at = append(at, a...)
		outs = append(outs, o...)
		work = append(work, w...)
		if len(at)+len(outs)+len(work) > 3000 {
			panic(unsup("path explosion in %s", c.fn))
		}
	}
	return
}

func (x *Exec) runOne(c *cfg, stop *ssa.BasicBlock) (at []*cfg, outs []Outcome, work []*cfg) {
	for {
		if c.ip >= len(c.blk.Instrs) {
			panic(unsup("fell off block"))
		}
		in := c.blk.Instrs[c.ip]
		x.steps++
		if x.steps&1023 == 0 && time.Now().After(x.deadline) {
			panic(unsup("symbolic execution time limit"))
		}
		if os.Getenv("GOVC_DEBUG") == "trace" {
			fmt.Fprintf(os.Stderr, "%s b%d.%d %s\n", c.fn.Name(), c.blk.Index, c.ip, in)
		}
		switch in := in.(type) {
		case *ssa.If:
			cond, ok := x.get(c, in.Cond).(*Term)
			if !ok {
				panic(unsup("if on non-term"))
			}
			if d, known := c.st.decided(cond); known {
				k := 1
				if d {
					k = 0
				}
				cc, stopHit, o, w := x.goTo(c, c.blk.Succs[k], stop)
				outs = append(outs, o...)
				work = append(work, w...)
				if stopHit {
					at = append(at, cc)
					return
				}
				if cc == nil {
					return
				}
				c = cc
				continue
			}
			ft := x.feasible(c.st, cond)
			ff := true
			if ft {
				ff = x.feasible(c.st, tNot(cond))
			}
			if !ft && !ff {
				return
			}
			if !ft || !ff {
				k := 0
				if !ft {
					k = 1
					c.st.assume(tNot(cond))
				} else {
					c.st.assume(cond)
				}
				cc, stopHit, o, w := x.goTo(c, c.blk.Succs[k], stop)
				outs = append(outs, o...)
				work = append(work, w...)
				if stopHit {
					at = append(at, cc)
					return
				}
				if cc == nil {
					return
				}
				c = cc
				continue
			}
			cf := c.clone()
			n0 := len(c.st.pc)
			blk := c.blk
			c.st.branch(cond)
			cf.st.branch(tNot(cond))
			J := x.P.ipdom(c.fn, blk)
			if x.flags["nomerge"] {
				J = nil
			}
			if J == nil {
				for k, cc := range []*cfg{c, cf} {
					c2, stopHit, o, w := x.goTo(cc, blk.Succs[k], stop)
					outs = append(outs, o...)
					work = append(work, w...)
					if stopHit {
						at = append(at, c2)
					} else if c2 != nil {
						work = append(work, c2)
					}
				}
				return
			}
			var atJ []*cfg
			for k, cc := range []*cfg{c, cf} {
				c2, stopHit, o, w := x.goTo(cc, blk.Succs[k], J)
				outs = append(outs, o...)
				for _, wc := range w {
					a2, o2 := x.run(wc, J)
					atJ = append(atJ, a2...)
					outs = append(outs, o2...)
				}
				if stopHit {
					atJ = append(atJ, c2)
				} else if c2 != nil {
					a2, o2 := x.run(c2, J)
					atJ = append(atJ, a2...)
					outs = append(outs, o2...)
				}
			}
			merged := x.mergeCfgs(atJ, n0)
			for _, m := range merged {
				if J == stop {
					at = append(at, m)
					continue
				}
				c2, o, w := x.arrive(m, stop)
				outs = append(outs, o...)
				work = append(work, w...)
				if c2 != nil {
					work = append(work, c2)
				}
			}
			return
		case *ssa.Jump:
			cc, stopHit, o, w := x.goTo(c, c.blk.Succs[0], stop)
			outs = append(outs, o...)
			work = append(work, w...)
			if stopHit {
				at = append(at, cc)
				return
			}
			if cc == nil {
				return
			}
			c = cc
			continue
		case *ssa.Return:
			var ret Value
			if len(in.Results) == 1 {
				ret = x.get(c, in.Results[0])
			} else if len(in.Results) > 1 {
				tv := make(TupleV, len(in.Results))
				for i, r := range in.Results {
					tv[i] = x.get(c, r)
				}
				ret = tv
			}
			outs = append(outs, Outcome{st: c.st, ret: ret})
			return
		case *ssa.Panic:
			pv := x.get(c, in.X)
			o, w := x.raise(c, pv, x.posOf(c, in))
			outs = append(outs, o...)
			work = append(work, w...)
			return
		}
		// ordinary instruction; may split or panic
		saved := c
		var nexts []*cfg
		var pans []Outcome
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(splitReq); ok {
						if d, known := saved.st.decided(s.cond); known {
							panic(unsup("split on decided condition %v (%v) at %s", s.cond, d, x.posOf(saved, in)))
						}
						t, f := saved.clone(), saved
						if x.feasible(t.st, s.cond) {
							t.st.branch(s.cond)
							nexts = append(nexts, t)
						}
						if x.feasible(f.st, tNot(s.cond)) {
							f.st.branch(tNot(s.cond))
							nexts = append(nexts, f)
						}
						return
					}
					panic(r)
				}
			}()
			nexts, pans = x.step(c, in)
		}()
		for _, p := range pans {
			pc := c.clone()
			pc.st = p.st
			o, w := x.raise2(pc, p)
			outs = append(outs, o...)
			work = append(work, w...)
		}
		if len(nexts) == 1 {
			c = nexts[0]
			continue
		}
		work = append(work, nexts...)
		return
	}
}

// raise starts panicking in frame c.
func (x *Exec) raise(c *cfg, pv Value, pos string) (outs []Outcome, work []*cfg) {
	if x.catch == 0 {
		if x.specMode {
			return nil, nil
		}
		x.oblige(c.st, "safety", "no panic", pos, tFalse)
		return nil, nil
	}
	return x.raise2(c, Outcome{st: c.st, pan: true, pv: pv})
}

func (x *Exec) raise2(c *cfg, p Outcome) (outs []Outcome, work []*cfg) {
	if len(c.defers) == 0 && c.fn.Recover == nil {
		return []Outcome{p}, nil
	}
	c.st.panicOn = true
	c.st.panicV = p.pv
	states := []*cfg{c}
	for i := len(c.defers) - 1; i >= 0; i-- {
		var next []*cfg
		for _, s := range states {
			d := s.defers[i]
			for _, o := range x.callValue(s.st, d.fn, d.args, d.call, true, "defer") {
				n := s.clone()
				n.st = o.st
				if o.pan {
					n.st.panicOn = true
					n.st.panicV = o.pv
				}
				next = append(next, n)
			}
		}
		states = next
	}
	for _, s := range states {
		s.defers = nil
		if s.st.panicOn {
			s.st.panicOn = false
			outs = append(outs, Outcome{st: s.st, pan: true, pv: s.st.panicV})
			continue
		}
		if s.fn.Recover != nil {
			s.blk = s.fn.Recover
			s.ip = 0
			work = append(work, s)
		} else {
			outs = append(outs, Outcome{st: s.st, ret: zeroValue(s.fn.Signature.Results())})
		}
	}
	return
}

// goTo moves c to block b evaluating phis. If b == stop, stopHit.
func (x *Exec) goTo(c *cfg, b *ssa.BasicBlock, stop *ssa.BasicBlock) (nc *cfg, stopHit bool, outs []Outcome, work []*cfg) {
	from := c.blk
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
			break
		}
	}
	ip := 0
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.get(c, ph.Edges[pi]))
		ip++
	}
	for i, ph := range phis {
		c.env[ph] = vals[i]
	}
	c.prev = from
	c.blk = b
	c.ip = ip
	if b == stop {
		return c, true, nil, nil
	}
	nc, outs, work = x.arrive(c, stop)
	return nc, false, outs, work
}

// arrive handles loop headers; c is at a block with phis evaluated.
func (x *Exec) arrive(c *cfg, stop *ssa.BasicBlock) (nc *cfg, outs []Outcome, work []*cfg) {
	b := c.blk
	// leaving a dry-run loop?
	for _, ci := range c.cut {
		if ci.dry && !ci.loop.blocks[b] {
			return nil, nil, nil
		}
	}
	lp := x.P.loopAt(c.fn, b)
	if lp == nil {
		return c, nil, nil
	}
	back := lp.blocks[c.prev]
	if ci := c.cut[b]; ci != nil && back {
		ci.backs = append(ci.backs, c)
		return nil, nil, nil
	}
	if !back {
		c.iters[b] = 0
	} else {
		c.iters[b]++
	}
	// concrete header decision?
	if x.headerConcrete(c, lp) {
		if c.iters[b] > 5000 {
			panic(unsup("unroll limit in %s", c.fn))
		}
		return c, nil, nil
	}
	if x.flags["unroll"] && c.iters[b] < 64 {
		return c, nil, nil
	}
	return x.cutLoop(c, lp, stop)
}

// headerConcrete tries to evaluate the header's branch condition.
func (x *Exec) headerConcrete(c *cfg, lp *loop) bool {
	last := c.blk.Instrs[len(c.blk.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	exits := !lp.blocks[c.blk.Succs[0]] || !lp.blocks[c.blk.Succs[1]]
	if !exits {
		return false
	}
	t := c.clone()
	res := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case unsupported, splitReq:
					return
				}
				panic(r)
			}
		}()
		x.dry++
		oc := x.catch
		x.catch = 0
		defer func() { x.dry--; x.catch = oc }()
		for t.ip < len(t.blk.Instrs)-1 {
			n, _ := x.step(t, t.blk.Instrs[t.ip])
			if len(n) != 1 {
				return
			}
			t = n[0]
		}
		v, ok := x.get(t, iff.Cond).(*Term)
		if ok && (v == tTrue || v == tFalse) {
			res = true
		}
		// going on because an error is nil says nothing about the number of passes
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && res {
			stay := c.blk.Succs[0]
			if v == tFalse {
				stay = c.blk.Succs[1]
			}
			if _, isIface := under(bo.X.Type()).(*types.Interface); isIface && lp.blocks[stay] {
				res = false
			}
		}
	}()
	return res
}

// get evaluates an operand.
func (x *Exec) get(c *cfg, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return &PtrV{Obj: x.globalObj(c.st, v)}
	case *ssa.Function:
		return &FuncV{Fn: v}
	case *ssa.Builtin:
		return v
	}
	r, ok := c.env[v]
	if !ok {
		panic(unsup("undefined value %s in %s", v.Name(), c.fn))
	}
	return r
}

func (x *Exec) constVal(v *ssa.Const) Value {
	if v.Value == nil {
		return zeroValue(v.Type())
	}
	b, ok := under(v.Type()).(*types.Basic)
	if !ok {
		if tp, ok := v.Type().(*types.TypeParam); ok {
			panic(unsup("const of type param %v", tp))
		}
		panic(unsup("const type %v", v.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(v.Value))
	case b.Info()&types.IsInteger != 0:
		iv := constant.ToInt(v.Value)
		if i64, ok := constant.Int64Val(iv); ok {
			return mkInt(i64)
		}
		r, _ := new(big.Rat).SetString(iv.ExactString())
		return mkRat(SInt, r)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(v.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return mkFloat(f)
	case b.Info()&types.IsString != 0:
		return &StrV{Known: true, S: constant.StringVal(v.Value)}
	}
	panic(unsup("const %v", v))
}

func (x *Exec) globalObj(st *State, g *ssa.Global) *Obj {
	if x.P.repoPkg(g.Pkg) && x.flags["initfail:"+g.Pkg.Pkg.Path()] {
		panic(unsup("global %s: package initialiser outside the subset", g.RelString(nil)))
	}
	if o, ok := x.globals[g]; ok {
		return o
	}
	o := newObj("global "+g.RelString(nil), g.Type().(*types.Pointer).Elem())
	o.pre = true
	x.globals[g] = o
	et := g.Type().(*types.Pointer).Elem()
	if x.P.repoPkg(g.Pkg) {
		x.base.heap[o] = zeroValue(et)
		x.initPkg(g.Pkg)
		if x.flags["initfail:"+g.Pkg.Pkg.Path()] {
			panic(unsup("global %s: package initialiser outside the subset", g.RelString(nil)))
		}
	} else {
		name := "g." + g.RelString(nil)
		if _, isI := under(et).(*types.Interface); isI {
			x.base.heap[o] = &OpaqueV{Id: mkInt(int64(o.id)), Origin: name, T: et}
		} else {
			x.base.heap[o] = symValue(x, x.base, et, name, nil)
		}
	}
	return o
}

var initMu sync.Mutex

// initPkg executes the package initialiser concretely into the base heap.
func (x *Exec) initPkg(p *ssa.Package) {
	if x.flags["init:"+p.Pkg.Path()] {
		return
	}
	x.flags["init:"+p.Pkg.Path()] = true
	fn := p.Func("init")
	if fn == nil {
		return
	}
	sub := &Exec{P: x.P, T: &Task{Inlined: map[string]bool{}, Uses: map[string]bool{}, Trusted: map[string]bool{}, Ensures: map[string]int{}, Targets: map[string]bool{}}, globals: x.globals, base: x.base, flags: x.flags, feasMemo: map[string]bool{}, origins: x.origins, deadline: time.Now().Add(60 * time.Second), useOff: true, frozen: map[*Obj]bool{}}
	sub.specMode = true
	st := &State{heap: x.base.heap}
	c := &cfg{fn: fn, env: map[ssa.Value]Value{}, st: st, blk: fn.Blocks[0], cut: map[*ssa.BasicBlock]*cutInfo{}, iters: map[*ssa.BasicBlock]int{}}
	// init$guard branch: skip to the body
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					if os.Getenv("GOVC_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "init:", p.Pkg.Path(), u.msg)
						if os.Getenv("GOVC_DEBUG") == "1" {
							debug.PrintStack()
						}
					}
					x.flags["initfail:"+p.Pkg.Path()] = true
					return
				}
				panic(r)
			}
		}()
		_, outs := sub.run(c, nil)
		if len(outs) == 1 {
			x.base.heap = outs[0].st.heap
		}
	}()
}

func isFloatT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (x *Exec) binop(c *cfg, st *State, op token.Token, a, b Value, t types.Type, pos string, pans *[]Outcome) Value {
	switch op {
	case token.EQL:
		return x.eqValue(st, a, b)
	case token.NEQ:
		return tNot(x.eqValue(st, a, b))
	}
	if as, ok := a.(*StrV); ok {
		bs := b.(*StrV)
		if op == token.ADD {
			if as.Known && bs.Known {
				return &StrV{Known: true, S: as.S + bs.S}
			}
			return &StrV{Id: mkApp(SInt, "strcat", strId(as), strId(bs))}
		}
		if as.Known && bs.Known {
			switch op {
			case token.LSS:
				return mkBool(as.S < bs.S)
			}
		}
		panic(unsup("string op %v", op))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsup("binop %v on %T %T", op, a, b))
	}
	if p.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return tAnd(p, q)
		case token.OR, token.LOR:
			return tOr(p, q)
		case token.XOR:
			return tNot(tEq(p, q))
		}
	}
	switch op {
	case token.LSS:
		return tLt(p, q)
	case token.LEQ:
		return tLe(p, q)
	case token.GTR:
		return tLt(q, p)
	case token.GEQ:
		return tLe(q, p)
	}
	if p.sort == SReal {
		f32 := false
		if bt, ok := under(t).(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		var r *Term
		switch op {
		case token.ADD:
			r = tAdd(p, q)
		case token.SUB:
			r = tSub(p, q)
		case token.MUL:
			r = tMul(p, q)
		case token.QUO:
			if !x.nodiv {
				x.safety(st, "division by zero (non-finite result)", pos, tNot(tEq(q, zeroOf(SReal))), nil)
			}
			r = tDiv(p, q)
		}
		if r == nil {
			panic(unsup("float op %v", op))
		}
		if f32 {
			r = toF32(r)
		}
		return r
	}
	// integers
	wrap := func(r *Term) Value {
		bt, ok := under(t).(*types.Basic)
		if !ok {
			return r
		}
		switch bt.Kind() {
		case types.Uint8:
			return tIMod(r, mkInt(256))
		case types.Uint16:
			return tIMod(r, mkInt(65536))
		case types.Uint32:
			return tIMod(r, mkInt(1<<32))
		case types.Int8, types.Int16, types.Int32:
			return signedWrap(r, bt.Kind())
		}
		return r
	}
	switch op {
	case token.ADD:
		return wrap(tAdd(p, q))
	case token.SUB:
		return wrap(tSub(p, q))
	case token.MUL:
		return wrap(tMul(p, q))
	case token.QUO:
		x.safety(st, "integer divide by zero", pos, tNot(tEq(q, mkInt(0))), pans)
		return goDiv(st, p, q)
	case token.REM:
		x.safety(st, "integer divide by zero", pos, tNot(tEq(q, mkInt(0))), pans)
		return tSub(p, tMul(q, goDiv(st, p, q)))
	case token.SHL:
		return wrap(shl(p, q))
	case token.SHR:
		if k, ok := q.intVal(); ok && k < 62 {
			return tIDiv(p, mkInt(1<<uint(k)))
		}
		return tIDiv(p, tPow2(q))
	case token.AND:
		return bitAnd(p, q)
	case token.OR:
		return bitOr(st, p, q)
	case token.XOR:
		if a, ok := p.intVal(); ok {
			if b, ok := q.intVal(); ok {
				return mkInt(a ^ b)
			}
		}
		return mkApp(SInt, "bitxor", p, q)
	case token.AND_NOT:
		if a, ok := p.intVal(); ok {
			if b, ok := q.intVal(); ok {
				return mkInt(a &^ b)
			}
		}
		return mkApp(SInt, "bitandnot", p, q)
	}
	panic(unsup("int op %v", op))
}

func toF32(t *Term) *Term {
	if t.op == OConst {
		f, _ := t.rat.Float64()
		return mkReal(new(big.Rat).SetFloat64(float64(float32(f))))
	}
	if t.op == OApp && (t.name == "f32" || t.name == "f32frombits") {
		return t
	}
	if t.op == OIte {
		return tIte(t.args[0], toF32(t.args[1]), toF32(t.args[2]))
	}
	return mkApp(SReal, "f32", t)
}

func tPow2(q *Term) *Term {
	if k, ok := q.intVal(); ok && k >= 0 && k < 62 {
		return mkInt(1 << uint(k))
	}
	if q.op == OIte {
		return tIte(q.args[0], tPow2(q.args[1]), tPow2(q.args[2]))
	}
	return mkApp(SInt, "pow2", q)
}
func shl(p, q *Term) *Term { return tMul(p, tPow2(q)) }

func goDiv(st *State, p, q *Term) *Term {
	if a, ok := p.intVal(); ok {
		if b, ok := q.intVal(); ok && b != 0 {
			return mkInt(a / b)
		}
	}
	if b, ok := q.intVal(); ok && b < 0 {
		return tNeg(goDiv(st, p, mkInt(-b)))
	}
	pos := tLe(mkInt(0), p)
	if lo, _, ok := intRange(p); ok && lo >= 0 {
		return tIDiv(p, q)
	}
	if d, known := st.decided(pos); known && d {
		return tIDiv(p, q)
	}
	return tIte(pos, tIDiv(p, q), tNeg(tIDiv(tNeg(p), q)))
}

func bitAnd(p, q *Term) *Term {
	a, ok1 := p.intVal()
	b, ok2 := q.intVal()
	if ok1 && ok2 {
		return mkInt(a & b)
	}
	if ok1 {
		p, q, b, ok2 = q, p, a, true
	}
	if ok2 && b >= 0 {
		// decompose mask into runs
		r := mkInt(0)
		for i := uint(0); i < 62; {
			if b>>i&1 == 0 {
				i++
				continue
			}
			j := i
			for b>>j&1 == 1 {
				j++
			}
			part := tIMod(tIDiv(p, mkInt(1<<i)), mkInt(1<<(j-i)))
			r = tAdd(r, tMul(mkInt(1<<i), part))
			i = j
		}
		return r
	}
	return mkApp(SInt, "bitand", p, q)
}

func divisor(t *Term) int64 { // largest power of two dividing t syntactically
	l := newLin()
	l.addTerm(ratOne, t)
	g := int64(1) << 40
	upd := func(r *big.Rat) {
		if !r.IsInt() || !r.Num().IsInt64() {
			g = 1
			return
		}
		v := r.Num().Int64()
		if v == 0 {
			return
		}
		d := v & -v
		if d < g {
			g = d
		}
	}
	upd(l.c)
	for _, c := range l.coef {
		upd(c)
	}
	return g
}

func bitOr(st *State, p, q *Term) *Term {
	a, ok1 := p.intVal()
	b, ok2 := q.intVal()
	if ok1 && ok2 {
		return mkInt(a | b)
	}
	if ok1 && a == 0 {
		return q
	}
	if ok2 && b == 0 {
		return p
	}
	if lo, hi, ok := intRange(q); ok && lo >= 0 && hi < divisor(p) {
		return tAdd(p, q)
	}
	if lo, hi, ok := intRange(p); ok && lo >= 0 && hi < divisor(q) {
		return tAdd(p, q)
	}
	return mkApp(SInt, "bitor", p, q)
}

// flatten lists the scalar leaves of a value.
func flatten(v Value, out []*Term) []*Term {
	switch a := v.(type) {
	case *Term:
		return append(out, a)
	case *StructV:
		for _, f := range a.F {
			out = flatten(f, out)
		}
		return out
	case TupleV:
		for _, f := range a {
			out = flatten(f, out)
		}
		return out
	case *OpaqueV:
		return append(out, a.Id)
	case *StrV:
		return append(out, strId(a))
	case *SliceV:
		if a.Obj != nil {
			return append(out, mkInt(int64(a.Obj.id)), a.Off, a.Len)
		}
		return append(out, mkInt(0))
	case *PtrV:
		if a.Obj == nil {
			return append(out, mkInt(0))
		}
		return append(out, mkInt(int64(a.Obj.id)))
	case *IfaceV:
		if a.T == nil {
			return append(out, mkInt(0))
		}
		return flatten(a.V, out)
	}
	panic(unsup("flatten %T", v))
}

func (x *Exec) nilCheck(c *cfg, p Value, pos string, pans *[]Outcome) *PtrV {
	pp, ok := p.(*PtrV)
	if !ok {
		panic(unsup("pointer expected, got %T", p))
	}
	if pp.Obj == nil {
		if x.catch > 0 {
			*pans = append(*pans, Outcome{st: c.st.clone(), pan: true, pv: &StrV{Known: true, S: "nil dereference"}})
		} else {
			x.oblige(c.st, "safety", "nil dereference", pos, tFalse)
		}
		return nil
	}
	return pp
}

// step executes one non-terminator instruction.
func (x *Exec) step(c *cfg, in ssa.Instruction) (nexts []*cfg, pans []Outcome) {
	pos := ""
	ps := func() string {
		if pos == "" {
			pos = x.posOf(c, in)
		}
		return pos
	}
	one := func(v Value) ([]*cfg, []Outcome) {
		if iv, ok := in.(ssa.Value); ok {
			c.env[iv] = v
		}
		c.ip++
		return []*cfg{c}, pans
	}
	dead := func() ([]*cfg, []Outcome) { return nil, pans }
	switch in := in.(type) {
	case *ssa.DebugRef:
		c.ip++
		return []*cfg{c}, nil
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := newObj(in.Comment, t)
		c.st.heap[o] = zeroValue(t)
		return one(&PtrV{Obj: o})
	case *ssa.BinOp:
		v := x.binop(c, c.st, in.Op, x.get(c, in.X), x.get(c, in.Y), in.X.Type(), ps(), &pans)
		return one(v)
	case *ssa.UnOp:
		v := x.get(c, in.X)
		switch in.Op {
		case token.MUL:
			p := x.nilCheck(c, v, ps(), &pans)
			if p == nil {
				return dead()
			}
			return one(x.load(c.st, p))
		case token.NOT:
			return one(tNot(v.(*Term)))
		case token.SUB:
			t := v.(*Term)
			return one(tNeg(t))
		case token.XOR:
			t := v.(*Term)
			if b, ok := under(in.Type()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return one(tSub(mkInt(255), t))
			}
			return one(tSub(tNeg(t), mkInt(1)))
		}
		panic(unsup("unop %v", in.Op))
	case *ssa.Store:
		p := x.nilCheck(c, x.get(c, in.Addr), ps(), &pans)
		if p == nil {
			return dead()
		}
		x.store(c.st, p, x.get(c, in.Val), ps())
		c.ip++
		return []*cfg{c}, pans
	case *ssa.FieldAddr:
		p := x.nilCheck(c, x.get(c, in.X), ps(), &pans)
		if p == nil {
			return dead()
		}
		return one(&PtrV{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], PathEl{F: in.Field})})
	case *ssa.Field:
		return one(x.get(c, in.X).(*StructV).F[in.Field])
	case *ssa.IndexAddr:
		i := x.get(c, in.Index).(*Term)
		switch b := x.get(c, in.X).(type) {
		case *SliceV:
			x.safety(c.st, "index out of range", ps(), tAnd(tLe(mkInt(0), i), tLt(i, b.Len)), &pans)
			if b.Obj == nil {
				return dead()
			}
			return one(&PtrV{b.Obj, append(b.Path[:len(b.Path):len(b.Path)], PathEl{F: -1, Idx: tAdd(b.Off, i)})})
		case *PtrV:
			p := x.nilCheck(c, b, ps(), &pans)
			if p == nil {
				return dead()
			}
			n := under(in.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Array).Len()
			x.safety(c.st, "index out of range", ps(), tAnd(tLe(mkInt(0), i), tLt(i, mkInt(n))), &pans)
			if k, ok := i.intVal(); ok && (k < 0 || k >= n) {
				return dead()
			}
			return one(&PtrV{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], PathEl{F: -1, Idx: i})})
		}
		panic(unsup("indexaddr"))
	case *ssa.Index:
		i := x.get(c, in.Index).(*Term)
		switch b := x.get(c, in.X).(type) {
		case *StructV:
			x.safety(c.st, "index out of range", ps(), tAnd(tLe(mkInt(0), i), tLt(i, mkInt(int64(len(b.F))))), &pans)
			if k, ok := i.intVal(); ok && (k < 0 || k >= int64(len(b.F))) {
				return dead()
			}
			return one(x.loadPath(c.st, b, []PathEl{{F: -1, Idx: i}}))
		case *StrV:
			if k, ok := i.intVal(); ok && b.Known {
				if k < 0 || int(k) >= len(b.S) {
					x.safety(c.st, "index out of range", ps(), tFalse, &pans)
					return dead()
				}
				return one(mkInt(int64(b.S[k])))
			}
		}
		panic(unsup("index"))
	case *ssa.Lookup:
		switch b := x.get(c, in.X).(type) {
		case *StrV:
			i := x.get(c, in.Index).(*Term)
			if k, ok := i.intVal(); ok && b.Known {
				if k < 0 || int(k) >= len(b.S) {
					x.safety(c.st, "index out of range", ps(), tFalse, &pans)
					return dead()
				}
				return one(mkInt(int64(b.S[k])))
			}
			panic(unsup("string index"))
		case *MapV:
			mt := under(in.X.Type()).(*types.Map)
			var v Value
			var ok *Term
			if b.Obj == nil {
				v, ok = zeroValue(mt.Elem()), tFalse
			} else {
				v, ok = x.mapLookup(c.st, x.content(c.st, b.Obj).(*MapState), x.get(c, in.Index))
			}
			if in.CommaOk {
				return one(TupleV{v, ok})
			}
			return one(v)
		}
		panic(unsup("lookup"))
	case *ssa.MapUpdate:
		m := x.get(c, in.Map).(*MapV)
		if m.Obj == nil {
			x.safety(c.st, "assignment to nil map", ps(), tFalse, &pans)
			return dead()
		}
		x.checkFrame(c.st, m.Obj, ps())
		ms := x.content(c.st, m.Obj).(*MapState)
		k := x.get(c, in.Key)
		_, has := x.mapLookupHas(c.st, ms, k)
		n := tIte(has, ms.N, tAdd(ms.N, mkInt(1)))
		c.st.heap[m.Obj] = &MapState{K: ms.K, E: ms.E, Prev: ms, Key: k, Val: x.get(c, in.Value), N: n}
		c.ip++
		return []*cfg{c}, pans
	case *ssa.MakeMap:
		mt := under(in.Type()).(*types.Map)
		o := newObj("map", in.Type())
		c.st.heap[o] = &MapState{K: mt.Key(), E: mt.Elem(), N: mkInt(0)}
		return one(&MapV{o})
	case *ssa.MakeSlice:
		st := under(in.Type()).(*types.Slice)
		n := x.get(c, in.Len).(*Term)
		cp := x.get(c, in.Cap).(*Term)
		x.safety(c.st, "makeslice: len out of range", ps(), tAnd(tLe(mkInt(0), n), tLe(n, cp)), &pans)
		o := newObj("make", st.Elem())
		if k, ok := cp.intVal(); ok && k <= bigArray {
			o.T = types.NewArray(st.Elem(), k)
			f := make([]Value, k)
			z := zeroValue(st.Elem())
			for i := range f {
				f[i] = z
			}
			c.st.heap[o] = &StructV{f}
		} else {
			c.st.heap[o] = &ArrState{Elem: st.Elem(), Zero: true}
		}
		return one(&SliceV{Obj: o, Off: mkInt(0), Len: n, Cap: cp})
	case *ssa.Slice:
		return x.doSlice(c, in, ps(), &pans)
	case *ssa.MakeInterface:
		return one(&IfaceV{T: in.X.Type(), V: x.get(c, in.X)})
	case *ssa.ChangeInterface:
		v := x.get(c, in.X)
		if o, ok := v.(*OpaqueV); ok {
			return one(&OpaqueV{Id: o.Id, Origin: o.Origin, T: in.Type()})
		}
		return one(v)
	case *ssa.ChangeType:
		return one(x.get(c, in.X))
	case *ssa.Convert:
		return one(x.convert(c, in))
	case *ssa.MultiConvert:
		panic(unsup("multiconvert"))
	case *ssa.SliceToArrayPointer:
		panic(unsup("slice to array pointer"))
	case *ssa.TypeAssert:
		return x.typeAssert(c, in, ps(), &pans)
	case *ssa.Extract:
		t, ok := x.get(c, in.Tuple).(TupleV)
		if !ok {
			panic(unsup("extract from %T", x.get(c, in.Tuple)))
		}
		return one(t[in.Index])
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range in.Bindings {
			b = append(b, x.get(c, v))
		}
		return one(&FuncV{Fn: in.Fn.(*ssa.Function), Bind: b})
	case *ssa.Range:
		switch b := x.get(c, in.X).(type) {
		case *StrV:
			if b.Known {
				o := newObj("iter", nil)
				c.st.heap[o] = mkInt(0)
				return one(TupleV{b, &PtrV{Obj: o}})
			}
		case *MapV:
			return one(TupleV{b, nil})
		}
		panic(unsup("range over unknown string"))
	case *ssa.Next:
		it := x.get(c, in.Iter).(TupleV)
		if m, ok := it[0].(*MapV); ok {
			// any key of the map, or the end: over-approximates every order
			tt := in.Type().(*types.Tuple)
			if m.Obj == nil {
				return one(TupleV{tFalse, zeroValue(tt.At(1).Type()), zeroValue(tt.At(2).Type())})
			}
			ms := x.content(c.st, m.Obj).(*MapState)
			nm := c.st.fresh("next")
			more := mkVar(SBool, nm+".more")
			k := symValue(x, c.st, ms.K, nm+".key", nil)
			v, has := x.mapLookupHas(c.st, ms, k)
			c.st.assume(tImp(more, has))
			return one(TupleV{more, k, v})
		}
		s := it[0].(*StrV)
		p := it[1].(*PtrV)
		k, _ := x.content(c.st, p.Obj).(*Term).intVal()
		if int(k) >= len(s.S) {
			return one(TupleV{tFalse, mkInt(0), mkInt(0)})
		}
		var r rune
		var w int
		for i, rr := range s.S[k:] {
			if i == 0 {
				r = rr
				w = len(string(rr))
			}
			break
		}
		c.st.heap[p.Obj] = mkInt(k + int64(w))
		return one(TupleV{tTrue, mkInt(k), mkInt(int64(r))})
	case *ssa.Defer:
		var args []Value
		for _, a := range in.Call.Args {
			args = append(args, x.get(c, a))
		}
		var fv Value
		if !in.Call.IsInvoke() {
			fv = x.get(c, in.Call.Value)
		} else {
			fv = x.get(c, in.Call.Value)
		}
		c.defers = append(c.defers, deferred{fv, args, &in.Call})
		c.ip++
		return []*cfg{c}, pans
	case *ssa.RunDefers:
		states := []*cfg{c}
		ds := c.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*cfg
			for _, s := range states {
				outs := x.callValue(s.st, ds[i].fn, ds[i].args, ds[i].call, true, ps())
				for j, o := range outs {
					if o.pan {
						pans = append(pans, o)
						continue
					}
					n := s
					if j < len(outs)-1 {
						n = s.clone()
					}
					n.st = o.st
					next = append(next, n)
				}
			}
			states = next
		}
		for _, s := range states {
			s.defers = nil
			s.ip++
		}
		return states, pans
	case *ssa.Call:
		fv := Value(nil)
		if in.Call.IsInvoke() {
			fv = x.get(c, in.Call.Value)
		} else {
			fv = x.get(c, in.Call.Value)
		}
		var args []Value
		for _, a := range in.Call.Args {
			args = append(args, x.get(c, a))
		}
		outs := x.callValue2(c, fv, args, &in.Call, ps())
		var norm []Outcome
		for _, o := range outs {
			if o.pan {
				pans = append(pans, o)
			} else {
				norm = append(norm, o)
			}
		}
		for i, o := range norm {
			n := c
			if i < len(norm)-1 {
				n = c.clone()
			}
			n.st = o.st
			n.env[in] = o.ret
			n.ip++
			nexts = append(nexts, n)
		}
		return nexts, pans
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		panic(unsup("concurrency instruction %s", in))
	}
	panic(unsup("instruction %T", in))
}

func (x *Exec) callValue2(c *cfg, fv Value, args []Value, call *ssa.CallCommon, pos string) []Outcome {
	return x.callValueD(c.st, fv, args, call, false, pos, c)
}
func (x *Exec) callValue(st *State, fv Value, args []Value, call *ssa.CallCommon, isDefer bool, pos string) []Outcome {
	return x.callValueD(st, fv, args, call, isDefer, pos, nil)
}

func (x *Exec) callValueD(st *State, fv Value, args []Value, call *ssa.CallCommon, isDefer bool, pos string, c *cfg) []Outcome {
	if call.IsInvoke() {
		switch r := fv.(type) {
		case *IfaceV:
			if r.T == nil {
				var outs []Outcome
				x.safety(st, "nil interface method call "+call.Method.Name(), pos, tFalse, &outs)
				return outs
			}
			fn := x.P.methodOf(r.T, call.Method)
			if fn == nil {
				panic(unsup("no method %s on %v", call.Method.Name(), r.T))
			}
			return x.execFunc(st, fn, append([]Value{r.V}, args...), nil, isDefer, pos)
		case *OpaqueV:
			if x.opaqueNil(r) != tFalse {
				var outs []Outcome
				x.safety(st, "nil interface method call "+call.Method.Name(), pos, tNot(x.opaqueNil(r)), &outs)
				if len(outs) > 0 && st.infeasible() {
					return outs
				}
				return append(outs, x.opaqueCall(st, r, call.Method, args, pos)...)
			}
			return x.opaqueCall(st, r, call.Method, args, pos)
		}
		panic(unsup("invoke on %T", fv))
	}
	if b, ok := fv.(*ssa.Builtin); ok {
		return x.builtin(st, b, args, call, pos, c)
	}
	f, ok := fv.(*FuncV)
	if !ok {
		panic(unsup("call of %T", fv))
	}
	if f.Nil {
		var outs []Outcome
		x.safety(st, "nil function call", pos, tFalse, &outs)
		return outs
	}
	if f.Opaque != "" {
		return []Outcome{{st: st, ret: x.ufResult(st, "call."+f.Opaque, call.Signature().Results(), args)}}
	}
	if f.Fn.Name() == "init" && f.Fn.Parent() == nil && f.Fn.Synthetic != "" && f.Fn.Signature.Recv() == nil {
		// package initialiser of an import: repo packages are initialised on
		// first use of one of their globals, others have symbolic globals.
		return []Outcome{{st: st}}
	}
	return x.execFunc(st, f.Fn, args, f.Bind, isDefer, pos)
}

// ufResult applies an uninterpreted pure function.
func (x *Exec) ufResult(st *State, name string, res *types.Tuple, args []Value) Value {
	var fl []*Term
	for _, a := range args {
		fl = flatten(a, fl)
	}
	if res.Len() == 0 {
		return nil
	}
	if res.Len() == 1 {
		return symValue(x, st, res.At(0).Type(), name, fl)
	}
	var tv TupleV
	for i := 0; i < res.Len(); i++ {
		tv = append(tv, symValue(x, st, res.At(i).Type(), fmt.Sprintf("%s#%d", name, i), fl))
	}
	return tv
}

// opaqueCall: method of an unknown interface value = uninterpreted function.
func (x *Exec) opaqueCall(st *State, r *OpaqueV, m *types.Func, args []Value, pos string) []Outcome {
	sig := m.Type().(*types.Signature)
	all := append([]Value{r.Id}, args...)
	if m.Name() == "Error" {
		return []Outcome{{st: st, ret: &StrV{Id: mkApp(SInt, "errstr", r.Id)}}}
	}
	if len(args) == 0 && m.Name() == "Bounds" {
		v := x.ufResult(st, "Bounds", sig.Results(), all)
		// a bounding box is well formed
		if oi := x.origins[r.Origin]; oi != nil && !oi.flags["rawbox"] {
			b := v.(*StructV)
			lo, hi := flatten(b.F[0], nil), flatten(b.F[1], nil)
			for i := range lo {
				st.assume(tLe(lo[i], hi[i]))
			}
		}
		return []Outcome{{st: st, ret: v}}
	}
	if m.Name() == "Evaluate" {
		v := x.ufResult(st, "Eval", sig.Results(), all).(*Term)
		pt := flatten(args[0], nil)
		x.evalFacts(st, r, pt, v, sig)
		return []Outcome{{st: st, ret: v}}
	}
	panic(unsup("method %s of unknown %v (origin %s)", m.Name(), r.T, r.Origin))
}

// evalFacts instantiates the interface contract of an operand at one evaluation.
func (x *Exec) evalFacts(st *State, r *OpaqueV, pt []*Term, v *Term, sig *types.Signature) {
	oi := x.origins[r.Origin]
	for _, e := range st.evals {
		if e.res == v {
			return
		}
	}
	old := st.evals
	st.evals = append(st.evals, evalRec{r.Origin, r.Id, pt, v})
	if oi == nil {
		return
	}
	var lo, hi []*Term
	bb := func() {
		if lo != nil {
			return
		}
		names := []string{"X", "Y", "Z"}[:len(pt)]
		for _, n := range names {
			lo = append(lo, mkApp(SReal, "Bounds.Min."+n, r.Id))
			hi = append(hi, mkApp(SReal, "Bounds.Max."+n, r.Id))
		}
		for i := range lo {
			if !oi.flags["rawbox"] {
				st.assume(tLe(lo[i], hi[i]))
			}
		}
	}
	z := zeroOf(SReal)
	if oi.flags["sound"] {
		bb()
		in := tTrue
		for i := range pt {
			in = tAnd(in, tLe(lo[i], pt[i]), tLe(pt[i], hi[i]))
		}
		st.assume(tImp(tLe(v, z), in))
	}
	if oi.flags["cheb"] {
		bb()
		for i := range pt {
			st.assume(tLe(tSub(lo[i], pt[i]), v))
			st.assume(tLe(tSub(pt[i], hi[i]), v))
		}
	}
	if oi.flags["euclid"] { // value at least the euclidean distance to the box
		bb()
		sum := z
		for i := range pt {
			d := tMax(tMax(tSub(lo[i], pt[i]), tSub(pt[i], hi[i])), z)
			sum = tAdd(sum, tMul(d, d))
		}
		st.assume(tLe(tSqrt(sum), tMax(v, z)))
	}
	if oi.flags["within"] { // no farther than the farthest corner of its box
		bb()
		sum := z
		for i := range pt {
			d := tMax(tAbs(tSub(lo[i], pt[i])), tAbs(tSub(pt[i], hi[i])))
			sum = tAdd(sum, tMul(d, d))
		}
		st.assume(tLe(v, tSqrt(sum)))
	}
	if oi.flags["finite"] {
		st.assume(tLe(v, mkFloatRaw(math.MaxFloat64)))
	}
	if oi.flags["lip"] {
		for _, e := range old {
			if e.origin != r.Origin {
				continue
			}
			sum := z
			for i := range pt {
				d := tSub(pt[i], e.args[i])
				sum = tAdd(sum, tMul(d, d))
			}
			n := tSqrt(sum)
			f := tAnd(tLe(tSub(v, e.res), n), tLe(tSub(e.res, v), n))
			st.assume(tImp(tEq(r.Id, e.id), f))
		}
	}
	for _, h := range oi.hooks {
		var a Value
		if len(pt) == 3 {
			a = &StructV{[]Value{pt[0], pt[1], pt[2]}}
		} else {
			a = &StructV{[]Value{pt[0], pt[1]}}
		}
		args := []Value{a, v}
		if len(h.Fn.Params) == 3 {
			args = []Value{r, a, v}
		}
		if b := x.evalSpec(st, h, args); b != nil {
			st.assume(b)
		}
	}
}

func (x *Exec) doSlice(c *cfg, in *ssa.Slice, pos string, pans *[]Outcome) ([]*cfg, []Outcome) {
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = x.get(c, in.Low).(*Term)
	} else {
		lo = mkInt(0)
	}
	if in.High != nil {
		hi = x.get(c, in.High).(*Term)
	}
	if in.Max != nil {
		mx = x.get(c, in.Max).(*Term)
	}
	set := func(v Value) ([]*cfg, []Outcome) {
		c.env[in] = v
		c.ip++
		return []*cfg{c}, *pans
	}
	switch b := x.get(c, in.X).(type) {
	case *SliceV:
		if hi == nil {
			hi = b.Len
		}
		cp := b.Cap
		if mx != nil {
			cp = mx
		}
		x.safety(c.st, "slice bounds out of range", pos, tAnd(tLe(mkInt(0), lo), tLe(lo, hi), tLe(hi, cp), tLe(cp, b.Cap)), pans)
		if b.Obj == nil {
			return set(b)
		}
		return set(&SliceV{Obj: b.Obj, Path: b.Path, Off: tAdd(b.Off, lo), Len: tSub(hi, lo), Cap: tSub(cp, lo), Spare: b.Spare})
	case *PtrV:
		p := x.nilCheck(c, b, pos, pans)
		if p == nil {
			return nil, *pans
		}
		n := mkInt(under(in.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		x.safety(c.st, "slice bounds out of range", pos, tAnd(tLe(mkInt(0), lo), tLe(lo, hi), tLe(hi, cp), tLe(cp, n)), pans)
		return set(&SliceV{Obj: p.Obj, Path: p.Path, Off: lo, Len: tSub(hi, lo), Cap: tSub(cp, lo)})
	case *StrV:
		if b.Known {
			l, ok1 := lo.intVal()
			h := int64(len(b.S))
			ok2 := true
			if hi != nil {
				h, ok2 = hi.intVal()
			}
			if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(b.S)) {
				return set(&StrV{Known: true, S: b.S[l:h]})
			}
		}
		return set(&StrV{Id: mkApp(SInt, "substr", strId(b), lo)})
	}
	panic(unsup("slice of %T", x.get(c, in.X)))
}

// signedWrap: two's complement of 8, 16 or 32 bits
func signedWrap(r *Term, k types.BasicKind) *Term {
	half := int64(1) << 31
	switch k {
	case types.Int8:
		half = 1 << 7
	case types.Int16:
		half = 1 << 15
	}
	if lo, hi, ok := intRange(r); ok && lo >= -half && hi < half {
		return r
	}
	return tSub(tIMod(tAdd(r, mkInt(half)), mkInt(2*half)), mkInt(half))
}

func (x *Exec) convert(c *cfg, in *ssa.Convert) Value {
	v := x.get(c, in.X)
	from, fok := under(in.X.Type()).(*types.Basic)
	to, tok := under(in.Type()).(*types.Basic)
	if !fok || !tok {
		if tok && to.Info()&types.IsString != 0 {
			return &StrV{Id: freshVar(SInt, "strconv")}
		}
		if s, ok := v.(*StrV); ok {
			if sl, ok := under(in.Type()).(*types.Slice); ok {
				if s.Known {
					f := make([]Value, len(s.S))
					for i := range f {
						f[i] = mkInt(int64(s.S[i]))
					}
					o := newObj("bytes", types.NewArray(sl.Elem(), int64(len(f))))
					c.st.heap[o] = &StructV{f}
					n := mkInt(int64(len(s.S)))
					return &SliceV{Obj: o, Off: mkInt(0), Len: n, Cap: n}
				}
			}
		}
		panic(unsup("convert %v -> %v", in.X.Type(), in.Type()))
	}
	if to.Info()&types.IsString != 0 {
		if s, ok := v.(*StrV); ok {
			return s
		}
		return &StrV{Id: freshVar(SInt, "strconv")}
	}
	t, ok := v.(*Term)
	if !ok {
		panic(unsup("convert %T", v))
	}
	switch {
	case from.Info()&types.IsInteger != 0 && to.Info()&types.IsInteger != 0:
		switch to.Kind() {
		case types.Uint8:
			return tIMod(t, mkInt(256))
		case types.Uint16:
			if from.Kind() == types.Uint8 {
				return t
			}
			return tIMod(t, mkInt(65536))
		case types.Uint32:
			if from.Kind() == types.Uint8 || from.Kind() == types.Uint16 {
				return t
			}
			return tIMod(t, mkInt(1<<32))
		case types.Int8, types.Int16, types.Int32:
			if from.Kind() == to.Kind() {
				return t
			}
			return signedWrap(t, to.Kind())
		}
		return t
	case from.Info()&types.IsInteger != 0 && to.Info()&types.IsFloat != 0:
		r := tToReal(t)
		if to.Kind() == types.Float32 {
			return toF32(r)
		}
		return r
	case from.Info()&types.IsFloat != 0 && to.Info()&types.IsInteger != 0:
		if t.op == OToReal {
			return t.args[0]
		}
		if synNonNeg(t) {
			return tFloor(t)
		}
		return tIte(tLe(zeroOf(SReal), t), tFloor(t), tNeg(tFloor(tNeg(t))))
	case from.Info()&types.IsFloat != 0 && to.Info()&types.IsFloat != 0:
		if to.Kind() == types.Float32 && from.Kind() != types.Float32 {
			return toF32(t)
		}
		return t
	}
	panic(unsup("convert %v -> %v", from, to))
}

func (x *Exec) typeAssert(c *cfg, in *ssa.TypeAssert, pos string, pans *[]Outcome) ([]*cfg, []Outcome) {
	v := x.get(c, in.X)
	set := func(r Value, ok *Term) ([]*cfg, []Outcome) {
		if in.CommaOk {
			c.env[in] = TupleV{r, ok}
		} else {
			if ok == tFalse {
				x.safety(c.st, "type assertion", pos, tFalse, pans)
				return nil, *pans
			}
			c.env[in] = r
		}
		c.ip++
		return []*cfg{c}, *pans
	}
	_, toIface := under(in.AssertedType).(*types.Interface)
	switch a := v.(type) {
	case *IfaceV:
		if a.T == nil {
			return set(zeroValue(in.AssertedType), tFalse)
		}
		if toIface {
			if types.Implements(a.T, under(in.AssertedType).(*types.Interface)) {
				return set(a, tTrue)
			}
			return set(zeroValue(in.AssertedType), tFalse)
		}
		if types.Identical(a.T, in.AssertedType) {
			return set(a.V, tTrue)
		}
		return set(zeroValue(in.AssertedType), tFalse)
	case *OpaqueV:
		if toIface {
			if types.Implements(a.T, under(in.AssertedType).(*types.Interface)) {
				return set(&OpaqueV{Id: a.Id, Origin: a.Origin, T: in.AssertedType}, tTrue)
			}
		}
		// an unknown value is of no concrete type known to the package
		if in.CommaOk {
			return set(zeroValue(in.AssertedType), tFalse)
		}
		panic(unsup("type assertion on unknown value to %v", in.AssertedType))
	case *StrV:
		// panic payload
		return set(zeroValue(in.AssertedType), tFalse)
	}
	panic(unsup("type assert on %T", v))
}

// ---------- maps ----------

func (x *Exec) mapLookup(st *State, m *MapState, k Value) (Value, *Term) {
	v, has := x.mapLookupHas(st, m, k)
	return v, has
}
func (x *Exec) mapLookupHas(st *State, m *MapState, k Value) (Value, *Term) {
	if m.A != nil {
		v1, h1 := x.mapLookupHas(st, m.A, k)
		v2, h2 := x.mapLookupHas(st, m.B, k)
		v, ok := mergeValIdx(m.Cond, v1, v2)
		if !ok {
			panic(splitReq{m.Cond})
		}
		return v, tIte(m.Cond, h1, h2)
	}
	if m.Prev == nil {
		if m.Sym == "" {
			return zeroValue(m.E), tFalse
		}
		fk := flatten(k, nil)
		has := mkApp(SBool, m.Sym+".has", fk...)
		v := symValue(x, st, m.E, m.Sym+".val", fk)
		z := zeroValue(m.E)
		if r, ok := mergeValIdx(has, v, z); ok {
			return r, has
		}
		return v, has
	}
	c := x.eqValue(st, k, m.Key)
	if d, known := st.decided(c); known {
		if d {
			return m.Val, tTrue
		}
		return x.mapLookupHas(st, m.Prev, k)
	}
	ov, oh := x.mapLookupHas(st, m.Prev, k)
	v, ok := mergeValIdx(c, m.Val, ov)
	if !ok {
		panic(splitReq{c})
	}
	return v, tOr(c, oh)
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

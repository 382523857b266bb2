package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type cutInfo struct {
	dry   bool
	loop  *loop
	backs []*cfg
}

// mloc is a modified heap location: an object and a path of struct/array fields.
type mloc struct {
	obj  *Obj
	path string
	els  []PathEl
}

type modSet struct {
	m map[*Obj]map[string][]PathEl
}

func pathKey(p []PathEl) string {
	var sb strings.Builder
	for _, e := range p {
		fmt.Fprintf(&sb, ".%d", e.F)
	}
	return sb.String()
}

func (ms *modSet) add(o *Obj, p []PathEl) bool {
	k := pathKey(p)
	if ms.m[o] == nil {
		ms.m[o] = map[string][]PathEl{}
	}
	// a prefix already covers it
	for q := range ms.m[o] {
		if q == k || strings.HasPrefix(k, q+".") || q == "" {
			return false
		}
	}
	ms.m[o][k] = append([]PathEl(nil), p...)
	return true
}

func diffVal(a, b Value, path []PathEl, f func([]PathEl)) {
	if a == b || sameVal(a, b) {
		return
	}
	av, ok1 := a.(*StructV)
	bv, ok2 := b.(*StructV)
	if ok1 && ok2 && len(av.F) == len(bv.F) && len(av.F) <= 64 {
		for i := range av.F {
			diffVal(av.F[i], bv.F[i], append(path[:len(path):len(path)], PathEl{F: i}), f)
		}
		return
	}
	f(path)
}

func getPath(v Value, p []PathEl) Value {
	for _, e := range p {
		v = v.(*StructV).F[e.F]
	}
	return v
}
func setPath(v Value, p []PathEl, nv Value) Value {
	if len(p) == 0 {
		return nv
	}
	s := v.(*StructV)
	f := append([]Value(nil), s.F...)
	f[p[0].F] = setPath(f[p[0].F], p[1:], nv)
	return &StructV{f}
}

// typeAtPath: static type of the location.
func typeAtPath(t types.Type, p []PathEl) types.Type {
	for _, e := range p {
		switch u := under(t).(type) {
		case *types.Struct:
			t = u.Field(e.F).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

// havocVal produces an arbitrary value of the same shape as v.
func (x *Exec) havocVal(st *State, v Value, t types.Type, name string, backs []Value) Value {
	switch a := v.(type) {
	case *Term:
		n := name
		if t != nil {
			n = intPrefix(t) + name
		}
		w := mkVar(a.sort, n)
		if t != nil && intPrefix(t) != "" {
			hi := int64(255)
			if intPrefix(t) == "u32:" {
				hi = 1<<32 - 1
			}
			st.assume(tLe(mkInt(0), w))
			st.assume(tLe(w, mkInt(hi)))
		}
		return w
	case *StructV:
		f := make([]Value, len(a.F))
		for i := range f {
			var ft types.Type
			if t != nil {
				switch u := under(t).(type) {
				case *types.Struct:
					ft = u.Field(i).Type()
				case *types.Array:
					ft = u.Elem()
				}
			}
			var bs []Value
			for _, b := range backs {
				if s, ok := b.(*StructV); ok && len(s.F) == len(a.F) {
					bs = append(bs, s.F[i])
				}
			}
			f[i] = x.havocVal(st, a.F[i], ft, fmt.Sprintf("%s.%d", name, i), bs)
		}
		return &StructV{f}
	case *SliceV:
		same := a.Obj != nil
		for _, b := range backs {
			if s, ok := b.(*SliceV); !ok || s.Obj != a.Obj {
				same = false
			}
		}
		if same && len(backs) > 0 {
			off, l, cp := mkVar(SInt, name+".off"), mkVar(SInt, name+".len"), mkVar(SInt, name+".cap")
			st.assume(tLe(mkInt(0), off))
			st.assume(tLe(mkInt(0), l))
			st.assume(tLe(l, cp))
			// never beyond the end of the backing array
			st.assume(tLe(tAdd(off, cp), tAdd(a.Off, a.Cap)))
			return &SliceV{Obj: a.Obj, Path: a.Path, Off: off, Len: l, Cap: cp, Spare: a.Spare}
		}
		var et types.Type
		if t != nil {
			if u, ok := under(t).(*types.Slice); ok {
				et = u.Elem()
			}
		}
		if et == nil {
			panic(unsup("havoc of slice without type"))
		}
		o := newObj(name, et)
		l := mkVar(SInt, name+".len")
		cp := mkVar(SInt, name+".cap")
		st.assume(tLe(mkInt(0), l))
		st.assume(tLe(l, cp))
		st.heap[o] = &ArrState{Elem: et, Sym: name + ".el"}
		return &SliceV{Obj: o, Off: mkInt(0), Len: l, Cap: cp}
	case *ArrState:
		return &ArrState{Elem: a.Elem, Sym: name + ".el"}
	case *MapState:
		n := mkVar(SInt, name+".len")
		st.assume(tLe(mkInt(0), n))
		return &MapState{K: a.K, E: a.E, Sym: name, N: n}
	case *StrV:
		return &StrV{Id: mkVar(SInt, "str."+name)}
	case *OpaqueV:
		return &OpaqueV{Id: mkVar(SInt, name+".id"), Origin: a.Origin, T: a.T}
	case *IfaceV:
		// same dynamic type on every back edge: havoc the payload
		all := a.T != nil
		var bs []Value
		for _, b := range backs {
			bi, ok := b.(*IfaceV)
			if !ok || bi.T == nil || a.T == nil || !types.Identical(bi.T, a.T) {
				all = false
				break
			}
			bs = append(bs, bi.V)
		}
		if all && len(bs) > 0 {
			return &IfaceV{a.T, x.havocVal(st, a.V, a.T, name, bs)}
		}
		if t == nil {
			panic(unsup("havoc of interface"))
		}
		org := "?" + name
		for _, b := range backs {
			if bo, ok := b.(*OpaqueV); ok && !strings.HasPrefix(bo.Origin, "?") {
				org = "?" + bo.Origin
			}
		}
		return &OpaqueV{Id: mkVar(SInt, name+".id"), Origin: org, T: t}
	}
	panic(unsup("havoc of %T", v))
}

type candidate struct {
	desc string
	eval func(c *cfg) (*Term, bool)
	ok   bool
	tmpl bool
	all  *FuncV // holds of every integer, see InvariantAll
	args func(c *cfg) ([]Value, bool)
}

func (x *Exec) proveMemo(hyps []*Term, g *Term, quick, full int) proofResult {
	return x.memo.prove(hyps, g, quick, full)
}

type proofMemo struct {
	mu sync.Mutex
	m  map[string]proofResult
}

func (pm *proofMemo) prove(hyps []*Term, g *Term, quick, full int) proofResult {
	var sb strings.Builder
	for _, h := range hyps {
		fmt.Fprintf(&sb, "%d,", h.id)
	}
	fmt.Fprintf(&sb, "|%d|%d", g.id, quick+full)
	k := sb.String()
	pm.mu.Lock()
	if r, ok := pm.m[k]; ok {
		pm.mu.Unlock()
		return r
	}
	pm.mu.Unlock()
	r := prove(hyps, g, nil, quick, full)
	pm.mu.Lock()
	pm.m[k] = r
	pm.mu.Unlock()
	return r
}

// cutLoop applies the loop rule: arbitrary iteration + inferred/annotated invariant.
func (x *Exec) cutLoop(c *cfg, lp *loop, stop *ssa.BasicBlock) (nc *cfg, outs []Outcome, work []*cfg) {
	t0 := time.Now()
	x.T.Loops++
	c.st.ncut++
	b := lp.header
	prefix := fmt.Sprintf("L%d.%s.%d", c.st.ncut, c.fn.Name(), b.Index)
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	ms := &modSet{m: map[*Obj]map[string][]PathEl{}}
	phiBacks := map[*ssa.Phi][]Value{}
	locBacks := map[string][]Value{}
	fixed := map[*ssa.Phi]bool{} // phi never changes
	havoc := func(invs []*candidate) *cfg {
		h := c.clone()
		h.st.ncut = c.st.ncut
		var objs []*Obj
		for o := range ms.m {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
		for oi, o := range objs {
			if _, ok := h.st.heap[o]; !ok {
				if bv, ok := x.base.heap[o]; ok {
					h.st.heap[o] = bv
				} else {
					continue
				}
			}
			var ks []string
			for k := range ms.m[o] {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				p := ms.m[o][k]
				ot := o.T
				old := getPath(h.st.heap[o], p)
				ot = typeAtPath(o.T, p)
				if _, isArr := old.(*ArrState); isArr {
					ot = nil
				}
				nv := x.havocVal(h.st, old, ot, fmt.Sprintf("%s.h%d%s", prefix, oi, k), locBacks[fmt.Sprint(o.id, k)])
				h.st.heap[o] = setPath(h.st.heap[o], p, nv)
			}
		}
		for i, ph := range phis {
			if fixed[ph] {
				continue
			}
			h.env[ph] = x.havocVal(h.st, c.env[ph], ph.Type(), fmt.Sprintf("%s.%s%d", prefix, ph.Comment, i), phiBacks[ph])
			t, ok := h.env[ph].(*Term)
			if !ok || t.sort != SInt {
				continue
			}
			if p0, ok := c.env[ph].(*Term); ok && x.extended {
				// a counter: its start plus or minus the number of passes
				switch step := phiStep(ph, lp); {
				case step < 0:
					h.env[ph] = tSub(p0, t)
				case step > 0 && !p0.isConst():
					h.env[ph] = tAdd(p0, t)
				}
			}
			if x.flags["loopidx"] {
				x.noteIdx(h.st, t)
			}
		}
		h.cut[b] = &cutInfo{dry: true, loop: lp}
		for _, q := range invs {
			if q.ok && q.all != nil {
				if rest, ok := q.args(h); ok {
					r := &schemaRec{fn: q.all, free: true, rest: rest, done: map[string]bool{}, heap: map[*Obj]Value{}, id: newSchemaID()}
					for o, v := range h.st.heap {
						r.heap[o] = v
					}
					h.st.schemas = append(h.st.schemas, r)
				}
			} else if q.ok {
				if t, ok := q.eval(h); ok {
					h.st.assume(t)
				}
			}
		}
		x.instSchemas(h.st)
		return h
	}
	dryRun := func(h *cfg) []*cfg {
		x.dry++
		nb := len(x.T.Obligs)
		defer func() { x.dry--; x.T.Obligs = x.T.Obligs[:nb] }()
		ci := h.cut[b]
		hh := h.clone()
		hh.cut[b] = ci
		ci.backs = nil
		x.run(hh, nil)
		return ci.backs
	}
	// what is modified needs no invariants of inner loops (they only exclude paths)
	modRun := func(h *cfg) (backs []*cfg) {
		stack, inSpec, lazy, catch, n := x.stack, x.inSpec, x.lazyGuard, x.catch, x.modOnly
		defer func() {
			x.modOnly = n
			if e := recover(); e != nil {
				if _, ok := e.(unsupported); !ok || time.Now().After(x.deadline) {
					panic(e)
				}
				x.stack, x.inSpec, x.lazyGuard, x.catch = stack, inSpec, lazy, catch
				backs = dryRun(h)
			}
		}()
		x.modOnly++
		return dryRun(h)
	}
	// 1. modified locations
	for _, ph := range phis {
		fixed[ph] = true
	}
	for round := 0; ; round++ {
		if round > 10 {
			panic(unsup("modified set does not stabilise"))
		}
		h := havoc(nil)
		h0 := h.st.heap
		h0c := make(map[*Obj]Value, len(h0))
		for k, v := range h0 {
			h0c[k] = v
		}
		backs := modRun(h)
		changed := false
		for _, bk := range backs {
			for o, v := range bk.st.heap {
				ov, ok := h0c[o]
				if !ok {
					if bv, ok2 := x.base.heap[o]; ok2 {
						ov = bv
					} else {
						continue
					}
				}
				diffVal(ov, v, nil, func(p []PathEl) {
					if ms.add(o, p) {
						changed = true
					}
					k := fmt.Sprint(o.id, pathKey(p))
					nv := getPath(v, p)
					if !containsVal(locBacks[k], nv) {
						had := len(locBacks[k])
						locBacks[k] = append(locBacks[k], nv)
						if shapeMatters(nv) && had < 4 {
							changed = true
						}
					}
				})
			}
			for _, ph := range phis {
				nv := bk.env[ph]
				if fixed[ph] && !sameVal(h.env[ph], nv) {
					fixed[ph] = false
					changed = true
				}
				if !fixed[ph] && !containsVal(phiBacks[ph], nv) {
					had := len(phiBacks[ph])
					phiBacks[ph] = append(phiBacks[ph], nv)
					if shapeMatters(nv) && had < 4 {
						changed = true
					}
				}
			}
		}
		// a slice variable replaced by a fresh array: writes through it may
		// have gone to the array it held on entry
		for _, ph := range phis {
			if sl, ok := c.env[ph].(*SliceV); ok && sl.Obj != nil && !fixed[ph] {
				if hs, ok := h.env[ph].(*SliceV); ok && hs.Obj != sl.Obj {
					for _, bk := range backs {
						if !sameVal(bk.st.heap[hs.Obj], h0c[hs.Obj]) && ms.add(sl.Obj, nil) {
							changed = true
						}
					}
				}
			}
		}
		for o, ps := range ms.m {
			ev, ok := c.st.heap[o]
			if !ok {
				ev, ok = x.base.heap[o]
			}
			hv, ok2 := h0c[o]
			if !ok || !ok2 {
				continue
			}
			for _, p := range ps {
				sl, ok := getPath(ev, p).(*SliceV)
				if !ok || sl.Obj == nil {
					continue
				}
				if hs, ok := getPath(hv, p).(*SliceV); ok && hs.Obj != sl.Obj && hs.Obj != nil {
					for _, bk := range backs {
						if !sameVal(bk.st.heap[hs.Obj], h0c[hs.Obj]) && ms.add(sl.Obj, nil) {
							changed = true
						}
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	for o := range ms.m {
		if x.frozen[o] || (x.frame && o.pre) {
			x.oblige(c.st, "frame", "loop writes pre-existing memory "+o.name, x.P.posString(b.Instrs[0].Pos()), tFalse)
			if n := len(c.st.pc); n > 0 && c.st.pc[n-1].t == tFalse {
				c.st.pc = c.st.pc[:n-1]
			}
		}
	}
	if x.modOnly > 0 {
		h := havoc(nil)
		h.cut[b] = &cutInfo{loop: lp}
		return h, nil, nil
	}
	// 2. candidates
	cands := x.loopCandidates(c, lp, phis, fixed, ms, havoc(nil))
	// 3. Houdini: initiation
	batch := func(qs []*candidate, cfgs []*cfg, quick int) int {
		type job struct {
			q *candidate
			h []*Term
			g *Term
		}
		var jobs []job
		for _, q := range qs {
			if !q.ok {
				continue
			}
			for _, k := range cfgs {
				t, ok := q.eval(k)
				if !ok {
					q.ok = false
					break
				}
				if t == tTrue {
					continue
				}
				jobs = append(jobs, job{q, nil, t})
				jobs[len(jobs)-1].h = k.st.hyps()
			}
		}
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		var mu sync.Mutex
		n := 0
		for _, j := range jobs {
			mu.Lock()
			alive := j.q.ok
			mu.Unlock()
			if !alive {
				continue
			}
			wg.Add(1)
			sem <- struct{}{}
			go func(j job) {
				defer wg.Done()
				defer func() { <-sem }()
				full := 0
				if j.q.tmpl {
					full = quick * 2
				}
				r := x.proveMemo(j.h, j.g, quick, full)
				if r.res != resUnsat {
					mu.Lock()
					if j.q.ok {
						j.q.ok = false
						n++
						if os.Getenv("GOVC_DEBUG") == "loops" {
							fmt.Fprintf(os.Stderr, "  [%s] drop %s (%v)\n", prefix, j.q.desc, r.res)
							if j.q.tmpl {
								fmt.Fprintf(os.Stderr, "     goal %v\n", j.g)
								for _, h := range j.h {
									fmt.Fprintf(os.Stderr, "        hyp %v\n", h)
								}
							}
						}
					}
					mu.Unlock()
				}
			}(j)
		}
		wg.Wait()
		return n
	}
	batch(cands, []*cfg{c}, 2)
	for round := 0; ; round++ {
		if time.Now().After(x.deadline) {
			panic(unsup("loop inference time limit"))
		}
		h := havoc(cands)
		backs := dryRun(h)
		if batch(cands, backs, 3) == 0 {
			break
		}
	}
	var kept []string
	for _, q := range cands {
		if q.ok {
			kept = append(kept, q.desc)
			if q.tmpl && x.dry == 0 {
				x.T.InvKept = append(x.T.InvKept, prefix+": "+q.desc)
			}
		}
	}
	if os.Getenv("GOVC_DEBUG") == "loops" {
		fmt.Fprintf(os.Stderr, "[%s] kept %d: %s (mod %d objs) %v\n", prefix, len(kept), strings.Join(kept, "; "), len(ms.m), time.Since(t0))
	}
	if x.dry == 0 {
		x.T.LoopTime += time.Since(t0).Milliseconds()
	}
	// 4. final pass
	h := havoc(cands)
	h.cut[b] = &cutInfo{loop: lp}
	return h, nil, nil
}

func containsVal(l []Value, v Value) bool {
	for _, w := range l {
		if sameVal(w, v) {
			return true
		}
	}
	return false
}

// shapeMatters: the back-edge value determines how the location is havocked.
func shapeMatters(v Value) bool {
	switch a := v.(type) {
	case *SliceV, *IfaceV, *OpaqueV:
		return true
	case *StructV:
		for _, f := range a.F {
			if shapeMatters(f) {
				return true
			}
		}
	}
	return false
}

type selector struct {
	desc string
	T    types.Type
	get  func(c *cfg) (Value, bool)
}

// loopCandidates: annotated invariants matched against loop variables, plus integer bounds.
func (x *Exec) loopCandidates(c *cfg, lp *loop, phis []*ssa.Phi, fixed map[*ssa.Phi]bool, ms *modSet, h *cfg) []*candidate {
	var cands []*candidate
	add := func(desc string, tmpl bool, f func(c *cfg) (*Term, bool)) {
		cands = append(cands, &candidate{desc: desc, eval: f, ok: true, tmpl: tmpl})
	}
	var sels []selector
	for _, ph := range phis {
		if fixed[ph] {
			continue
		}
		ph := ph
		nm := ph.Comment
		if nm == "" {
			nm = ph.Name()
		}
		sels = append(sels, selector{nm, ph.Type(), func(c *cfg) (Value, bool) { v, ok := c.env[ph]; return v, ok }})
		if s, ok := basicSort(ph.Type()); ok && s == SInt {
			sels = append(sels, selector{nm + "+1", ph.Type(), func(c *cfg) (Value, bool) {
				v, ok := c.env[ph].(*Term)
				if !ok {
					return nil, false
				}
				return tAdd(v, mkInt(1)), true
			}})
			if p0, ok := c.env[ph].(*Term); ok && x.extended {
				// other ways to count the same iterations
				ext := func(desc string, f func(v *Term) *Term) {
					sels = append(sels, selector{nm + desc, ph.Type(), func(c *cfg) (Value, bool) {
						v, ok := c.env[ph].(*Term)
						if !ok {
							return nil, false
						}
						return f(v), true
					}})
				}
				ext("+2", func(v *Term) *Term { return tAdd(v, mkInt(2)) })
				ext("-1", func(v *Term) *Term { return tSub(v, mkInt(1)) })
				ext("(down)", func(v *Term) *Term { return tSub(p0, v) })
				ext("(down+1)", func(v *Term) *Term { return tSub(tAdd(p0, mkInt(1)), v) })
				if _, isNum := p0.intVal(); !isNum {
					ext("(up)", func(v *Term) *Term { return tSub(v, p0) })
					ext("(up+1)", func(v *Term) *Term { return tAdd(tSub(v, p0), mkInt(1)) })
				}
			}
		}
	}
	var objs []*Obj
	for o := range ms.m {
		if _, ok := c.st.heap[o]; ok {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		o := o
		if m, ok := c.st.heap[o].(*MapState); ok {
			mv := &MapV{o}
			sels = append(sels, selector{o.name, types.NewMap(m.K, m.E), func(c *cfg) (Value, bool) { return mv, true }})
			continue
		}
		whole := false
		if at, ok := under(o.T).(*types.Array); ok {
			// local array: offered as a slice over it
			if _, isArr := c.st.heap[o].(*ArrState); !isArr {
				n := mkInt(at.Len())
				sels = append(sels, selector{o.name + "[:]", types.NewSlice(at.Elem()), func(c *cfg) (Value, bool) {
					return &SliceV{Obj: o, Off: mkInt(0), Len: n, Cap: n}, true
				}})
			}
		}
		for k := range ms.m[o] {
			p := ms.m[o][k]
			t := typeAtPath(o.T, p)
			if k == "" {
				whole = true
			}
			if t == nil {
				continue
			}
			if as, isArr := c.st.heap[o].(*ArrState); isArr {
				// array content: offered as a slice over it
				st := types.NewSlice(as.Elem)
				sels = append(sels, selector{o.name + "[]", st, func(c *cfg) (Value, bool) {
					return &SliceV{Obj: o, Off: mkInt(0), Len: symHuge, Cap: symHuge}, true
				}})
				whole = true
				continue
			}
			sels = append(sels, selector{o.name + k, t, func(c *cfg) (Value, bool) {
				v, ok := c.st.heap[o]
				if !ok {
					return nil, false
				}
				return getPath(v, p), true
			}})
		}
		if !whole {
			sels = append(sels, selector{o.name, o.T, func(c *cfg) (Value, bool) { v, ok := c.st.heap[o]; return v, ok }})
		}
		_ = whole
	}
	sort.SliceStable(sels, func(i, j int) bool { return false })
	ninner := len(sels)
	// variables of enclosing loops (constant here)
	for _, b := range c.fn.Blocks {
		if b == lp.header || !b.Dominates(lp.header) {
			continue
		}
		if ol := x.P.loopAt(c.fn, b); ol == nil || !ol.blocks[lp.header] {
			continue
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v, ok := c.env[ph]
			if !ok {
				continue
			}
			t, ok := v.(*Term)
			if !ok || t.sort != SInt {
				continue
			}
			sels = append(sels, selector{"outer." + ph.Comment, ph.Type(), func(c *cfg) (Value, bool) { return t, true }})
			sels = append(sels, selector{"outer." + ph.Comment + "+1", ph.Type(), func(c *cfg) (Value, bool) { return tAdd(t, mkInt(1)), true }})
		}
	}
	// values fixed before the loop: results of earlier loops and local slices
	for _, b := range c.fn.Blocks {
		if b == lp.header || lp.blocks[b] || !b.Dominates(lp.header) {
			continue
		}
		if ol := x.P.loopAt(c.fn, b); ol != nil && ol.blocks[lp.header] {
			continue
		}
		for _, in := range b.Instrs {
			switch q := in.(type) {
			case *ssa.Phi:
				if v, ok := c.env[q]; ok {
					if _, ok := v.(*Term); ok {
						sels = append(sels, selector{"before." + q.Comment, q.Type(), func(c *cfg) (Value, bool) { return v, true }})
					}
				}
			case *ssa.MakeSlice:
				if v, ok := c.env[q]; ok {
					if sl, ok := v.(*SliceV); ok && ms.m[sl.Obj] != nil {
						continue // offered as a modified array
					}
					sels = append(sels, selector{"before." + q.Name(), q.Type(), func(c *cfg) (Value, bool) { return v, true }})
				}
			}
		}
	}
	// parameters of the function, where an invariant names them
	for _, p := range c.fn.Params {
		p := p
		for _, inv := range x.invs {
			for i := 0; i < inv.Fn.Signature.Params().Len(); i++ {
				if inv.Fn.Signature.Params().At(i).Name() == p.Name() {
					if _, ok := c.env[p].(*SliceV); ok {
						sels = append(sels, selector{"before." + p.Name(), p.Type(), func(c *cfg) (Value, bool) { v, ok := c.env[p]; return v, ok }})
						goto next
					}
				}
			}
		}
	next:
	}
	// annotated templates
	for ti, inv := range x.invs {
		sig := inv.Fn.Signature
		n := sig.Params().Len()
		first := 0
		if x.invAll[inv] {
			first = 1
		}
		var choose func(k int, cur []int)
		cnt := 0
		choose = func(k int, cur []int) {
			if cnt > 600 {
				return
			}
			if k == n {
				// at least one selector must be a variable of this loop
				inner := n == first
				for _, i := range cur {
					if i < ninner {
						inner = true
					}
				}
				if !inner {
					return
				}
				cnt++
				idx := append([]int(nil), cur...)
				var ds []string
				for _, i := range idx {
					ds = append(ds, sels[i].desc)
				}
				getArgs := func(c *cfg) ([]Value, bool) {
					args := make([]Value, len(idx))
					for j, i := range idx {
						v, ok := sels[i].get(c)
						if !ok {
							return nil, false
						}
						if _, ok := v.(*MapV); ok {
							if _, ok := under(sig.Params().At(j + first).Type()).(*types.Interface); ok {
								v = &IfaceV{T: sels[i].T, V: v}
							}
						}
						args[j] = v
					}
					return args, true
				}
				add(fmt.Sprintf("inv#%d(%s)", ti, strings.Join(ds, ",")), true, func(c *cfg) (*Term, bool) {
					args, ok := getArgs(c)
					if !ok {
						return nil, false
					}
					if first == 1 {
						j := mkVar(SInt, fmt.Sprintf("every.%d", ti))
						x.noteIdx(c.st, j)
						args = append([]Value{j}, args...)
					}
					var r *Term
					func() {
						defer func() {
							if e := recover(); e != nil {
								switch e.(type) {
								case unsupported, splitReq:
									if os.Getenv("GOVC_DEBUG") == "loops" {
										fmt.Fprintf(os.Stderr, "  inv#%d: %v\n", ti, e)
									}
									return
								}
								panic(e)
							}
						}()
						r = x.evalSpec(c.st, inv, args)
					}()
					return r, r != nil
				})
				if first == 1 {
					q := cands[len(cands)-1]
					q.all, q.args = inv, getArgs
				}
				return
			}
			pt := sig.Params().At(k).Type()
			// a parameter named like a variable stands for that variable
			pn := sig.Params().At(k).Name()
			named := false
			isNamed := func(d string) bool {
				d = strings.TrimPrefix(strings.TrimPrefix(d, "outer."), "before.")
				return d == pn || pn == "i" && d == "rangeindex+1" || pn == "iOuter" && d == "outer.rangeindex+1"
			}
			ptIface := false // interface{}: any map
			if it, ok := under(pt).(*types.Interface); ok && it.Empty() {
				ptIface = true
			}
			fits := func(s selector) bool {
				if ptIface {
					_, ok := under(s.T).(*types.Map)
					return ok
				}
				if types.Identical(pt, s.T) || types.Identical(under(pt), under(s.T)) {
					return true
				}
				// integers of any width (all are mathematical integers here)
				if !x.extended && !isNamed(s.desc) {
					return false
				}
				a, ok := basicSort(pt)
				b, ok2 := basicSort(s.T)
				return ok && ok2 && a == SInt && b == SInt
			}
			for _, s := range sels {
				if isNamed(s.desc) && fits(s) {
					named = true
				}
			}
			if so, ok := basicSort(pt); ok && so == SInt && x.extended {
				named = false
			}
			for i, s := range sels {
				if named && !isNamed(s.desc) {
					continue
				}
				dup := false
				for _, j := range cur {
					if j == i {
						dup = true
					}
				}
				if dup {
					continue
				}
				if fits(s) {
					choose(k+1, append(cur[:len(cur):len(cur)], i))
				}
			}
		}
		choose(first, nil)
	}
	// integer bounds
	type iv struct {
		desc string
		get  func(c *cfg) (*Term, bool)
	}
	var ints []iv
	for i := 0; i < ninner; i++ {
		s := sels[i]
		if strings.HasSuffix(s.desc, "+1") || strings.HasSuffix(s.desc, "+2") || strings.HasSuffix(s.desc, "-1") || strings.HasSuffix(s.desc, ")") {
			continue
		}
		if so, ok := basicSort(s.T); ok && so == SInt {
			ints = append(ints, iv{s.desc, func(c *cfg) (*Term, bool) {
				v, ok := s.get(c)
				if !ok {
					return nil, false
				}
				t, ok := v.(*Term)
				return t, ok
			}})
		}
		if _, ok := under(s.T).(*types.Slice); ok && !strings.HasSuffix(s.desc, "[]") {
			ints = append(ints, iv{"len(" + s.desc + ")", func(c *cfg) (*Term, bool) {
				v, ok := s.get(c)
				if !ok {
					return nil, false
				}
				t, ok := v.(*SliceV)
				if !ok {
					return nil, false
				}
				return t.Len, true
			}})
		}
	}
	for i, a := range ints {
		a := a
		t0, ok := a.get(c)
		if !ok {
			continue
		}
		add(a.desc+">=init", false, func(c *cfg) (*Term, bool) {
			t, ok := a.get(c)
			if !ok {
				return nil, false
			}
			return tLe(t0, t), true
		})
		add(a.desc+"<=init", false, func(c *cfg) (*Term, bool) {
			t, ok := a.get(c)
			if !ok {
				return nil, false
			}
			return tLe(t, t0), true
		})
		for j := i + 1; j < len(ints) && len(ints) < 9; j++ {
			b := ints[j]
			b0, ok := b.get(c)
			if !ok {
				continue
			}
			d0 := tSub(t0, b0)
			add(a.desc+"-"+b.desc+"=init", false, func(c *cfg) (*Term, bool) {
				t, ok := a.get(c)
				if !ok {
					return nil, false
				}
				u, ok := b.get(c)
				if !ok {
					return nil, false
				}
				return tEq(tSub(t, u), d0), true
			})
			s0 := tAdd(t0, b0)
			add(a.desc+"+"+b.desc+"=init", false, func(c *cfg) (*Term, bool) {
				t, ok := a.get(c)
				if !ok {
					return nil, false
				}
				u, ok := b.get(c)
				if !ok {
					return nil, false
				}
				return tEq(tAdd(t, u), s0), true
			})
		}
	}
	// comparison in the header
	hd := lp.header
	var cmps []*ssa.BinOp
	instrs := hd.Instrs
	if x.extended {
		for _, b := range c.fn.Blocks {
			if b != hd && lp.blocks[b] {
				instrs = append(instrs[:len(instrs):len(instrs)], b.Instrs...)
			}
		}
	}
	for _, in := range instrs {
		if bo, ok := in.(*ssa.BinOp); ok {
			if s, ok := basicSort(bo.X.Type()); ok && s == SInt {
				switch bo.Op.String() {
				case "<", "<=", ">", ">=", "!=":
					cmps = append(cmps, bo)
				}
			}
		}
	}
	for _, bo := range cmps {
		bo := bo
		evalHdr := func(c *cfg, v ssa.Value) (*Term, bool) { return x.hdrTerm(c, lp, v, 0) }
		add(bo.X.Name()+"<="+bo.Y.Name(), false, func(c *cfg) (*Term, bool) {
			a, ok1 := evalHdr(c, bo.X)
			b, ok2 := evalHdr(c, bo.Y)
			if !ok1 || !ok2 {
				return nil, false
			}
			return tLe(a, b), true
		})
		add(bo.X.Name()+">="+bo.Y.Name()+"-1", false, func(c *cfg) (*Term, bool) {
			a, ok1 := evalHdr(c, bo.X)
			b, ok2 := evalHdr(c, bo.Y)
			if !ok1 || !ok2 {
				return nil, false
			}
			return tLe(tSub(b, mkInt(1)), a), true
		})
		if x.extended {
			add(bo.X.Name()+">="+bo.Y.Name(), false, func(c *cfg) (*Term, bool) {
				a, ok1 := evalHdr(c, bo.X)
				b, ok2 := evalHdr(c, bo.Y)
				if !ok1 || !ok2 {
					return nil, false
				}
				return tLe(b, a), true
			})
		}
		add(bo.X.Name()+"<="+bo.Y.Name()+"+1", false, func(c *cfg) (*Term, bool) {
			a, ok1 := evalHdr(c, bo.X)
			b, ok2 := evalHdr(c, bo.Y)
			if !ok1 || !ok2 {
				return nil, false
			}
			return tLe(a, tAdd(b, mkInt(1))), true
		})
	}
	return cands
}

// phiStep is +1 or -1 if every pass of the loop adds that to the variable, else 0.
func phiStep(ph *ssa.Phi, lp *loop) int {
	step := 0
	for i, e := range ph.Edges {
		if !lp.blocks[ph.Block().Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(ph) {
			return 0
		}
		k, ok := bo.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.ExactString() != "1" {
			return 0
		}
		d := 0
		switch bo.Op.String() {
		case "+":
			d = 1
		case "-":
			d = -1
		}
		if d == 0 || step != 0 && d != step {
			return 0
		}
		step = d
	}
	return step
}

// symHuge: length used when array contents are offered to an invariant.
var symHuge = mkVar(SInt, "HUGE")

// hdrTerm evaluates simple integer expressions of the loop header.
func (x *Exec) hdrTerm(c *cfg, lp *loop, v ssa.Value, d int) (r *Term, ok bool) {
	if d > 6 {
		return nil, false
	}
	if in, isI := v.(ssa.Instruction); isI && (in.Block() == lp.header || x.extended && lp.blocks[in.Block()]) {
		switch in := v.(type) {
		case *ssa.Phi:
		case *ssa.BinOp:
			a, ok1 := x.hdrTerm(c, lp, in.X, d+1)
			b, ok2 := x.hdrTerm(c, lp, in.Y, d+1)
			if !ok1 || !ok2 {
				return nil, false
			}
			switch in.Op.String() {
			case "+":
				return tAdd(a, b), true
			case "-":
				return tSub(a, b), true
			case "*":
				return tMul(a, b), true
			}
			return nil, false
		case *ssa.Call:
			if bi, isB := in.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
				if s, ok := x.hdrVal(c, lp, in.Call.Args[0], d+1); ok {
					if sl, ok := s.(*SliceV); ok {
						return sl.Len, true
					}
				}
			}
			return nil, false
		default:
			vv, ok := x.hdrVal(c, lp, v, d)
			if !ok {
				return nil, false
			}
			t, ok := vv.(*Term)
			return t, ok
		}
	}
	defer func() {
		if e := recover(); e != nil {
			r, ok = nil, false
		}
	}()
	t, ok := x.get(c, v).(*Term)
	return t, ok
}
func (x *Exec) hdrVal(c *cfg, lp *loop, v ssa.Value, d int) (r Value, ok bool) {
	if d > 6 {
		return nil, false
	}
	defer func() {
		if e := recover(); e != nil {
			r, ok = nil, false
		}
	}()
	if in, isI := v.(ssa.Instruction); isI && (in.Block() == lp.header || x.extended && lp.blocks[in.Block()]) {
		switch in := v.(type) {
		case *ssa.Phi:
			return c.env[in], true
		case *ssa.UnOp:
			if in.Op.String() == "*" {
				p, ok := x.hdrVal(c, lp, in.X, d+1)
				if !ok {
					return nil, false
				}
				pp, ok := p.(*PtrV)
				if !ok || pp.Obj == nil {
					return nil, false
				}
				return x.load(c.st, pp), true
			}
		case *ssa.FieldAddr:
			p, ok := x.hdrVal(c, lp, in.X, d+1)
			if !ok {
				return nil, false
			}
			pp, ok := p.(*PtrV)
			if !ok || pp.Obj == nil {
				return nil, false
			}
			return &PtrV{pp.Obj, append(pp.Path[:len(pp.Path):len(pp.Path)], PathEl{F: in.Field})}, true
		case *ssa.Field:
			s, ok := x.hdrVal(c, lp, in.X, d+1)
			if !ok {
				return nil, false
			}
			return s.(*StructV).F[in.Field], true
		}
		return nil, false
	}
	return x.get(c, v), true
}

package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value: *Term, *StructV, *PtrV, *SliceV, *IfaceV,
// *OpaqueV, *FuncV, *StrV, *MapV, TupleV.
type Value interface{}

type StructV struct{ F []Value } // struct or fixed array, immutable
type PathEl struct {
	F   int
	Idx *Term // non-nil: element of dynamic array / symbolic array index
}
type PtrV struct {
	Obj  *Obj
	Path []PathEl
}
type SliceV struct {
	Obj           *Obj
	Path          []PathEl // location of the backing array inside Obj
	Off, Len, Cap *Term
	Spare         bool // capacity beyond len may be shared with the caller
}
type IfaceV struct {
	T types.Type // nil for a nil interface
	V Value
}
type OpaqueV struct {
	Id     *Term
	Origin string
	T      types.Type // interface type
}
type FuncV struct {
	Fn     *ssa.Function
	Bind   []Value
	Opaque string // uninterpreted function symbol
	Nil    bool
}
type StrV struct {
	Known bool
	S     string
	Id    *Term
}
type MapV struct{ Obj *Obj } // Obj nil: nil map
type TupleV []Value

type Obj struct {
	id   int
	name string
	T    types.Type
	pre  bool // existed before the call under verification (frame)
}

var objSeq int

func newObj(name string, T types.Type) *Obj {
	termMu.Lock()
	objSeq++
	o := &Obj{id: objSeq, name: name, T: T}
	termMu.Unlock()
	return o
}

// ArrState is the content of a dynamic array (slice backing store).
type ArrState struct {
	Elem types.Type
	// base
	Sym  string  // symbolic base name
	Zero bool    // zero base
	Arg  []*Term // extra arguments for symbolic base (nested arrays)
	// write node
	Prev *ArrState
	Kind int // 0 base, 1 point, 2 region, 3 merge
	Idx  *Term
	Val  Value
	// region [Idx, Idx+N) copied from Src at SrcOff
	N      *Term
	Src    *ArrState
	SrcOff *Term
	// merge
	Cond *Term
	A, B *ArrState
	// fixed-array source
	depth int
}

// MapState is the content of a map.
type MapState struct {
	K, E types.Type
	Sym  string
	Prev *MapState
	Key  Value
	Val  Value
	Del  bool
	N    *Term // length
	Cond *Term
	A, B *MapState
}

// arrays longer than this are kept as dynamic array states
const bigArray = 256

func under(t types.Type) types.Type { return t.Underlying() }

func basicSort(t types.Type) (Sort, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false
	}
	i := b.Info()
	switch {
	case i&types.IsBoolean != 0:
		return SBool, true
	case i&types.IsInteger != 0:
		return SInt, true
	case i&types.IsFloat != 0:
		return SReal, true
	}
	return 0, false
}

func zeroValue(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &StrV{Known: true}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return &PtrV{}
		}
		s, ok := basicSort(t)
		if !ok {
			panic(unsup("zero value of %v", t))
		}
		if s == SBool {
			return tFalse
		}
		return zeroOf(s)
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = zeroValue(u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		if u.Len() > bigArray {
			return &ArrState{Elem: u.Elem(), Zero: true}
		}
		f := make([]Value, u.Len())
		z := zeroValue(u.Elem())
		for i := range f {
			f[i] = z
		}
		return &StructV{f}
	case *types.Pointer:
		return &PtrV{}
	case *types.Slice:
		return &SliceV{Off: mkInt(0), Len: mkInt(0), Cap: mkInt(0)}
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{Nil: true}
	case *types.Map:
		return &MapV{}
	case *types.Chan:
		return &PtrV{}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, zeroValue(u.At(i).Type()))
		}
		return tv
	}
	panic(unsup("zero value of %v", t))
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

func intPrefix(t types.Type) string {
	if b, ok := under(t).(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return "u8:"
		case types.Uint32:
			return "u32:"
		}
	}
	return ""
}

// symValue builds a symbolic value of type t whose leaves are mk(path, sort).
func symValue(x *Exec, st *State, t types.Type, name string, idx []*Term) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &StrV{Id: mkApp(SInt, "str."+name, idx...)}
		}
		s, ok := basicSort(t)
		if !ok {
			panic(unsup("symbolic %v", t))
		}
		n := intPrefix(t) + name
		if len(idx) == 0 {
			v := mkVar(s, n)
			if intPrefix(t) != "" && st != nil {
				hi := int64(255)
				if intPrefix(t) == "u32:" {
					hi = 1<<32 - 1
				}
				st.assume(tLe(mkInt(0), v))
				st.assume(tLe(v, mkInt(hi)))
			}
			return v
		}
		return mkApp(s, n, idx...)
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = symValue(x, st, u.Field(i).Type(), name+"."+u.Field(i).Name(), idx)
		}
		return &StructV{f}
	case *types.Array:
		if u.Len() > bigArray {
			return &ArrState{Elem: u.Elem(), Sym: name, Arg: idx}
		}
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = symValue(x, st, u.Elem(), fmt.Sprintf("%s[%d]", name, i), idx)
		}
		return &StructV{f}
	case *types.Slice:
		if len(idx) > 0 {
			o := newObj(name, u.Elem())
			st.heap[o] = &ArrState{Elem: u.Elem(), Sym: name, Arg: idx}
			l := mkApp(SInt, name+".len", idx...)
			st.assume(tLe(mkInt(0), l))
			return &SliceV{Obj: o, Off: mkInt(0), Len: l, Cap: l}
		}
		o := newObj(name, u.Elem())
		o.pre = true
		l := mkVar(SInt, name+".len")
		c := mkVar(SInt, name+".cap")
		st.assume(tLe(mkInt(0), l))
		st.assume(tLe(l, c))
		st.heap[o] = &ArrState{Elem: u.Elem(), Sym: name}
		return &SliceV{Obj: o, Off: mkInt(0), Len: l, Cap: c, Spare: true}
	case *types.Interface:
		if len(idx) == 0 {
			return &OpaqueV{Id: mkVar(SInt, name+".id"), Origin: name, T: t}
		}
		return &OpaqueV{Id: mkApp(SInt, name+".id", idx...), Origin: name, T: t}
	case *types.Signature:
		return &FuncV{Opaque: name}
	case *types.Pointer:
		if len(idx) > 0 {
			panic(unsup("symbolic array of pointers %s", name))
		}
		o := newObj(name, u.Elem())
		o.pre = true
		st.heap[o] = symValue(x, st, u.Elem(), name+".*", nil)
		return &PtrV{Obj: o}
	case *types.Map:
		o := newObj(name, t)
		o.pre = true
		n := mkVar(SInt, name+".len")
		st.assume(tLe(mkInt(0), n))
		st.heap[o] = &MapState{K: u.Key(), E: u.Elem(), Sym: name, N: n}
		return &MapV{Obj: o}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, symValue(x, st, u.At(i).Type(), fmt.Sprintf("%s#%d", name, i), idx))
		}
		return tv
	}
	panic(unsup("symbolic value of %v", t))
}

// ---------- equality ----------

func (x *Exec) eqValue(st *State, a, b Value) *Term {
	switch av := a.(type) {
	case *Term:
		bv, ok := b.(*Term)
		if !ok {
			panic(unsup("compare %T %T", a, b))
		}
		return tEq(av, bv)
	case *StructV:
		bv := b.(*StructV)
		r := tTrue
		for i := range av.F {
			r = tAnd(r, x.eqValue(st, av.F[i], bv.F[i]))
			if r == tFalse {
				return r
			}
		}
		return r
	case *StrV:
		bv := b.(*StrV)
		if av.Known && bv.Known {
			return mkBool(av.S == bv.S)
		}
		return tEq(strId(av), strId(bv))
	case *PtrV:
		bv, ok := b.(*PtrV)
		if !ok {
			return tFalse
		}
		if av.Obj != bv.Obj {
			return tFalse
		}
		if len(av.Path) != len(bv.Path) {
			return tFalse
		}
		r := tTrue
		for i := range av.Path {
			if av.Path[i].Idx != nil && bv.Path[i].Idx != nil {
				r = tAnd(r, tEq(av.Path[i].Idx, bv.Path[i].Idx))
			} else if av.Path[i].F != bv.Path[i].F {
				return tFalse
			}
		}
		return r
	case *IfaceV:
		switch bv := b.(type) {
		case *IfaceV:
			if av.T == nil || bv.T == nil {
				return mkBool(av.T == nil && bv.T == nil)
			}
			if !types.Identical(av.T, bv.T) {
				return tFalse
			}
			return x.eqValue(st, av.V, bv.V)
		case *OpaqueV:
			if av.T == nil {
				return x.opaqueNil(bv)
			}
			return tFalse
		}
	case *OpaqueV:
		switch bv := b.(type) {
		case *OpaqueV:
			return tEq(av.Id, bv.Id)
		case *IfaceV:
			if bv.T == nil {
				return x.opaqueNil(av)
			}
			return tFalse
		}
	case *SliceV:
		bv, ok := b.(*SliceV)
		if ok && bv.Obj == nil {
			return mkBool(av.Obj == nil)
		}
		if ok && av.Obj == nil {
			return mkBool(bv.Obj == nil)
		}
	case *FuncV:
		bv, ok := b.(*FuncV)
		if ok && (bv.Nil || av.Nil) {
			return mkBool(av.Nil == bv.Nil)
		}
	case *MapV:
		bv, ok := b.(*MapV)
		if ok {
			return mkBool(av.Obj == bv.Obj)
		}
	}
	panic(unsup("compare %T %T", a, b))
}

// opaqueNil: may an unknown interface value be nil? Only "maybe-nil" origins.
func (x *Exec) opaqueNil(o *OpaqueV) *Term {
	if strings.HasPrefix(o.Origin, "?") {
		return tEq(o.Id, mkInt(0))
	}
	return tFalse
}

func strId(s *StrV) *Term {
	if s.Known {
		return mkVar(SInt, fmt.Sprintf("str:%q", s.S))
	}
	return s.Id
}

// ---------- merge ----------

// mergeVal builds ite(c, a, b); ok=false when not expressible.
func mergeVal(c *Term, a, b Value) (Value, bool) {
	_, t1 := a.(TupleV)
	_, t2 := b.(TupleV)
	if !t1 && !t2 && a == b {
		return a, true
	}
	switch av := a.(type) {
	case *Term:
		bv, ok := b.(*Term)
		if !ok || av.sort != bv.sort {
			return nil, false
		}
		if av.sort == SInt && av.op == OConst && bv.op == OConst {
			return nil, false // keep distinct concrete integers on separate paths
		}
		return tIte(c, av, bv), true
	case *StructV:
		bv, ok := b.(*StructV)
		if !ok || len(av.F) != len(bv.F) {
			return nil, false
		}
		f := make([]Value, len(av.F))
		for i := range f {
			v, ok := mergeVal(c, av.F[i], bv.F[i])
			if !ok {
				return nil, false
			}
			f[i] = v
		}
		return &StructV{f}, true
	case TupleV:
		bv, ok := b.(TupleV)
		if !ok || len(av) != len(bv) {
			return nil, false
		}
		f := make(TupleV, len(av))
		for i := range f {
			v, ok := mergeVal(c, av[i], bv[i])
			if !ok {
				return nil, false
			}
			f[i] = v
		}
		return f, true
	case *PtrV:
		bv, ok := b.(*PtrV)
		if !ok || av.Obj != bv.Obj || len(av.Path) != len(bv.Path) {
			return nil, false
		}
		for i := range av.Path {
			if av.Path[i] != bv.Path[i] {
				return nil, false
			}
		}
		return av, true
	case *SliceV:
		bv, ok := b.(*SliceV)
		if !ok || av.Obj != bv.Obj || len(av.Path) != len(bv.Path) {
			return nil, false
		}
		for i := range av.Path {
			if av.Path[i] != bv.Path[i] {
				return nil, false
			}
		}
		if av.Obj == nil {
			return av, true
		}
		if av.Len.op == OConst && bv.Len.op == OConst && av.Len != bv.Len {
			return nil, false
		}
		return &SliceV{Obj: av.Obj, Path: av.Path, Off: tIte(c, av.Off, bv.Off), Len: tIte(c, av.Len, bv.Len), Cap: tIte(c, av.Cap, bv.Cap), Spare: av.Spare || bv.Spare}, true
	case *IfaceV:
		bv, ok := b.(*IfaceV)
		if !ok {
			return nil, false
		}
		if av.T == nil && bv.T == nil {
			return av, true
		}
		if av.T == nil || bv.T == nil || !types.Identical(av.T, bv.T) {
			return nil, false
		}
		v, ok := mergeVal(c, av.V, bv.V)
		if !ok {
			return nil, false
		}
		return &IfaceV{av.T, v}, true
	case *OpaqueV:
		bv, ok := b.(*OpaqueV)
		if !ok || av.Origin != bv.Origin {
			return nil, false
		}
		return &OpaqueV{Id: tIte(c, av.Id, bv.Id), Origin: av.Origin, T: av.T}, true
	case *StrV:
		bv, ok := b.(*StrV)
		if ok && av.Known && bv.Known && av.S == bv.S {
			return av, true
		}
		if ok && !av.Known && !bv.Known && av.Id == bv.Id {
			return av, true
		}
		return nil, false
	case *FuncV:
		bv, ok := b.(*FuncV)
		if ok && av.Fn == bv.Fn && av.Opaque == bv.Opaque && av.Nil == bv.Nil && len(av.Bind) == len(bv.Bind) {
			f := make([]Value, len(av.Bind))
			for i := range f {
				v, ok := mergeVal(c, av.Bind[i], bv.Bind[i])
				if !ok {
					return nil, false
				}
				f[i] = v
			}
			return &FuncV{Fn: av.Fn, Bind: f, Opaque: av.Opaque, Nil: av.Nil}, true
		}
		return nil, false
	case *MapV:
		bv, ok := b.(*MapV)
		if ok && av.Obj == bv.Obj {
			return av, true
		}
	case *ArrState:
		bv, ok := b.(*ArrState)
		if !ok {
			return nil, false
		}
		return &ArrState{Elem: av.Elem, Kind: 3, Cond: c, A: av, B: bv}, true
	case *MapState:
		bv, ok := b.(*MapState)
		if !ok {
			return nil, false
		}
		return &MapState{K: av.K, E: av.E, Cond: c, A: av, B: bv, N: tIte(c, av.N, bv.N)}, true
	}
	return nil, false
}

func sameVal(a, b Value) bool {
	_, t1 := a.(TupleV)
	_, t2 := b.(TupleV)
	if !t1 && !t2 && a == b {
		return true
	}
	switch av := a.(type) {
	case *StructV:
		bv, ok := b.(*StructV)
		if !ok || len(av.F) != len(bv.F) {
			return false
		}
		for i := range av.F {
			if !sameVal(av.F[i], bv.F[i]) {
				return false
			}
		}
		return true
	case TupleV:
		bv, ok := b.(TupleV)
		if !ok || len(av) != len(bv) {
			return false
		}
		for i := range av {
			if !sameVal(av[i], bv[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		bv, ok := b.(*PtrV)
		if !ok || av.Obj != bv.Obj || len(av.Path) != len(bv.Path) {
			return false
		}
		for i := range av.Path {
			if av.Path[i] != bv.Path[i] {
				return false
			}
		}
		return true
	case *SliceV:
		bv, ok := b.(*SliceV)
		if !ok || av.Obj != bv.Obj || av.Off != bv.Off || av.Len != bv.Len || len(av.Path) != len(bv.Path) {
			return false
		}
		return true
	case *IfaceV:
		bv, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if av.T == nil || bv.T == nil {
			return av.T == nil && bv.T == nil
		}
		return types.Identical(av.T, bv.T) && sameVal(av.V, bv.V)
	case *OpaqueV:
		bv, ok := b.(*OpaqueV)
		return ok && av.Id == bv.Id
	case *StrV:
		bv, ok := b.(*StrV)
		return ok && av.Known == bv.Known && av.S == bv.S && av.Id == bv.Id
	case *FuncV:
		bv, ok := b.(*FuncV)
		if !ok || av.Fn != bv.Fn || av.Opaque != bv.Opaque || av.Nil != bv.Nil || len(av.Bind) != len(bv.Bind) {
			return false
		}
		for i := range av.Bind {
			if !sameVal(av.Bind[i], bv.Bind[i]) {
				return false
			}
		}
		return true
	case *MapV:
		bv, ok := b.(*MapV)
		return ok && av.Obj == bv.Obj
	}
	return false
}

// ---------- state ----------

type pcEntry struct {
	t      *Term
	branch bool
}

type evalRec struct {
	origin string
	id     *Term
	args   []*Term
	res    *Term
}

type schemaRec struct {
	fn    *FuncV
	n     *Term // bound: 0 <= i < n
	lo    *Term
	more  []*Term // bounds of further indices
	done  map[string]bool
	where string
	heap  map[*Obj]Value // memory when it was assumed
	free  bool           // of every integer (the function guards itself)
	rest  []Value        // further arguments
	cond  *Term          // holds on some of the merged paths only (nil: all)
	id    int
}

var schemaIDs int64

func newSchemaID() int { return int(atomic.AddInt64(&schemaIDs, 1)) }

type State struct {
	heap    map[*Obj]Value
	pc      []pcEntry
	evals   []evalRec
	schemas []*schemaRec
	idxs    []*Term        // index terms seen (schema instantiation)
	names   map[string]int // contract inputs drawn so far, by name
	panicV  Value          // current panic value while running deferred calls
	panicOn bool
	ncut    int // loop cuts so far on this path (fresh-name discipline)
}

func (s *State) clone() *State {
	h := make(map[*Obj]Value, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	n := *s
	n.heap = h
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.evals = s.evals[:len(s.evals):len(s.evals)]
	n.schemas = make([]*schemaRec, len(s.schemas))
	for i, r := range s.schemas {
		d := make(map[string]bool, len(r.done))
		for k := range r.done {
			d[k] = true
		}
		n.schemas[i] = &schemaRec{fn: r.fn, n: r.n, lo: r.lo, more: r.more, done: d, where: r.where, heap: r.heap, free: r.free, rest: r.rest, cond: r.cond, id: r.id}
	}
	n.idxs = s.idxs[:len(s.idxs):len(s.idxs)]
	n.names = make(map[string]int, len(s.names))
	for k, v := range s.names {
		n.names[k] = v
	}
	return &n
}

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	for _, e := range s.pc {
		if e.t == t {
			return
		}
	}
	s.pc = append(s.pc, pcEntry{t, false})
}
func (s *State) branch(t *Term) {
	if t == tTrue {
		return
	}
	s.pc = append(s.pc, pcEntry{t, true})
}
func (s *State) hyps() []*Term {
	out := make([]*Term, 0, len(s.pc))
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OAnd {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if !seen[t] && t != tTrue {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, e := range s.pc {
		add(e.t)
	}
	return out
}
func (s *State) infeasible() bool {
	for _, e := range s.pc {
		if e.t == tFalse {
			return true
		}
	}
	return false
}

// decided: is cond (or its negation) syntactically implied by the path condition?
func (s *State) decided(c *Term) (bool, bool) {
	if c == tTrue {
		return true, true
	}
	if c == tFalse {
		return false, true
	}
	n := tNot(c)
	for _, e := range s.pc {
		if e.t == c {
			return true, true
		}
		if e.t == n {
			return false, true
		}
		if e.t.op == OAnd {
			for _, a := range e.t.args {
				if a == c {
					return true, true
				}
				if a == n {
					return false, true
				}
			}
		}
	}
	return false, false
}

// fresh makes the name of a contract input unique on this path.
func (s *State) fresh(name string) string {
	if s.names == nil {
		s.names = map[string]int{}
	}
	s.names[name]++
	if k := s.names[name]; k > 1 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

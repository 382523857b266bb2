package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome

func ret1(st *State, v Value) []Outcome { return []Outcome{{st: st, ret: v}} }

func realArg(v Value) *Term { return v.(*Term) }

var models map[string]modelFn

func (x *Exec) model(fn *ssa.Function) modelFn {
	n := fn.String()
	if m, ok := models[n]; ok {
		return m
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "fmt" {
		switch fn.Name() {
		case "Errorf":
			return mErr
		case "Sprintf", "Sprint", "Sprintln":
			return func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
				return ret1(st, &StrV{Id: freshVar(SInt, "sprintf")})
			}
		case "Print", "Println", "Printf", "Fprint", "Fprintln", "Fprintf":
			return func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
				return ret1(st, TupleV{freshVar(SInt, "n"), &IfaceV{}})
			}
		}
	}
	return nil
}

func mErr(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
	var id *Term
	if x.specMode { // package initialisation: one value per variable
		id = mkInt(int64(newObj("err", nil).id))
	} else {
		id = freshVar(SInt, "err")
		st.assume(tLt(mkInt(1<<40), id))
	}
	return ret1(st, &OpaqueV{Id: id, Origin: "error", T: fn.Signature.Results().At(0).Type()})
}

func m1(f func(a *Term) *Term) modelFn {
	return func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
		return ret1(st, f(realArg(args[0])))
	}
}
func m2(f func(a, b *Term) *Term) modelFn {
	return func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
		return ret1(st, f(realArg(args[0]), realArg(args[1])))
	}
}

func tTrunc(a *Term) *Term {
	return tIte(tLe(zeroOf(SReal), a), tToReal(tFloor(a)), tNeg(tToReal(tFloor(tNeg(a)))))
}

func (x *Exec) fsafe(st *State, name, pos string, ok *Term) {
	if !x.nodiv {
		x.safety(st, name, pos, ok, nil)
	}
}

func init() {
	z := func() *Term { return zeroOf(SReal) }
	one := func() *Term { return mkRealI(1) }
	half := func() *Term { return mkReal(big.NewRat(1, 2)) }
	models = map[string]modelFn{
		"math.Abs":   m1(tAbs),
		"math.Min":   m2(tMin),
		"math.Max":   m2(tMax),
		"math.Sin":   m1(tSin),
		"math.Cos":   m1(tCos),
		"math.Floor": m1(func(a *Term) *Term { return tToReal(tFloor(a)) }),
		"math.Ceil":  m1(func(a *Term) *Term { return tNeg(tToReal(tFloor(tNeg(a)))) }),
		"math.Trunc": m1(tTrunc),
		"math.Round": m1(func(a *Term) *Term {
			return tIte(tLe(z(), a), tToReal(tFloor(tAdd(a, half()))), tNeg(tToReal(tFloor(tAdd(tNeg(a), half())))))
		}),
		"math.RoundToEven": m1(func(a *Term) *Term { return mkApp(SReal, "roundeven", a) }),
		"math.Sqrt": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			a := realArg(args[0])
			if !synNonNeg(a) {
				x.fsafe(st, "square root of a negative number (NaN)", pos, tLe(z(), a))
			}
			return ret1(st, tSqrt(a))
		},
		"math.Hypot": m2(func(a, b *Term) *Term { return tSqrt(tAdd(tMul(a, a), tMul(b, b))) }),
		"math.Sincos": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			a := realArg(args[0])
			return ret1(st, TupleV{tSin(a), tCos(a)})
		},
		"math.Tan": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			a := realArg(args[0])
			c := tCos(a)
			if cf := piFrac(a); cf == nil {
				x.fsafe(st, "tangent at a pole", pos, tNot(tEq(c, z())))
			}
			return ret1(st, tDiv(tSin(a), c))
		},
		"math.Atan2": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			a, b := realArg(args[0]), realArg(args[1])
			if a.isZero() && b.isZero() {
				return ret1(st, z())
			}
			return ret1(st, mkApp(SReal, "atan2", a, b))
		},
		"math.Atan": m1(func(a *Term) *Term {
			if a.isZero() {
				return z()
			}
			return mkApp(SReal, "atan", a)
		}),
		"math.Acos": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			a := realArg(args[0])
			x.fsafe(st, "acos outside [-1,1] (NaN)", pos, tAnd(tLe(mkRealI(-1), a), tLe(a, one())))
			if a.op == OConst {
				for _, k := range [][3]int64{{-1, 1, 1}, {0, 1, 2}, {1, 0, 1}} { // acos(k) = PI*num/den
					if a.rat.Cmp(big.NewRat(k[0], 1)) == 0 {
						return ret1(st, tMul(mkReal(big.NewRat(k[1], k[2])), symPI))
					}
				}
			}
			return ret1(st, mkApp(SReal, "acos", a))
		},
		"math.Asin": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			a := realArg(args[0])
			x.fsafe(st, "asin outside [-1,1] (NaN)", pos, tAnd(tLe(mkRealI(-1), a), tLe(a, one())))
			return ret1(st, mkApp(SReal, "asin", a))
		},
		"math.Exp":   m1(func(a *Term) *Term { return mkApp(SReal, "exp", a) }),
		"math.Log":   m1(func(a *Term) *Term { return mkApp(SReal, "log", a) }),
		"math.Log2":  m1(func(a *Term) *Term { return mkApp(SReal, "log2", a) }),
		"math.Log10": m1(func(a *Term) *Term { return mkApp(SReal, "log10", a) }),
		"math.Mod": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			a, b := realArg(args[0]), realArg(args[1])
			x.fsafe(st, "math.Mod by zero (NaN)", pos, tNot(tEq(b, z())))
			return ret1(st, tSub(a, tMul(b, tTrunc(tDiv(a, b)))))
		},
		"math.Pow": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			a, b := realArg(args[0]), realArg(args[1])
			if b.op == OConst && b.rat.IsInt() && b.rat.Num().IsInt64() {
				k := b.rat.Num().Int64()
				if k >= 0 && k <= 8 {
					r := one()
					for i := int64(0); i < k; i++ {
						r = tMul(r, a)
					}
					return ret1(st, r)
				}
				if k == -1 {
					return ret1(st, tDiv(one(), a))
				}
			}
			if b.op == OConst && b.rat.Cmp(big.NewRat(1, 2)) == 0 {
				return ret1(st, tSqrt(a))
			}
			return ret1(st, mkApp(SReal, "pow", a, b))
		},
		"math.IsNaN": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, tFalse)
		},
		"math.IsInf": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			a := realArg(args[0])
			inf := mkVar(SReal, "INF")
			if a == inf {
				return ret1(st, mkBool(true))
			}
			return ret1(st, tFalse)
		},
		"math.Inf": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			inf := mkVar(SReal, "INF")
			if k, ok := args[0].(*Term).intVal(); ok && k < 0 {
				return ret1(st, tNeg(inf))
			}
			return ret1(st, inf)
		},
		// the sign of a zero is unknown
		"math.Copysign": m2(func(a, b *Term) *Term {
			neg := tLt(b, z())
			if b.op != OConst || b.isZero() {
				neg = tOr(neg, tAnd(tEq(b, z()), freshVar(SBool, "signbit")))
			}
			return tIte(neg, tNeg(tAbs(a)), tAbs(a))
		}),
		"math.Signbit": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			b := realArg(args[0])
			return ret1(st, tOr(tLt(b, z()), tAnd(tEq(b, z()), freshVar(SBool, "signbit"))))
		},
		"math.NaN": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			x.safety(st, "NaN produced", pos, tFalse, nil)
			return ret1(st, freshVar(SReal, "NaN"))
		},
		"math.Float32bits": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			a := args[0].(*Term)
			if a.op == OConst {
				f, _ := a.rat.Float64()
				return ret1(st, mkInt(int64(math.Float32bits(float32(f)))))
			}
			if a.op == OApp && a.name == "f32frombits" {
				return ret1(st, a.args[0])
			}
			return ret1(st, mkApp(SInt, "f32bits", a))
		},
		"math.Float32frombits": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			a := args[0].(*Term)
			if a.op == OApp && a.name == "f32bits" {
				return ret1(st, a.args[0])
			}
			return ret1(st, mkApp(SReal, "f32frombits", a))
		},
		"errors.New": mErr,
		"strconv.Itoa": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, &StrV{Id: freshVar(SInt, "str")})
		},
		"strconv.FormatInt": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, &StrV{Id: freshVar(SInt, "str")})
		},
		"strconv.FormatUint": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, &StrV{Id: freshVar(SInt, "str")})
		},
		"strconv.FormatFloat": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, &StrV{Id: freshVar(SInt, "str")})
		},
		"strconv.Quote": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, &StrV{Id: freshVar(SInt, "str")})
		},
		"runtime.Caller": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, TupleV{freshVar(SInt, "pc"), &StrV{Id: freshVar(SInt, "file")}, freshVar(SInt, "line"), tTrue})
		},
		"(*runtime.Func).Name": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, &StrV{Id: freshVar(SInt, "fn")})
		},
		"runtime.FuncForPC": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			o := newObj("Func", nil)
			st.heap[o] = &StructV{}
			return ret1(st, &PtrV{Obj: o})
		},
		"runtime/debug.Stack": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			o := newObj("stack", types.Typ[types.Uint8])
			st.heap[o] = &ArrState{Elem: types.Typ[types.Uint8], Sym: "stack"}
			n := freshVar(SInt, "stacklen")
			st.assume(tLe(mkInt(0), n))
			return ret1(st, &SliceV{Obj: o, Off: mkInt(0), Len: n, Cap: n})
		},
		"(*sync.Mutex).Lock": mNop, "(*sync.Mutex).Unlock": mNop,
		"log.Println": mNop, "log.Printf": mNop, "log.Print": mNop,
	}
	for k, v := range intrinsics() {
		models["(*"+vspecPath+".T)."+k] = v
	}
	for k, v := range intrinsicFuncs() {
		models[vspecPath+"."+k] = v
	}
}

func mNop(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
	return ret1(st, nil)
}

func strArg(v Value) string {
	s, ok := v.(*StrV)
	if !ok || !s.Known {
		panic(unsup("contract: name must be a constant string"))
	}
	return s.S
}

func (x *Exec) input(v *Term) *Term {
	for _, t := range x.T.Inputs {
		if t == v {
			return v
		}
	}
	x.T.Inputs = append(x.T.Inputs, v)
	return v
}

// variadic string flags
func (x *Exec) strList(st *State, v Value) []string {
	sl := v.(*SliceV)
	if sl.Obj == nil {
		return nil
	}
	n, ok := sl.Len.intVal()
	if !ok {
		panic(unsup("contract: flags must be constant"))
	}
	var out []string
	for i := int64(0); i < n; i++ {
		e := x.load(st, &PtrV{sl.Obj, append(sl.Path[:len(sl.Path):len(sl.Path)], PathEl{F: -1, Idx: tAdd(sl.Off, mkInt(i))})})
		out = append(out, strArg(e))
	}
	return out
}

func (x *Exec) regOrigin(name string, flags []string, dim int) {
	f := map[string]bool{}
	for _, k := range flags {
		f[k] = true
	}
	if oi := x.origins[name]; oi != nil {
		for k := range f {
			oi.flags[k] = true
		}
		return
	}
	x.origins[name] = &originInfo{flags: f, dim: dim}
}

func intrinsics() map[string]modelFn {
	seek := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
		return ret1(st, args[1])
	}
	return map[string]modelFn{
		"Seek2": seek,
		"Seek3": seek,
		"Real": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, x.input(mkVar(SReal, st.fresh(strArg(args[1])))))
		},
		"Bool": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, x.input(mkVar(SBool, st.fresh(strArg(args[1])))))
		},
		"Int": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			v := x.input(mkVar(SInt, st.fresh(strArg(args[1]))))
			st.assume(tLe(args[2].(*Term), v))
			st.assume(tLe(v, args[3].(*Term)))
			return ret1(st, v)
		},
		"Require": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			st.assume(args[1].(*Term))
			if args[1].(*Term) == tFalse {
				return nil
			}
			return ret1(st, nil)
		},
		"Ensure": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			nm := strArg(args[1])
			if x.dry == 0 {
				x.T.Ensures[nm]++
			}
			x.oblige(st, "ensures", nm, pos, args[2].(*Term))
			return ret1(st, nil)
		},
		// Have(name, b): an obligation, and a fact from there on.
		"Have": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			nm := strArg(args[1])
			if x.dry == 0 {
				x.T.Ensures[nm]++
			}
			x.oblige(st, "ensures", nm, pos, args[2].(*Term))
			st.assume(args[2].(*Term))
			return ret1(st, nil)
		},
		"SDF2": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			n := st.fresh(strArg(args[1]))
			x.regOrigin(n, x.strList(st, args[2]), 2)
			return ret1(st, &OpaqueV{Id: mkVar(SInt, n+".id"), Origin: n, T: fn.Signature.Results().At(0).Type()})
		},
		"SDF3": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			n := st.fresh(strArg(args[1]))
			x.regOrigin(n, x.strList(st, args[2]), 3)
			return ret1(st, &OpaqueV{Id: mkVar(SInt, n+".id"), Origin: n, T: fn.Signature.Results().At(0).Type()})
		},
		// Any(name, ptr, flags...): arbitrary value of the pointee type.
		"Any": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			n := st.fresh(strArg(args[1]))
			iv := args[2].(*IfaceV)
			p := iv.V.(*PtrV)
			t := iv.T.(*types.Pointer).Elem()
			fl := x.strList(st, args[3])
			x.regOrigin(n, fl, 0)
			v := symValue(x, st, t, n, nil)
			if sl, ok := v.(*SliceV); ok {
				x.input(sl.Len)
				for _, f := range fl {
					if strings.HasPrefix(f, "len>=") {
						var k int64
						fmt.Sscanf(f[5:], "%d", &k)
						st.assume(tLe(mkInt(k), sl.Len))
					}
					if strings.HasPrefix(f, "len=") {
						var k int64
						fmt.Sscanf(f[4:], "%d", &k)
						st.assume(tEq(mkInt(k), sl.Len))
						sl.Len = mkInt(k)
					}
					if f == "exactcap" {
						sl.Cap = sl.Len
					}
				}
			}
			st.heap[p.Obj] = storePath(x, st, x.content(st, p.Obj), p.Path, v)
			return ret1(st, nil)
		},
		// Lemma(name, f, args...): f holds of all reals (an obligation of its own), so of args.
		"Lemma": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			nm := strArg(args[1])
			lf := args[2].(*IfaceV).V.(*FuncV)
			sl := args[3].(*SliceV)
			n := int64(0)
			if sl.Obj != nil {
				n, _ = sl.Len.intVal()
			}
			var act, gen []Value
			for i := int64(0); i < n; i++ {
				av := x.load(st, &PtrV{sl.Obj, append(sl.Path[:len(sl.Path):len(sl.Path)], PathEl{F: -1, Idx: tAdd(sl.Off, mkInt(i))})})
				pt := lf.Fn.Params[i]
				iv, ok := av.(*IfaceV)
				if !ok || !types.Identical(iv.T, pt.Type()) {
					panic(unsup("contract: lemma %s: argument %d has another type", nm, i))
				}
				act = append(act, iv.V)
				gen = append(gen, symValue(x, st, pt.Type(), fmt.Sprintf("lemma.%s.%s", nm, pt.Name()), nil))
			}
			if x.dry == 0 {
				empty := &State{heap: map[*Obj]Value{}}
				for o, v := range st.heap {
					empty.heap[o] = v
				}
				g := x.evalSpec(empty, lf, gen)
				if g == nil {
					panic(unsup("contract: lemma %s", nm))
				}
				x.T.Ensures["lemma "+nm]++
				x.oblige(empty, "lemma", nm, pos, g)
			}
			g := x.evalSpec(st, lf, act)
			if g == nil {
				panic(unsup("contract: lemma %s", nm))
			}
			st.assume(g)
			return ret1(st, nil)
		},
		"AssumeForall":  assumeForall,
		"AssumeForall2": assumeForall,
		"AssumeForall3": assumeForall,
		"Invariant": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			iv := args[1].(*IfaceV)
			x.invs = append(x.invs, iv.V.(*FuncV))
			return ret1(st, nil)
		},
		// InvariantAll(f): f(j, ...) holds of every integer j.
		"InvariantAll": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			f := args[1].(*IfaceV).V.(*FuncV)
			x.invs = append(x.invs, f)
			if x.invAll == nil {
				x.invAll = map[*FuncV]bool{}
			}
			x.invAll[f] = true
			return ret1(st, nil)
		},
		"ClearInvariants": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			x.invs = nil
			return ret1(st, nil)
		},
		// Panics(f): does f panic?
		"Panics": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			x.catch++
			outs := x.callFn(st, args[1], nil, pos, nil)
			x.catch--
			for i := range outs {
				if outs[i].pan {
					outs[i].pan = false
					outs[i].pv = nil
					outs[i].ret = tTrue
				} else {
					outs[i].ret = tFalse
				}
			}
			return outs
		},
		// Frozen(f): while f runs nothing that existed before may be written.
		"Frozen": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			f := args[1].(*FuncV)
			exc := map[*Obj]bool{}
			for _, b := range f.Bind {
				if p, ok := b.(*PtrV); ok {
					exc[p.Obj] = true
				}
			}
			old := x.frozen
			x.frozen = map[*Obj]bool{}
			for o := range old {
				x.frozen[o] = true
			}
			for o := range st.heap {
				if !exc[o] {
					x.frozen[o] = true
				}
			}
			ofr := x.frame
			x.frame = true
			bad := len(x.T.Obligs)
			outs := x.callFn(st, f, nil, pos, nil)
			x.frozen = old
			x.frame = ofr
			for _, o := range x.T.Obligs[bad:] {
				if o.Kind == "frame" {
					return outs
				}
			}
			x.oblige(st, "frame", "writes no memory that existed before", pos, tTrue)
			return outs
		},
		"Opt": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			o := strArg(args[1])
			if o == "nodiv" {
				x.nodiv = true
			}
			if strings.HasPrefix(o, "-") {
				delete(x.flags, o[1:])
			} else {
				x.flags[o] = true
			}
			return ret1(st, nil)
		},
		"Bounded": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			x.T.Bounded = strArg(args[1])
			return ret1(st, nil)
		},
		// Split(b): case split.
		"Split": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			b := args[1].(*Term)
			if _, known := st.decided(b); known {
				return ret1(st, nil)
			}
			var outs []Outcome
			if x.feasible(st, b) {
				s := st.clone()
				s.branch(b)
				outs = append(outs, Outcome{st: s})
			}
			if x.feasible(st, tNot(b)) {
				s := st.clone()
				s.branch(tNot(b))
				outs = append(outs, Outcome{st: s})
			}
			return outs
		},
		// EvalFact(name, f): assumption about every evaluation of operand name.
		"EvalFact": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			n := strArg(args[1])
			oi := x.origins[n]
			if oi == nil {
				panic(unsup("contract: unknown operand %s", n))
			}
			oi.hooks = append(oi.hooks, args[2].(*IfaceV).V.(*FuncV))
			return ret1(st, nil)
		},
		"Use": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			x.addUse(st, args[1])
			return ret1(st, nil)
		},
		// Replace(target, impl): calls of target run impl.
		"Replace": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			c := &useC{Target: unwrapThunk(args[1].(*IfaceV).V.(*FuncV).Fn), Impl: args[2].(*IfaceV).V.(*FuncV)}
			c.Name = c.Target.String()
			x.uses[c.Target] = c
			x.T.Replaced = append(x.T.Replaced, c.Name+" (decided by "+strArg(args[3])+")")
			return ret1(st, nil)
		},
		"Verify": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return x.verifyContract(st, args[1], pos)
		},
		"Native": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, tFalse)
		},
	}
}

func intrinsicFuncs() map[string]modelFn {
	le := func(a, b *Term) *Term { return tLe(a, b) }
	return map[string]modelFn{
		"Le":  m2(le),
		"Ge":  m2(func(a, b *Term) *Term { return tLe(b, a) }),
		"Lt":  m2(func(a, b *Term) *Term { return tLt(a, b) }),
		"Eq":  m2(func(a, b *Term) *Term { return tEq(a, b) }),
		"Imp": m2(func(a, b *Term) *Term { return tImp(a, b) }),
		"And": m2(func(a, b *Term) *Term { return tAnd(a, b) }),
		"Or":  m2(func(a, b *Term) *Term { return tOr(a, b) }),
		"Iff": m2(func(a, b *Term) *Term { return tAnd(tImp(a, b), tImp(b, a)) }),
		// MapInt: the integer (field) held by a map of any type at a key
		"MapInt": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			mi, ok1 := args[0].(*IfaceV)
			ki, ok2 := args[1].(*IfaceV)
			f, ok3 := args[2].(*StrV)
			if !ok1 || !ok2 || !ok3 || !f.Known || mi.T == nil || ki.T == nil {
				panic(unsup("MapInt"))
			}
			m, ok := mi.V.(*MapV)
			if !ok || !types.Identical(under(mi.T).(*types.Map).Key(), ki.T) {
				panic(unsup("MapInt of %v", mi.T))
			}
			none := ret1(st, TupleV{mkInt(0), tFalse})
			if m.Obj == nil {
				return none
			}
			v, has := x.mapLookup(st, x.content(st, m.Obj).(*MapState), ki.V)
			et := under(mi.T).(*types.Map).Elem()
			if s, ok := under(et).(*types.Struct); ok {
				i := 0
				for ; i < s.NumFields(); i++ {
					if s.Field(i).Name() == f.S {
						break
					}
				}
				if i == s.NumFields() {
					panic(unsup("MapInt: no field %s", f.S))
				}
				v, et = v.(*StructV).F[i], s.Field(i).Type()
			}
			if so, ok := basicSort(et); !ok || so != SInt {
				panic(unsup("MapInt of %v", et))
			}
			return ret1(st, TupleV{v, has})
		},
		"Ite": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, tIte(args[0].(*Term), args[1].(*Term), args[2].(*Term)))
		},
		"Sqrt": m1(func(a *Term) *Term { return tSqrt(a) }),
		"Div":  m2(func(a, b *Term) *Term { return tDiv(a, b) }),
		// Same: the very same symbolic value (never true of unequal values)
		"Same": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, mkBool(sameVal(args[0], args[1])))
		},
		"BitsEq": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
			return ret1(st, tEq(args[0].(*Term), args[1].(*Term)))
		},
	}
}

// ---------- modular contracts ----------

type useC struct {
	Name      string
	Target    *ssa.Function
	Pre, Post *FuncV
	Impl      *FuncV // executed in place of the target
}

func unwrapThunk(fn *ssa.Function) *ssa.Function {
	if fn.Synthetic == "" || fn.Blocks == nil || len(fn.Blocks) != 1 {
		return fn
	}
	for _, in := range fn.Blocks[0].Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if s := c.Call.StaticCallee(); s != nil {
				return s
			}
		}
	}
	return fn
}

func (x *Exec) contractOf(v Value) *useC {
	s := v.(*StructV)
	get := func(i int) *FuncV {
		iv, ok := s.F[i].(*IfaceV)
		if !ok || iv.T == nil {
			return nil
		}
		return iv.V.(*FuncV)
	}
	t := get(1)
	if t == nil {
		panic(unsup("contract without target"))
	}
	return &useC{Name: strArg(s.F[0]), Target: unwrapThunk(t.Fn), Pre: get(2), Post: get(3)}
}

func (x *Exec) addUse(st *State, v Value) {
	c := x.contractOf(v)
	x.uses[c.Target] = c
	x.T.Uses[c.Name] = true
}

// useCall replaces a call by its contract.
func (x *Exec) useCall(st *State, uc *useC, fn *ssa.Function, args []Value, pos string) []Outcome {
	if uc.Impl != nil {
		return x.callFn(st, uc.Impl, args, pos, nil)
	}
	if uc.Pre != nil {
		p := x.evalSpec(st, uc.Pre, args)
		if p == nil {
			panic(unsup("precondition of %s", uc.Name))
		}
		x.oblige(st, "requires", "precondition of "+uc.Name, pos, p)
	}
	var fl []*Term
	for _, a := range args {
		fl = flatten(a, fl)
	}
	sig := fn.Signature
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		// the result is a function of the arguments
		res = append(res, symValue(x, st, sig.Results().At(i).Type(), fmt.Sprintf("res.%s#%d", uc.Name, i), fl))
	}
	if uc.Post != nil {
		p := x.evalSpec(st, uc.Post, append(append([]Value(nil), args...), res...))
		if p == nil {
			panic(unsup("postcondition of %s", uc.Name))
		}
		st.assume(p)
	}
	x.instSchemas(st)
	switch len(res) {
	case 0:
		return ret1(st, nil)
	case 1:
		return ret1(st, res[0])
	}
	return ret1(st, TupleV(res))
}

// verifyContract proves the postcondition of a modular contract against the body.
func (x *Exec) verifyContract(st *State, v Value, pos string) []Outcome {
	c := x.contractOf(v)
	delete(x.uses, c.Target)
	var args []Value
	for i, p := range c.Target.Params {
		a := symValue(x, st, p.Type(), fmt.Sprintf("arg%d", i), nil)
		args = append(args, a)
		for _, t := range flatten(a, nil) {
			if t.op == OVar {
				x.input(t)
			}
		}
	}
	if c.Pre != nil {
		p := x.evalSpec(st, c.Pre, args)
		if p == nil {
			panic(unsup("precondition of %s", c.Name))
		}
		st.assume(p)
	}
	outs := x.execFunc(st, c.Target, args, nil, false, pos)
	for i := range outs {
		o := &outs[i]
		if o.pan {
			continue
		}
		var res []Value
		if tv, ok := o.ret.(TupleV); ok {
			res = tv
		} else if o.ret != nil {
			res = []Value{o.ret}
		}
		p := x.evalSpec(o.st, c.Post, append(append([]Value(nil), args...), res...))
		if p == nil {
			panic(unsup("postcondition of %s", c.Name))
		}
		x.T.Ensures[c.Name]++
		x.oblige(o.st, "ensures", c.Name, pos, p)
		o.ret = nil
	}
	return outs
}

// ---------- builtins ----------

// asArr returns the dynamic-array view of an object's content at a path.
func (x *Exec) asArr(st *State, sl *SliceV) *ArrState {
	v := x.loadPath(st, x.content(st, sl.Obj), sl.Path)
	t := typeAtPath(sl.Obj.T, sl.Path)
	if t != nil {
		if at, ok := under(t).(*types.Array); ok {
			t = at.Elem()
		}
	}
	return x.toArr(v, t)
}
func (x *Exec) toArr(v Value, elem types.Type) *ArrState {
	switch a := v.(type) {
	case *ArrState:
		return a
	case *StructV:
		r := &ArrState{Elem: elem, Zero: true}
		var z Value
		if len(a.F) > 8 {
			z = zeroValue(elem)
		}
		for i, e := range a.F {
			if z != nil && sameVal(e, z) {
				continue
			}
			r = &ArrState{Elem: elem, Kind: 1, Prev: r, Idx: mkInt(int64(i)), Val: e}
		}
		return r
	}
	panic(unsup("array view of %T", v))
}

func (x *Exec) elemType(sl *SliceV) types.Type {
	if sl.Obj == nil {
		return nil
	}
	return sl.Obj.T
}

func constLen(sl *SliceV) (off, n int64, ok bool) {
	off, ok1 := sl.Off.intVal()
	n, ok2 := sl.Len.intVal()
	return off, n, ok1 && ok2
}

func (x *Exec) elems(st *State, sl *SliceV) ([]Value, bool) {
	if sl.Obj == nil {
		return nil, true
	}
	n, ok := sl.Len.intVal()
	if !ok || n > 256 {
		return nil, false
	}
	var out []Value
	for i := int64(0); i < n; i++ {
		p := &PtrV{sl.Obj, append(sl.Path[:len(sl.Path):len(sl.Path)], PathEl{F: -1, Idx: tAdd(sl.Off, mkInt(i))})}
		out = append(out, x.load(st, p))
	}
	return out, true
}

func (x *Exec) builtin(st *State, b *ssa.Builtin, args []Value, call *ssa.CallCommon, pos string, c *cfg) []Outcome {
	switch b.Name() {
	case "len":
		switch a := args[0].(type) {
		case *SliceV:
			return ret1(st, a.Len)
		case *StrV:
			if a.Known {
				return ret1(st, mkInt(int64(len(a.S))))
			}
			l := mkApp(SInt, "strlen", strId(a))
			st.assume(tLe(mkInt(0), l))
			return ret1(st, l)
		case *MapV:
			if a.Obj == nil {
				return ret1(st, mkInt(0))
			}
			return ret1(st, x.content(st, a.Obj).(*MapState).N)
		case *StructV:
			return ret1(st, mkInt(int64(len(a.F))))
		case *PtrV:
			n := under(call.Args[0].Type().Underlying().(*types.Pointer).Elem()).(*types.Array).Len()
			return ret1(st, mkInt(n))
		}
	case "cap":
		if a, ok := args[0].(*SliceV); ok {
			return ret1(st, a.Cap)
		}
	case "append":
		return x.appendB(st, args[0], args[1], call, pos)
	case "copy":
		dst := args[0].(*SliceV)
		if s, ok := args[1].(*StrV); ok {
			if !s.Known {
				panic(unsup("copy from unknown string"))
			}
			n := tMin(dst.Len, mkInt(int64(len(s.S))))
			k, ok := n.intVal()
			if !ok {
				panic(unsup("copy string"))
			}
			for i := int64(0); i < k; i++ {
				x.store(st, &PtrV{dst.Obj, append(dst.Path[:len(dst.Path):len(dst.Path)], PathEl{F: -1, Idx: tAdd(dst.Off, mkInt(i))})}, mkInt(int64(s.S[i])), pos)
			}
			return ret1(st, n)
		}
		src := args[1].(*SliceV)
		if dst.Obj == nil || src.Obj == nil {
			return ret1(st, mkInt(0))
		}
		n := tMin(dst.Len, src.Len)
		if k, ok := n.intVal(); ok && k <= 256 {
			vals := make([]Value, k)
			for i := range vals {
				vals[i] = x.load(st, &PtrV{src.Obj, append(src.Path[:len(src.Path):len(src.Path)], PathEl{F: -1, Idx: tAdd(src.Off, mkInt(int64(i)))})})
			}
			for i := range vals {
				x.store(st, &PtrV{dst.Obj, append(dst.Path[:len(dst.Path):len(dst.Path)], PathEl{F: -1, Idx: tAdd(dst.Off, mkInt(int64(i)))})}, vals[i], pos)
			}
			return ret1(st, n)
		}
		x.checkFrame(st, dst.Obj, pos)
		d, s := x.asArr(st, dst), x.asArr(st, src)
		nw := &ArrState{Elem: d.Elem, Kind: 2, Prev: d, Idx: dst.Off, N: n, Src: s, SrcOff: src.Off}
		st.heap[dst.Obj] = setArrPath(x.content(st, dst.Obj), dst.Path, nw)
		return ret1(st, n)
	case "delete":
		m := args[0].(*MapV)
		if m.Obj == nil {
			return ret1(st, nil)
		}
		panic(unsup("delete"))
	case "recover":
		if st.panicOn {
			st.panicOn = false
			v := st.panicV
			st.panicV = nil
			switch p := v.(type) {
			case *IfaceV:
				return ret1(st, p)
			case *OpaqueV:
				return ret1(st, p)
			case *StrV:
				return ret1(st, &OpaqueV{Id: freshVar(SInt, "runtimeError"), Origin: "runtime.Error", T: types.NewInterfaceType(nil, nil)})
			}
			return ret1(st, &OpaqueV{Id: freshVar(SInt, "panicval"), Origin: "panic", T: types.NewInterfaceType(nil, nil)})
		}
		return ret1(st, &IfaceV{})
	case "print", "println":
		return ret1(st, nil)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = tMin(r, a.(*Term))
			} else {
				r = tMax(r, a.(*Term))
			}
		}
		return ret1(st, r)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*PtrV); ok && p.Obj == nil {
			var outs []Outcome
			x.safety(st, "nil dereference", pos, tFalse, &outs)
			return outs
		}
		return ret1(st, args[0])
	case "panic":
		panic(unsup("panic builtin"))
	}
	panic(unsup("builtin %s on %T", b.Name(), args))
}

func setArrPath(v Value, path []PathEl, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	for _, e := range path {
		if e.Idx != nil {
			panic(unsup("region write inside an array element"))
		}
	}
	return setPath(v, path, nv)
}

func (x *Exec) appendB(st *State, a0, a1 Value, call *ssa.CallCommon, pos string) []Outcome {
	s := a0.(*SliceV)
	et := under(call.Args[0].Type()).(*types.Slice).Elem()
	if str, ok := a1.(*StrV); ok {
		if !str.Known {
			panic(unsup("append of unknown string"))
		}
		f := make([]Value, len(str.S))
		for i := range f {
			f[i] = mkInt(int64(str.S[i]))
		}
		o := newObj("str", types.NewArray(et, int64(len(f))))
		st.heap[o] = &StructV{f}
		n := mkInt(int64(len(f)))
		a1 = &SliceV{Obj: o, Off: mkInt(0), Len: n, Cap: n}
	}
	t := a1.(*SliceV)
	if t.Obj == nil || t.Len == mkInt(0) {
		return ret1(st, s)
	}
	// writes into spare capacity of memory that must not change
	if s.Obj != nil && (x.frozen[s.Obj] || (x.frame && s.Obj.pre)) {
		noSpare := tEq(s.Cap, s.Len)
		if d, known := st.decided(noSpare); !known || !d {
			x.oblige(st, "frame", "append may write into "+s.Obj.name, pos, tOr(noSpare, tLe(t.Len, mkInt(0))))
		}
	}
	newLen := tAdd(s.Len, t.Len)
	// fits syntactically: write in place
	if s.Obj != nil {
		if lo, _, ok := intRange(tSub(s.Cap, newLen)); ok && lo >= 0 {
			if vals, ok := x.elems(st, t); ok {
				for i, v := range vals {
					x.store(st, &PtrV{s.Obj, append(s.Path[:len(s.Path):len(s.Path)], PathEl{F: -1, Idx: tAdd(s.Off, s.Len, mkInt(int64(i)))})}, v, pos)
				}
			} else {
				x.checkFrame(st, s.Obj, pos)
				d, sr := x.asArr(st, s), x.asArr(st, t)
				nw := &ArrState{Elem: et, Kind: 2, Prev: d, Idx: tAdd(s.Off, s.Len), N: t.Len, Src: sr, SrcOff: t.Off}
				st.heap[s.Obj] = setArrPath(x.content(st, s.Obj), s.Path, nw)
			}
			return ret1(st, &SliceV{Obj: s.Obj, Path: s.Path, Off: s.Off, Len: newLen, Cap: s.Cap, Spare: s.Spare})
		}
	}
	o := newObj("append", et)
	se, ok1 := x.elems(st, s)
	te, ok2 := x.elems(st, t)
	if ok1 && ok2 {
		o.T = types.NewArray(et, int64(len(se)+len(te)))
		st.heap[o] = &StructV{append(append([]Value(nil), se...), te...)}
		return ret1(st, &SliceV{Obj: o, Off: mkInt(0), Len: newLen, Cap: newLen})
	}
	var base *ArrState
	off := mkInt(0)
	if s.Obj == nil {
		base = &ArrState{Elem: et, Zero: true}
	} else {
		base = x.asArr(st, s)
		off = s.Off
	}
	at := tAdd(off, s.Len)
	if ok2 {
		for i, v := range te {
			base = &ArrState{Elem: et, Kind: 1, Prev: base, Idx: tAdd(at, mkInt(int64(i))), Val: v}
		}
	} else {
		base = &ArrState{Elem: et, Kind: 2, Prev: base, Idx: at, N: t.Len, Src: x.asArr(st, t), SrcOff: t.Off}
	}
	st.heap[o] = base
	return ret1(st, &SliceV{Obj: o, Off: off, Len: newLen, Cap: newLen})
}

func assumeForall(x *Exec, st *State, fn *ssa.Function, args []Value, pos string) []Outcome {
	r := &schemaRec{fn: args[len(args)-1].(*FuncV), n: args[1].(*Term), lo: mkInt(0), done: map[string]bool{}, where: pos, heap: map[*Obj]Value{}, id: newSchemaID()}
	for o, v := range st.heap {
		r.heap[o] = v
	}
	for _, a := range args[2 : len(args)-1] {
		r.more = append(r.more, a.(*Term))
	}
	st.schemas = append(st.schemas, r)
	x.instSchemas(st)
	return ret1(st, nil)
}

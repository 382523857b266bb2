//go:build verif

// Package vspec is the contract language. The verifier (govc) interprets the
// methods of T symbolically; this implementation runs the same contracts on
// concrete inputs (replay and counterexample search).
package vspec

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"unsafe"

	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// T carries one concrete run of a contract.
type T struct {
	Rng    *rand.Rand
	Fixed  map[string]string // values forced by name
	Log    []string          // inputs used, in order
	Failed string            // first failing clause
	Tol    float64
	Size   int
	Covers map[string]int
}

type reject struct{}
type failure struct{}

// Contract is a modular contract of a pure function.
type Contract struct {
	Name   string
	Target interface{}
	Pre    interface{}
	Post   interface{}
}

// Same reports whether a and b are the very same value (in a proof, the same
// symbolic value; never true of values that may differ).
func Same(a, b float64) bool { return a == b }

// Replace makes calls of target run impl (proof only: concrete runs execute
// the real target, so a contract that replaces anything must not rely on it
// when Native); by names what decides that the target does so.
func (t *T) Replace(target, impl interface{}, by string) {}

// Run executes a contract once; ok=false means the inputs were rejected.
func Run(t *T, f func(*T)) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case reject:
				ok = false
				return
			case failure:
				ok = true
				return
			}
			if t.Failed == "" {
				t.Failed = fmt.Sprintf("no panic: %v", r)
			}
			ok = true
		}
	}()
	f(t)
	return true
}

func (t *T) fixed(name string) (string, bool) {
	v, ok := t.Fixed[name]
	return v, ok
}
func (t *T) log(name string, v interface{}) { t.Log = append(t.Log, fmt.Sprintf("%s=%v", name, v)) }

// Native reports whether the contract runs on concrete inputs.
func (t *T) Native() bool { return true }

// Real is an arbitrary real number.
func (t *T) Real(name string) float64 {
	v := t.real(name)
	t.log(name, v)
	return v
}
func (t *T) real(name string) float64 {
	if s, ok := t.fixed(name); ok {
		var f float64
		if _, err := fmt.Sscan(s, &f); err == nil {
			return f
		}
	}
	r := t.Rng
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return float64(r.Intn(9) - 4)
	case 2:
		return float64(r.Intn(33)-16) / 4
	case 3:
		return r.NormFloat64() * 0.1
	case 4:
		return r.NormFloat64() * 10
	default:
		return r.NormFloat64() * 2
	}
}

// Pos is an arbitrary positive real, NonNeg an arbitrary non-negative one.
func (t *T) Pos(name string) float64 {
	v := t.Real(name)
	if t.Native() && v < 0 {
		v = -v
		t.Fixed[name] = fmt.Sprint(v)
		t.log(name, v)
	}
	t.Require(v > 0)
	return v
}
func (t *T) NonNeg(name string) float64 {
	v := t.Real(name)
	if t.Native() && v < 0 {
		v = -v
		t.Fixed[name] = fmt.Sprint(v)
		t.log(name, v)
	}
	t.Require(v >= 0)
	return v
}

// In is a real of the closed interval.
func (t *T) In(name string, lo, hi float64) float64 {
	v := t.Real(name)
	if t.Native() && !(v >= lo && v <= hi) {
		v = t.between(name, lo, hi)
	}
	t.Require(v >= lo && v <= hi)
	return v
}
func (t *T) between(name string, lo, hi float64) float64 {
	if !(lo <= hi) {
		panic(reject{})
	}
	f := t.Rng.Float64()
	switch t.Rng.Intn(6) {
	case 0:
		f = 0
	case 1:
		f = 1
	}
	v := lo + f*(hi-lo)
	if v > hi {
		v = hi
	}
	t.log(name, v)
	return v
}

// Int is an arbitrary integer of [lo, hi].
func (t *T) Int(name string, lo, hi int) int {
	if hi < lo {
		panic(reject{})
	}
	if s, ok := t.fixed(name); ok {
		var f int
		if _, err := fmt.Sscan(s, &f); err == nil && f >= lo && f <= hi {
			t.log(name, f)
			return f
		}
	}
	span := hi - lo
	lim := 6
	if t.Size > 0 {
		lim = t.Size
	}
	if span > lim || span < 0 {
		span = lim
	}
	v := lo + t.Rng.Intn(span+1)
	t.log(name, v)
	return v
}

// Index is an arbitrary index of a sequence of n elements.
func (t *T) Index(name string, n int) int { return t.Int(name, 0, n-1) }

// Bool is an arbitrary truth value.
func (t *T) Bool(name string) bool {
	if s, ok := t.fixed(name); ok {
		t.log(name, s)
		return s == "true"
	}
	v := t.Rng.Intn(2) == 0
	t.log(name, v)
	return v
}

// Vec2, Vec3: arbitrary points.
func (t *T) Vec2(name string) r2.Vec { return r2.Vec{X: t.Real(name + ".X"), Y: t.Real(name + ".Y")} }
func (t *T) Vec3(name string) r3.Vec {
	return r3.Vec{X: t.Real(name + ".X"), Y: t.Real(name + ".Y"), Z: t.Real(name + ".Z")}
}

// Box2, Box3: arbitrary boxes with Min <= Max.
func (t *T) Box2(name string) r2.Box {
	m := t.Vec2(name + ".Min")
	return r2.Box{Min: m, Max: r2.Vec{X: m.X + t.NonNeg(name+".sx"), Y: m.Y + t.NonNeg(name+".sy")}}
}
func (t *T) Box3(name string) r3.Box {
	m := t.Vec3(name + ".Min")
	return r3.Box{Min: m, Max: r3.Vec{X: m.X + t.NonNeg(name+".sx"), Y: m.Y + t.NonNeg(name+".sy"), Z: m.Z + t.NonNeg(name+".sz")}}
}

// PosVec2, PosVec3: points with positive coordinates.
func (t *T) PosVec2(name string) r2.Vec { return r2.Vec{X: t.Pos(name + ".X"), Y: t.Pos(name + ".Y")} }
func (t *T) PosVec3(name string) r3.Vec {
	return r3.Vec{X: t.Pos(name + ".X"), Y: t.Pos(name + ".Y"), Z: t.Pos(name + ".Z")}
}

// Require restricts the inputs considered.
func (t *T) Require(b bool) {
	if !b {
		panic(reject{})
	}
}

// Ensure is an obligation.
func (t *T) Ensure(name string, b bool) {
	if t.Covers != nil {
		t.Covers[name]++
	}
	if !b && t.Failed == "" {
		t.Failed = name
		panic(failure{})
	}
}

// Have is an obligation that is a fact from there on.
func (t *T) Have(name string, b bool) { t.Ensure(name, b) }

// Lemma states a fact about all reals and instantiates it at args.
func (t *T) Lemma(name string, f interface{}, args ...interface{}) {}

// AssumeForall restricts inputs: f holds of every 0 <= i < n.
func (t *T) AssumeForall(n int, f func(i int) bool) {
	for i := 0; i < n; i++ {
		t.Require(f(i))
	}
}

// AssumeForall2 and AssumeForall3 range over pairs and triples.
func (t *T) AssumeForall2(n, m int, f func(i, j int) bool) {
	t.AssumeForall(n, func(i int) bool {
		t.AssumeForall(m, func(j int) bool { return f(i, j) })
		return true
	})
}
func (t *T) AssumeForall3(n, m, l int, f func(i, j, k int) bool) {
	t.AssumeForall(n, func(i int) bool {
		t.AssumeForall2(m, l, func(j, k int) bool { return f(i, j, k) })
		return true
	})
}

// Invariant annotates loops (verifier only).
func (t *T) Invariant(f interface{}) {}
func (t *T) InvariantAll(f interface{}) {}
func (t *T) ClearInvariants()        {}
func (t *T) Opt(s string)            {}
func (t *T) Bounded(s string)        {}
func (t *T) Split(b bool)            {}
func (t *T) Use(c Contract)          {}

// EvalFact restricts an operand: f holds of every (point, value) seen (verifier);
// the concrete operands satisfy their flags by construction.
func (t *T) EvalFact(name string, f interface{}) {}

// Panics reports whether f panics.
func (t *T) Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case reject, failure:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// Frozen runs f, which must not write memory that existed before (frame condition).
func (t *T) Frozen(f func()) { f() }

// Verify checks a modular contract against the body of its target.
func (t *T) Verify(c Contract) {
	tv := reflect.ValueOf(c.Target)
	var in []reflect.Value
	for i := 0; i < tv.Type().NumIn(); i++ {
		v := reflect.New(tv.Type().In(i)).Elem()
		t.fill(fmt.Sprintf("arg%d", i), v, nil)
		in = append(in, v)
	}
	if c.Pre != nil {
		t.Require(reflect.ValueOf(c.Pre).Call(in)[0].Bool())
	}
	out := tv.Call(in)
	t.Ensure(c.Name, reflect.ValueOf(c.Post).Call(append(in, out...))[0].Bool())
}

// Any fills *ptr with an arbitrary value.
func (t *T) Any(name string, ptr interface{}, flags ...string) {
	t.fill(name, reflect.ValueOf(ptr).Elem(), flags)
}

type evaluator2 interface{ Evaluate(r2.Vec) float64 }
type evaluator3 interface{ Evaluate(r3.Vec) float64 }

var ev2 = reflect.TypeOf((*evaluator2)(nil)).Elem()
var ev3 = reflect.TypeOf((*evaluator3)(nil)).Elem()

func (t *T) fill(name string, v reflect.Value, flags []string) {
	switch v.Kind() {
	case reflect.Float64, reflect.Float32:
		v.SetFloat(t.Real(name))
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		v.SetInt(int64(t.Int(name, -8, 8)))
	case reflect.Uint8:
		v.SetUint(uint64(t.Rng.Intn(256)))
	case reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(uint64(t.Rng.Intn(1 << 16)))
	case reflect.Bool:
		v.SetBool(t.Bool(name))
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d", t.Rng.Intn(10)))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() && f.CanAddr() { // unexported
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			if f.CanSet() {
				t.fill(name+"."+v.Type().Field(i).Name, f, flags)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			t.fill(fmt.Sprintf("%s[%d]", name, i), v.Index(i), flags)
		}
	case reflect.Slice:
		lo, hi := 0, 6
		if t.Size > 0 {
			hi = t.Size
		}
		spare := t.Rng.Intn(3)
		for _, f := range flags {
			if strings.HasPrefix(f, "len>=") {
				fmt.Sscan(f[5:], &lo)
			}
			if strings.HasPrefix(f, "len=") {
				fmt.Sscan(f[4:], &lo)
				hi = lo
			}
			if f == "exactcap" {
				spare = 0
			}
		}
		if hi < lo {
			hi = lo + 3
		}
		n := lo + t.Rng.Intn(hi-lo+1)
		if s, ok := t.fixed(name + ".len"); ok {
			var k int
			if _, err := fmt.Sscan(s, &k); err == nil && k >= lo && k <= 64 {
				n = k
			}
		}
		t.log(name+".len", n)
		sl := reflect.MakeSlice(v.Type(), n, n+spare)
		for i := 0; i < n; i++ {
			t.fill(fmt.Sprintf("%s[%d]", name, i), sl.Index(i), flags)
		}
		v.Set(sl)
	case reflect.Interface:
		if v.Type().Implements(ev3) {
			v.Set(reflect.ValueOf(t.SDF3(name, flags...)))
		} else if v.Type().Implements(ev2) {
			v.Set(reflect.ValueOf(t.SDF2(name, flags...)))
		}
	case reflect.Ptr:
		n := reflect.New(v.Type().Elem())
		t.fill(name, n.Elem(), flags)
		v.Set(n)
	}
}

// ---------- concrete operands ----------

// Operand2 and Operand3 mirror the interfaces of the library.
type Operand2 interface {
	Evaluate(r2.Vec) float64
	Bounds() r2.Box
}
type Operand3 interface {
	Evaluate(r3.Vec) float64
	Bounds() r3.Box
}

func has(flags []string, f string) bool {
	for _, g := range flags {
		if g == f {
			return true
		}
	}
	return false
}

// obj3 is an exact box or sphere (1-Lipschitz, correct bounds) with optional slack.
type obj3 struct {
	c, h    r3.Vec
	r       float64
	grow    r3.Vec
	bump    float64 // value multiplier: breaks the distance property, keeps signs
	far     float64
	wrinkle float64
}

func (o *obj3) Evaluate(p r3.Vec) float64 {
	q := r3.Sub(p, o.c)
	x, y, z := math.Abs(q.X)-o.h.X, math.Abs(q.Y)-o.h.Y, math.Abs(q.Z)-o.h.Z
	out := math.Sqrt(sq(math.Max(x, 0)) + sq(math.Max(y, 0)) + sq(math.Max(z, 0)))
	in := math.Min(math.Max(x, math.Max(y, z)), 0)
	d := (out + in - o.r) * o.bump
	if o.wrinkle != 0 {
		d += o.wrinkle * math.Sin(7*p.X+3*p.Y-5*p.Z) * math.Abs(d)
	}
	return d
}
func (o *obj3) Bounds() r3.Box {
	e := r3.Vec{X: o.h.X + o.r + o.grow.X, Y: o.h.Y + o.r + o.grow.Y, Z: o.h.Z + o.r + o.grow.Z}
	return r3.Box{Min: r3.Sub(o.c, e), Max: r3.Add(o.c, e)}
}
func sq(x float64) float64 { return x * x }

type obj2 struct {
	c, h    r2.Vec
	r       float64
	grow    r2.Vec
	bump    float64
	wrinkle float64
}

func (o *obj2) Evaluate(p r2.Vec) float64 {
	q := r2.Sub(p, o.c)
	x, y := math.Abs(q.X)-o.h.X, math.Abs(q.Y)-o.h.Y
	out := math.Sqrt(sq(math.Max(x, 0)) + sq(math.Max(y, 0)))
	in := math.Min(math.Max(x, y), 0)
	d := (out + in - o.r) * o.bump
	if o.wrinkle != 0 {
		d += o.wrinkle * math.Sin(7*p.X+3*p.Y) * math.Abs(d)
	}
	return d
}
func (o *obj2) Bounds() r2.Box {
	e := r2.Vec{X: o.h.X + o.r + o.grow.X, Y: o.h.Y + o.r + o.grow.Y}
	return r2.Box{Min: r2.Sub(o.c, e), Max: r2.Add(o.c, e)}
}

func (t *T) absr(s float64) float64 {
	switch t.Rng.Intn(6) {
	case 0:
		return 0
	case 1:
		return s
	}
	return math.Abs(t.Rng.NormFloat64()) * s
}
func (t *T) off(s float64) float64 {
	if t.Rng.Intn(4) == 0 {
		return 0
	}
	return t.Rng.NormFloat64() * s
}

// SDF3 is an arbitrary operand. flags: sound (d<=0 implies inside Bounds),
// euclid (value at least the distance to Bounds), within, finite, lip.
func (t *T) SDF3(name string, flags ...string) Operand3 {
	o := &obj3{c: r3.Vec{X: t.off(3), Y: t.off(3), Z: t.off(3)}, h: r3.Vec{X: t.absr(1), Y: t.absr(1), Z: t.absr(1)}, r: t.absr(.5), bump: 1}
	if t.Rng.Intn(3) == 0 {
		o.grow = r3.Vec{X: t.absr(.5), Y: t.absr(.5), Z: t.absr(.5)}
	}
	if !has(flags, "exact") && !has(flags, "euclid") && !has(flags, "lip") && !has(flags, "within") && !has(flags, "cheb") && t.Rng.Intn(2) == 0 {
		o.bump = math.Exp(t.Rng.NormFloat64())
		if t.Rng.Intn(2) == 0 {
			o.wrinkle = .3
		}
	}
	t.log(name, fmt.Sprintf("%+v", *o))
	return o
}
func (t *T) SDF2(name string, flags ...string) Operand2 {
	o := &obj2{c: r2.Vec{X: t.off(3), Y: t.off(3)}, h: r2.Vec{X: t.absr(1), Y: t.absr(1)}, r: t.absr(.5), bump: 1}
	if t.Rng.Intn(3) == 0 {
		o.grow = r2.Vec{X: t.absr(.5), Y: t.absr(.5)}
	}
	if !has(flags, "exact") && !has(flags, "euclid") && !has(flags, "lip") && !has(flags, "within") && !has(flags, "cheb") && t.Rng.Intn(2) == 0 {
		o.bump = math.Exp(t.Rng.NormFloat64())
		if t.Rng.Intn(2) == 0 {
			o.wrinkle = .3
		}
	}
	t.log(name, fmt.Sprintf("%+v", *o))
	return o
}

// ---------- comparisons (exact over the reals in the verifier) ----------

func tol(a, b float64) float64 {
	return 1e-7 * (1 + math.Max(math.Abs(a), math.Abs(b)))
}
func Le(a, b float64) bool { return a <= b+tol(a, b) }
func Ge(a, b float64) bool { return Le(b, a) }
func Lt(a, b float64) bool { return a < b+tol(a, b) }
func Eq(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol(a, b)
}
func Imp(a, b bool) bool { return !a || b }
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Iff(a, b bool) bool { return a == b }
func Ite(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func Sqrt(a float64) float64   { return math.Sqrt(a) }
func Div(a, b float64) float64 { return a / b }

// EqV2, EqV3 compare points.
func EqV2(a, b r2.Vec) bool { return And(Eq(a.X, b.X), Eq(a.Y, b.Y)) }
func EqV3(a, b r3.Vec) bool { return And(And(Eq(a.X, b.X), Eq(a.Y, b.Y)), Eq(a.Z, b.Z)) }

// InBox2, InBox3: closed box membership.
func InBox2(p r2.Vec, b r2.Box) bool {
	return And(And(Le(b.Min.X, p.X), Le(p.X, b.Max.X)), And(Le(b.Min.Y, p.Y), Le(p.Y, b.Max.Y)))
}
func InBox3(p r3.Vec, b r3.Box) bool {
	return And(And(And(Le(b.Min.X, p.X), Le(p.X, b.Max.X)), And(Le(b.Min.Y, p.Y), Le(p.Y, b.Max.Y))), And(Le(b.Min.Z, p.Z), Le(p.Z, b.Max.Z)))
}

// Contains2, Contains3: b contains a.
func Contains2(b, a r2.Box) bool { return And(InBox2(a.Min, b), InBox2(a.Max, b)) }
func Contains3(b, a r3.Box) bool { return And(InBox3(a.Min, b), InBox3(a.Max, b)) }
func EqBox2(b, a r2.Box) bool    { return And(EqV2(a.Min, b.Min), EqV2(a.Max, b.Max)) }
func EqBox3(b, a r3.Box) bool    { return And(EqV3(a.Min, b.Min), EqV3(a.Max, b.Max)) }

// Neg is false for a value that is safely positive (strict sign tests are
// made robust against rounding in the concrete mode).
func Inside(d float64) bool { return d <= 0 }

// MapInt returns the integer that map m, of any type, holds at key: its
// element or, if that is a struct, the field of it.
func MapInt(m, key interface{}, field string) (int, bool) {
	v := reflect.ValueOf(m).MapIndex(reflect.ValueOf(key))
	if !v.IsValid() {
		return 0, false
	}
	if v.Kind() == reflect.Struct {
		v = v.FieldByName(field)
	}
	return int(v.Int()), true
}

// Seek2 and Seek3 return p; natively they may move it to a solid point of s.
func (t *T) Seek2(p r2.Vec, s Operand2) r2.Vec {
	q := t.Seek3(r3.Vec{X: p.X, Y: p.Y}, flat{s})
	return r2.Vec{X: q.X, Y: q.Y}
}

type flat struct{ s Operand2 }

func (f flat) Evaluate(p r3.Vec) float64 { return f.s.Evaluate(r2.Vec{X: p.X, Y: p.Y}) }
func (f flat) Bounds() r3.Box            { return r3.Box{} }

func (t *T) Seek3(p r3.Vec, s Operand3) r3.Vec {
	if t.Rng.Intn(2) == 0 {
		return p
	}
	q := p
	for i := 0; i < 12; i++ {
		d := s.Evaluate(q)
		if !(d > 0 && d < 1e6) {
			break
		}
		const e = 1e-4
		g := r3.Vec{
			X: s.Evaluate(r3.Vec{X: q.X + e, Y: q.Y, Z: q.Z}) - d,
			Y: s.Evaluate(r3.Vec{X: q.X, Y: q.Y + e, Z: q.Z}) - d,
			Z: s.Evaluate(r3.Vec{X: q.X, Y: q.Y, Z: q.Z + e}) - d,
		}
		n := g.X*g.X + g.Y*g.Y + g.Z*g.Z
		if !(n > 1e-14) {
			break
		}
		k := 1.01 * d * e / n
		q = r3.Vec{X: q.X - k*g.X, Y: q.Y - k*g.Y, Z: q.Z - k*g.Z}
	}
	if q != q || math.Abs(q.X)+math.Abs(q.Y)+math.Abs(q.Z) > 1e4 {
		return p
	}
	t.log("p moved to", q)
	return q
}

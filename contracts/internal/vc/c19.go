//go:build verif

package vc

import (
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/internal/d2"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// two points and their distance
func apart3(t *T) (p, q r3.Vec, d float64) {
	p, q = t.Vec3("p"), t.Vec3("q")
	if t.Native() && t.Rng.Intn(2) == 0 {
		e := math.Exp(-t.Rng.Float64() * 6)
		q = r3.Vec{X: p.X + e*t.Rng.NormFloat64(), Y: p.Y + e*t.Rng.NormFloat64(), Z: p.Z + e*t.Rng.NormFloat64()}
	}
	x, y, z := p.X-q.X, p.Y-q.Y, p.Z-q.Z
	return p, q, Sqrt(x*x + y*y + z*z)
}
func apart2(t *T) (p, q r2.Vec, d float64) {
	p, q = t.Vec2("p"), t.Vec2("q")
	if t.Native() && t.Rng.Intn(2) == 0 {
		e := math.Exp(-t.Rng.Float64() * 6)
		q = r2.Vec{X: p.X + e*t.Rng.NormFloat64(), Y: p.Y + e*t.Rng.NormFloat64()}
	}
	x, y := p.X-q.X, p.Y-q.Y
	return p, q, Sqrt(x*x + y*y)
}

// p and q are any two points, so one direction is enough
func near3(t *T, s Operand3) {
	p, q, d := apart3(t)
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}
func near2(t *T, s Operand2) {
	p, q, d := apart2(t)
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

func C19_Difference3D(t *T) { near3(t, sdf.Difference3D(t.SDF3("a", "lip"), t.SDF3("b", "lip"))) }
func C19_Intersect3D(t *T)  { near3(t, sdf.Intersect3D(t.SDF3("a", "lip"), t.SDF3("b", "lip"))) }
func C19_Offset3D(t *T)     { near3(t, sdf.Offset3D(t.SDF3("a", "lip"), t.Real("k"))) }
func C19_Shell3D(t *T)      { near3(t, sdf.Shell3D(t.SDF3("a", "lip"), t.Pos("k"))) }
func C19_ScaleUniform3D(t *T) {
	near3(t, sdf.ScaleUniform3D(t.SDF3("a", "lip"), t.Pos("k")))
}
func C19_Cut3D(t *T) {
	n := t.Vec3("n")
	t.Require(n.X*n.X+n.Y*n.Y+n.Z*n.Z > 0)
	a := t.SDF3("a", "lip")
	s := sdf.Cut3D(a, t.Vec3("o"), n)
	p, q, d := apart3(t)
	u := r3.Unit(n)
	t.Have("unit", Eq(u.X*u.X+u.Y*u.Y+u.Z*u.Z, 1))
	w := r3.Vec{X: p.X - q.X, Y: p.Y - q.Y, Z: p.Z - q.Z}
	t.Lemma("Cauchy", cauchy3, u, w)
	uw, ww := u.X*w.X+u.Y*w.Y+u.Z*w.Z, w.X*w.X+w.Y*w.Y+w.Z*w.Z
	t.Have("shorter", Le(uw*uw, ww))
	t.Lemma("below the root", belowRoot, uw, ww)
	t.Have("along the normal", And(Le(uw, d), Le(-uw, d)))
	t.Have("operand", Le(a.Evaluate(p), a.Evaluate(q)+d))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

func belowRoot(x, s float64) bool {
	return x*x > s || And(Le(x, Sqrt(s)), Le(-x, Sqrt(s)))
}
func cauchy3(u, w r3.Vec) bool {
	uw := u.X*w.X + u.Y*w.Y + u.Z*w.Z
	return Le(uw*uw, (u.X*u.X+u.Y*u.Y+u.Z*u.Z)*(w.X*w.X+w.Y*w.Y+w.Z*w.Z))
}
func C19_Extrude3D(t *T) { near3(t, sdf.Extrude3D(t.SDF2("a", "lip"), t.Pos("height"))) }
func C19_Translate3D(t *T) {
	near3(t, sdf.Transform3D(t.SDF3("a", "lip"), sdf.Translate3D(t.Vec3("move"))))
}
func C19_Union3D(t *T) {
	var ss []sdf.SDF3
	t.Any("s", &ss, "len>=2", "lip")
	p, q, d := apart3(t)
	k := t.Int("k", 0, 1<<30)
	t.Require(k < len(ss))
	s := sdf.Union3D(ss...)
	t.Invariant(func(i int, e float64) bool { return Imp(i > k, e <= ss[k].Evaluate(p)) })
	e := s.Evaluate(p)
	t.Have("at most every operand", e <= ss[k].Evaluate(p))
	// k is any operand
	t.AssumeForall(len(ss), func(i int) bool {
		return And(e <= ss[i].Evaluate(p)+slack(t), ss[i].Evaluate(p) <= ss[i].Evaluate(q)+d+slack(t))
	})
	t.ClearInvariants()
	t.Invariant(func(i int, f float64) bool { return Imp(i > 0, e <= f+d) })
	t.Ensure("no steeper than distance", Le(e, s.Evaluate(q)+d))
}

func C19_Difference2D(t *T) { near2(t, sdf.Difference2D(t.SDF2("a", "lip"), t.SDF2("b", "lip"))) }
func C19_Intersect2D(t *T)  { near2(t, sdf.Intersect2D(t.SDF2("a", "lip"), t.SDF2("b", "lip"))) }
func C19_Offset2D(t *T)     { near2(t, sdf.Offset2D(t.SDF2("a", "lip"), t.Real("k"))) }
func C19_ScaleUniform2D(t *T) {
	near2(t, sdf.ScaleUniform2D(t.SDF2("a", "lip"), t.Pos("k")))
}
func C19_Cut2D(t *T) {
	n := t.Vec2("n")
	t.Require(n.X*n.X+n.Y*n.Y > 0)
	near2(t, sdf.Cut2D(t.SDF2("a", "lip"), t.Vec2("o"), n))
}
func C19_Rotate2D(t *T) {
	near2(t, sdf.Transform2D(t.SDF2("a", "lip"), sdf.Rotate2D(t.Real("angle")).Mul(sdf.Translate2D(t.Vec2("move")))))
}

// ---- lemmas ----

func max0(a float64) float64           { return math.Max(a, 0) }
func norm2(a, b float64) float64       { return Sqrt(a*a + b*b) }
func dist2(a, b, c, d float64) float64 { return norm2(a-c, b-d) }

// the distance to the quadrant a, b <= 0 (a sharp or rounded convex corner)
func corner(a, b float64) float64 { return norm2(max0(a), max0(b)) + math.Min(math.Max(a, b), 0) }

func triangle2(a, b, c, d float64) bool { return norm2(a, b) <= norm2(c, d)+dist2(a, b, c, d) }
func apartLess(a, b, c, d float64) bool {
	return Imp(And(math.Abs(a) <= math.Abs(c), math.Abs(b) <= math.Abs(d)), norm2(a, b) <= norm2(c, d))
}
func sideLess(a, b float64) bool { return And(math.Abs(a) <= norm2(a, b), math.Abs(b) <= norm2(a, b)) }
func cornerIn(a, b, m float64) bool {
	return Imp(And(And(a >= 0, b >= 0), m >= 0), norm2(a, b)+m <= norm2(a+m, b+m))
}

// the distance to a corner changes by no more than the distance moved
func cornerNear(t *T, a, b, c, d float64) {
	t.Lemma("triangle inequality", triangle2, max0(a), max0(b), max0(c), max0(d))
	t.Lemma("norm grows", apartLess, max0(a)-max0(c), max0(b)-max0(d), a-c, b-d)
	t.Lemma("leg of a triangle", sideLess, a-c, b-d)
	m := max0(-math.Max(c, d))
	t.Lemma("inner corner", cornerIn, max0(a), max0(b), m)
	t.Lemma("norm grows", apartLess, max0(a)+m, max0(b)+m, a-c, b-d)
	t.Lemma("one leg", sideLess, max0(a), max0(b))
	t.Lemma("one leg only", oneLeg, max0(a), max0(b))
	t.Have("distance to a corner", Le(corner(a, b), corner(c, d)+dist2(a, b, c, d)))
}
func oneLeg(a, b float64) bool {
	return And(Imp(a == 0, norm2(a, b) == math.Abs(b)), Imp(b == 0, norm2(a, b) == math.Abs(a)))
}

func C19_ExtrudeRounded3D(t *T) {
	h, r := t.Pos("height"), t.Pos("round") // none is C19_Extrude3D
	t.Require(2*r <= h)
	o := t.SDF2("a", "lip")
	s := sdf.ExtrudeRounded3D(o, h, r)
	p, q, d := apart3(t)
	a, c := o.Evaluate(r2.Vec{X: p.X, Y: p.Y}), o.Evaluate(r2.Vec{X: q.X, Y: q.Y})
	b, e := math.Abs(p.Z)-h/2+r, math.Abs(q.Z)-h/2+r
	cornerNear(t, a, b, c, e)
	t.Lemma("norm grows", apartLess, a-c, b-e, norm2(p.X-q.X, p.Y-q.Y), p.Z-q.Z)
	t.Have("moved", Le(dist2(a, b, c, e), d))
	t.Have("value", Eq(s.Evaluate(p), corner(a, b)-r))
	t.Have("value", Eq(s.Evaluate(q), corner(c, e)-r))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

func C19_Box2(t *T) {
	size, r := t.PosVec2("size"), t.NonNeg("round")
	s := must2.Box(size, r)
	p, q, d := apart2(t)
	a, b := math.Abs(p.X)-size.X/2+r, math.Abs(p.Y)-size.Y/2+r
	c, e := math.Abs(q.X)-size.X/2+r, math.Abs(q.Y)-size.Y/2+r
	cornerNear(t, a, b, c, e)
	t.Lemma("norm grows", apartLess, a-c, b-e, p.X-q.X, p.Y-q.Y)
	t.Have("moved", Le(dist2(a, b, c, e), d))
	t.Have("value", Eq(s.Evaluate(p), corner(a, b)-r))
	t.Have("value", Eq(s.Evaluate(q), corner(c, e)-r))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

func C19_Cylinder(t *T) {
	h, R, r := t.Pos("h"), t.Pos("r"), t.NonNeg("round")
	t.Require(And(r <= R, 2*r <= h))
	s := must3.Cylinder(h, R, r)
	p, q, d := apart3(t)
	t.Lemma("triangle inequality", triangle2, p.X, p.Y, q.X, q.Y)
	t.Lemma("triangle inequality", triangle2, q.X, q.Y, p.X, p.Y)
	u, v := norm2(p.X, p.Y), norm2(q.X, q.Y)
	a, b := u-R+r, math.Abs(p.Z)-h/2+r
	c, e := v-R+r, math.Abs(q.Z)-h/2+r
	w := norm2(p.X-q.X, p.Y-q.Y)
	t.Have("moved sideways", Le(math.Abs(u-v), w))
	cornerNear(t, a, b, c, e)
	t.Lemma("norm grows", apartLess, a-c, b-e, w, p.Z-q.Z)
	t.Have("moved", Le(dist2(a, b, c, e), d))
	t.Have("value", Eq(s.Evaluate(p), corner(a, b)-r))
	t.Have("value", Eq(s.Evaluate(q), corner(c, e)-r))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

func C19_Sphere(t *T) {
	r := t.Pos("r")
	s := must3.Sphere(r)
	p, q, d := apart3(t)
	t.Lemma("triangle inequality", triangle2, p.X, p.Y, q.X, q.Y)
	t.Lemma("triangle inequality", triangle2, q.X, q.Y, p.X, p.Y)
	u, v, w := norm2(p.X, p.Y), norm2(q.X, q.Y), norm2(p.X-q.X, p.Y-q.Y)
	t.Lemma("triangle inequality", triangle2, u, p.Z, v, q.Z)
	t.Lemma("norm grows", apartLess, u-v, p.Z-q.Z, w, p.Z-q.Z)
	t.Have("value", Eq(s.Evaluate(p), norm2(u, p.Z)-r))
	t.Have("value", Eq(s.Evaluate(q), norm2(v, q.Z)-r))
	t.Have("distance", Eq(d, norm2(w, p.Z-q.Z)))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

func C19_Box3(t *T) {
	size, r := t.PosVec3("size"), t.NonNeg("round")
	s := must3.Box(size, r)
	p, q, d := apart3(t)
	u := r3.Vec{X: math.Abs(p.X) - size.X/2 + r, Y: math.Abs(p.Y) - size.Y/2 + r, Z: math.Abs(p.Z) - size.Z/2 + r}
	v := r3.Vec{X: math.Abs(q.X) - size.X/2 + r, Y: math.Abs(q.Y) - size.Y/2 + r, Z: math.Abs(q.Z) - size.Z/2 + r}
	cornerNear(t, u.X, u.Y, v.X, v.Y)
	cornerNear(t, v.X, v.Y, u.X, u.Y)
	a, c := corner(u.X, u.Y), corner(v.X, v.Y)
	w := norm2(p.X-q.X, p.Y-q.Y)
	t.Lemma("norm grows", apartLess, u.X-v.X, u.Y-v.Y, p.X-q.X, p.Y-q.Y)
	t.Have("moved sideways", Le(math.Abs(a-c), w))
	cornerNear(t, a, u.Z, c, v.Z)
	t.Lemma("norm grows", apartLess, a-c, u.Z-v.Z, w, p.Z-q.Z)
	t.Have("distance", Eq(d, norm2(w, p.Z-q.Z)))
	t.Have("moved", Le(dist2(a, u.Z, c, v.Z), d))
	t.Have("value", Eq(s.Evaluate(p), corner(a, u.Z)-r))
	t.Have("value", Eq(s.Evaluate(q), corner(c, v.Z)-r))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

func C19_Line(t *T) {
	l, r := t.Pos("l"), t.NonNeg("round")
	s := must2.Line(l, r)
	p, q, d := apart2(t)
	a, b := max0(math.Abs(p.X)-l/2), math.Abs(p.Y)
	c, e := max0(math.Abs(q.X)-l/2), math.Abs(q.Y)
	t.Lemma("triangle inequality", triangle2, a, b, c, e)
	t.Lemma("norm grows", apartLess, a-c, b-e, p.X-q.X, p.Y-q.Y)
	t.Lemma("one leg", oneLeg, a, b)
	t.Lemma("one leg", oneLeg, c, e)
	t.Have("value", Eq(s.Evaluate(p), norm2(a, b)-r))
	t.Have("value", Eq(s.Evaluate(q), norm2(c, e)-r))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

// clamped to h either side of zero
func over(x, h float64) float64 { return x - math.Max(-h, math.Min(x, h)) }
func overNear(x, y, h float64) bool {
	return math.Abs(over(x, h)-over(y, h)) <= math.Abs(x-y)
}
func norm3(a, b, c float64) float64 { return Sqrt(a*a + b*b + c*c) }
func apartLess3(a, b, c, d, e, f float64) bool {
	return Imp(And(And(math.Abs(a) <= math.Abs(d), math.Abs(b) <= math.Abs(e)), math.Abs(c) <= math.Abs(f)), norm3(a, b, c) <= norm3(d, e, f))
}

func C19_Elongate3D(t *T) {
	h := t.Vec3("h")
	a := t.SDF3("a", "lip")
	s := sdf.Elongate3D(a, h)
	p, q, d := apart3(t)
	x, y, z := math.Abs(h.X)/2, math.Abs(h.Y)/2, math.Abs(h.Z)/2
	t.Lemma("clamped", overNear, p.X, q.X, x)
	t.Lemma("clamped", overNear, p.Y, q.Y, y)
	t.Lemma("clamped", overNear, p.Z, q.Z, z)
	t.Lemma("norm grows", apartLess3, over(p.X, x)-over(q.X, x), over(p.Y, y)-over(q.Y, y), over(p.Z, z)-over(q.Z, z), p.X-q.X, p.Y-q.Y, p.Z-q.Z)
	e := a.Evaluate(r3.Vec{X: over(p.X, x), Y: over(p.Y, y), Z: over(p.Z, z)})
	f := a.Evaluate(r3.Vec{X: over(q.X, x), Y: over(q.Y, y), Z: over(q.Z, z)})
	t.Have("operand", Le(e, f+d))
	t.Have("value", Eq(s.Evaluate(p), e))
	t.Have("value", Eq(s.Evaluate(q), f))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

func C19_Elongate2D(t *T) {
	h := t.Vec2("h")
	a := t.SDF2("a", "lip")
	s := sdf.Elongate2D(a, h)
	p, q, d := apart2(t)
	x, y := math.Abs(h.X)/2, math.Abs(h.Y)/2
	t.Lemma("clamped", overNear, p.X, q.X, x)
	t.Lemma("clamped", overNear, p.Y, q.Y, y)
	t.Lemma("norm grows", apartLess, over(p.X, x)-over(q.X, x), over(p.Y, y)-over(q.Y, y), p.X-q.X, p.Y-q.Y)
	e := a.Evaluate(r2.Vec{X: over(p.X, x), Y: over(p.Y, y)})
	f := a.Evaluate(r2.Vec{X: over(q.X, x), Y: over(q.Y, y)})
	t.Have("operand", Le(e, f+d))
	t.Have("value", Eq(s.Evaluate(p), e))
	t.Have("value", Eq(s.Evaluate(q), f))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

func C19_Revolve3D(t *T) {
	o := t.SDF2("a", "lip")
	s := sdf.Revolve3D(o, 2*math.Pi)
	revolveNear(t, o, s)
}
func C19_RevolvePart(t *T) {
	o := t.SDF2("a", "lip")
	x := t.In("angle", 0.1, 2*math.Pi-0.1)
	s := sdf.Revolve3D(o, x)
	x = math.Mod(x, 2*math.Pi)
	sin, cos := math.Sin(x), math.Cos(x)
	p, q, d := apart3(t)
	t.Lemma("distance along a direction", along, sin, cos, p.X-q.X, p.Y-q.Y)
	t.Lemma("leg of a triangle", sideLess, p.X-q.X, p.Y-q.Y)
	w := norm2(p.X-q.X, p.Y-q.Y)
	t.Have("distance to the end plane", Le(math.Abs((cos*p.Y-sin*p.X)-(cos*q.Y-sin*q.X)), w))
	t.Lemma("leg of a triangle", sideLess, w, p.Z-q.Z)
	t.Have("distance", Eq(d, norm2(w, p.Z-q.Z)))
	t.Have("sideways", Le(w, d))
	revolveApart(t, o, s, p, q, d)
}
func along(s, c, x, y float64) bool {
	return Imp(s*s+c*c == 1, math.Abs(c*y-s*x) <= norm2(x, y))
}
func revolveNear(t *T, o Operand2, s Operand3) {
	p, q, d := apart3(t)
	revolveApart(t, o, s, p, q, d)
}
func revolveApart(t *T, o Operand2, s Operand3, p, q r3.Vec, d float64) {
	t.Lemma("triangle inequality", triangle2, p.X, p.Y, q.X, q.Y)
	t.Lemma("triangle inequality", triangle2, q.X, q.Y, p.X, p.Y)
	u, v, w := norm2(p.X, p.Y), norm2(q.X, q.Y), norm2(p.X-q.X, p.Y-q.Y)
	t.Lemma("norm grows", apartLess, u-v, p.Z-q.Z, w, p.Z-q.Z)
	t.Have("distance", Eq(d, norm2(w, p.Z-q.Z)))
	a, b := o.Evaluate(r2.Vec{X: u, Y: p.Z}), o.Evaluate(r2.Vec{X: v, Y: q.Z})
	t.Have("profile", Le(a, b+d))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

func C19_Array2D(t *T) {
	p, q, d := apart2(t)
	st := t.Vec2("step")
	nx, ny := t.Int("nx", 1, 1<<20), t.Int("ny", 1, 1<<20)
	x, y := t.Int("x", 0, 1<<20), t.Int("y", 0, 1<<20)
	t.Require(x < nx && y < ny)
	if t.Native() {
		near2(t, sdf.Array2D(t.SDF2("a", "lip"), sdf.V2i{nx, ny}, st))
		return
	}
	a := t.SDF2("a") // no steeper than distance: used for the copy x, y only
	at := func(p r2.Vec, i, j int) r2.Vec {
		return r2.Vec{X: p.X - float64(i)*st.X, Y: p.Y - float64(j)*st.Y}
	}
	P, Q := at(p, x, y), at(q, x, y)
	t.Have("copies as far apart", And(Eq(P.X-Q.X, p.X-q.X), Eq(P.Y-Q.Y, p.Y-q.Y)))
	v, w := a.Evaluate(P), a.Evaluate(Q)
	t.Require(And(v <= w+d, v <= math.MaxFloat64))
	t.Invariant(func(j int, d float64) bool { return Imp(j > x, d <= v) })
	t.Invariant(func(j, k int, d float64) bool { return Imp(j > x || (j == x && k > y), d <= v) })
	s := sdf.Array2D(a, sdf.V2i{nx, ny}, st)
	e := s.Evaluate(p)
	t.Have("at most every copy", e <= v)
	// x and y are those of any copy
	t.Opt("loopidx")
	t.AssumeForall2(nx, ny, func(i, j int) bool { return e-d <= a.Evaluate(at(q, i, j)) })
	t.ClearInvariants()
	c := e - d
	t.Invariant(func(d float64) bool { return c <= d })
	t.Ensure("no steeper than distance", Le(e, s.Evaluate(q)+d))
}

// Two steps: C19_Array3D shows the value at p, less the distance, to be below
// the value at q of any copy; C19_Array3DLeast that whatever is below all copies
// is below the array's value.
func C19_Array3D(t *T) {
	p, q, d := apart3(t)
	st := t.Vec3("step")
	nx, ny, nz := t.Int("nx", 1, 1<<20), t.Int("ny", 1, 1<<20), t.Int("nz", 1, 1<<20)
	x, y, z := t.Int("x", 0, 1<<20), t.Int("y", 0, 1<<20), t.Int("z", 0, 1<<20)
	t.Require(x < nx && y < ny && z < nz)
	if t.Native() {
		near3(t, sdf.Array3D(t.SDF3("a", "lip"), sdf.V3i{nx, ny, nz}, st))
		return
	}
	a := t.SDF3("a") // no steeper than distance: used for the copy x, y, z only
	at := func(p r3.Vec, i, j, k int) r3.Vec {
		return r3.Vec{X: p.X - float64(i)*st.X, Y: p.Y - float64(j)*st.Y, Z: p.Z - float64(k)*st.Z}
	}
	P, Q := at(p, x, y, z), at(q, x, y, z)
	t.Have("copies as far apart", And(And(Eq(P.X-Q.X, p.X-q.X), Eq(P.Y-Q.Y, p.Y-q.Y)), Eq(P.Z-Q.Z, p.Z-q.Z)))
	v, w := a.Evaluate(P), a.Evaluate(Q)
	t.Require(v <= w+d)
	t.Invariant(func(j int, d float64) bool { return Imp(j > x, d <= v) })
	t.Invariant(func(j, k int, d float64) bool { return Imp(j > x || (j == x && k > y), d <= v) })
	t.Invariant(func(j, k, l int, d float64) bool {
		return Imp(j > x || (j == x && (k > y || (k == y && l > z))), d <= v)
	})
	s := sdf.Array3D(a, sdf.V3i{nx, ny, nz}, st)
	e := s.Evaluate(p)
	t.Ensure("no more than the distance above any copy", e-d <= w)
}
func C19_Array3DLeast(t *T) { C07_Array3DLeast(t) }

// Two steps as for Array3D. The operands are the distance to what is inside their bounds (the union
// leaves out those whose bounds are too far to matter)
func C19_Union2D(t *T) {
	var ss []sdf.SDF2
	if t.Native() {
		t.Any("s", &ss, "len>=2", "exact", "lip")
	} else {
		t.Any("s", &ss, "len>=2", "exact")
	}
	p, q, d := apart2(t)
	k := t.Int("k", 0, 1<<30)
	t.Require(k < len(ss))
	s := sdf.Union2D(ss...)
	if t.Native() {
		t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
		return
	}
	t.Use(minMaxOrdered())
	t.AssumeForall(len(ss), func(i int) bool {
		v, e := d2.Box(ss[i].Bounds()).MinMaxDist2(p), ss[i].Evaluate(p)
		return And(Sqrt(v.X) <= math.Max(e, 0), e <= Sqrt(v.Y))
	})
	ek := ss[k].Evaluate(p)
	t.Require(ek-d <= ss[k].Evaluate(q)) // no steeper than distance: used for operand k only
	t.Invariant(func(i int, vs []r2.Vec) bool {
		return Imp(i > k, And(And(vs[k].X >= 0, vs[k].Y >= vs[k].X), Sqrt(vs[k].X) <= math.Max(ek, 0)))
	})
	t.Invariant(func(i, minIndex int, vs []r2.Vec) bool {
		return Imp(i > 0, And(And(vs[minIndex].X >= 0, vs[minIndex].Y >= vs[minIndex].X), ss[minIndex].Evaluate(p) <= Sqrt(vs[minIndex].Y)))
	})
	t.Invariant(func(i, minIndex int, vs []r2.Vec) bool { return Imp(i > k, vs[minIndex].X <= vs[k].X) })
	t.Invariant(func(i, minIndex int, vs []r2.Vec, minDist2 float64) bool {
		return And(Imp(i <= 0, minDist2 < 0), Imp(i > 0, minDist2 == vs[minIndex].X))
	})
	t.Invariant(func(i, minIndex int) bool { return Imp(i > 0, And(0 <= minIndex, minIndex < i)) })
	t.Invariant(func(i, minIndex int, d float64, first bool) bool {
		return Imp(i > minIndex, And(!first, d <= ss[minIndex].Evaluate(p)))
	})
	t.Invariant(func(i, minIndex int, vs []r2.Vec, d float64, first bool) bool {
		return Imp(And(i > k, vs[minIndex].Y >= vs[k].X), And(!first, d <= ek))
	})
	t.Ensure("no more than the distance above any operand", s.Evaluate(p)-d <= ss[k].Evaluate(q))
}

// what is below every operand is below the union
func C19_Union2DLeast(t *T) {
	var ss []sdf.SDF2
	t.Any("s", &ss, "len>=2")
	q, c := t.Vec2("q"), t.Real("c")
	s := sdf.Union2D(ss...)
	t.AssumeForall(len(ss), func(i int) bool { return c <= ss[i].Evaluate(q) })
	t.Invariant(func(i, minIndex int) bool { return Imp(i > 0, And(0 <= minIndex, minIndex < i)) })
	t.Invariant(func(i, minIndex int, first bool) bool { return Imp(i > minIndex, !first) })
	t.Invariant(func(d float64, first bool) bool { return Or(first, c <= d) })
	t.Ensure("at least the least operand", c <= s.Evaluate(q))
}

//go:build verif

package vc

import (
	"math"

	"github.com/soypat/sdf"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func C08_Extrude3D(t *T) {
	a := t.SDF2("a")
	p := t.Vec3("p")
	h := t.Pos("h")
	d := sdf.Extrude3D(a, h).Evaluate(p)
	t.Ensure("profile over the height", Eq(d, math.Max(a.Evaluate(r2.Vec{X: p.X, Y: p.Y}), math.Abs(p.Z)-h/2)))
}
func C08_ScaleExtrude3D(t *T) {
	a := t.SDF2("a")
	p := t.Vec3("p")
	h, sc := t.Pos("h"), t.PosVec2("sc")
	d := sdf.ScaleExtrude3D(a, h, sc).Evaluate(p)
	f := p.Z/h + 0.5 // from the bottom
	q := r2.Vec{X: p.X * (1 + f*(1/sc.X-1)), Y: p.Y * (1 + f*(1/sc.Y-1))}
	moderate(t, q.X)
	moderate(t, q.Y)
	t.Ensure("scaled point", EqV2(sdf.ScaleExtrude(h, sc)(p), q))
	t.Ensure("scaled profile over the height", Eq(d, math.Max(a.Evaluate(q), math.Abs(p.Z)-h/2)))
}
func C08_TwistExtrude3D(t *T) {
	a := t.SDF2("a")
	p := t.Vec3("p")
	h, tw := t.Pos("h"), t.Real("tw")
	d := sdf.TwistExtrude3D(a, h, tw).Evaluate(p)
	g := tw * p.Z / h
	moderate(t, g)
	q := r2.Vec{X: math.Cos(g)*p.X - math.Sin(g)*p.Y, Y: math.Sin(g)*p.X + math.Cos(g)*p.Y}
	t.Ensure("turned point", EqV2(sdf.TwistExtrude(h, tw)(p), q))
	t.Ensure("turned profile over the height", Eq(d, math.Max(a.Evaluate(q), math.Abs(p.Z)-h/2)))
}
func C08_ScaleTwistExtrude3D(t *T) {
	a := t.SDF2("a")
	p := t.Vec3("p")
	h, tw, sc := t.Pos("h"), t.Real("tw"), t.PosVec2("sc")
	d := sdf.ScaleTwistExtrude3D(a, h, tw, sc).Evaluate(p)
	g, f := tw*p.Z/h, p.Z/h+0.5
	x, y := p.X*(1+f*(1/sc.X-1)), p.Y*(1+f*(1/sc.Y-1))
	moderate(t, g)
	q := r2.Vec{X: math.Cos(g)*x - math.Sin(g)*y, Y: math.Sin(g)*x + math.Cos(g)*y}
	moderate(t, q.X)
	moderate(t, q.Y)
	t.Ensure("scaled and turned point", EqV2(sdf.ScaleTwistExtrude(h, tw, sc)(p), q))
	t.Ensure("scaled and turned profile over the height", Eq(d, math.Max(a.Evaluate(q), math.Abs(p.Z)-h/2)))
}

// concrete runs: the sine of a huge number is all rounding
func moderate(t *T, g float64) {
	if t.Native() {
		t.Require(math.Abs(g) < 1e3)
	}
}

// distance to the region u <= 0, v <= 0 of a quarter plane
func corner2(u, v float64) float64 {
	return Ite(u >= 0 && v >= 0, Sqrt(u*u+v*v), math.Max(u, v))
}

func C08_ExtrudeRounded3D(t *T) {
	a := t.SDF2("a")
	p := t.Vec3("p")
	h, r := t.Pos("h"), t.NonNeg("r")
	t.Require(h >= 2*r)
	d := sdf.ExtrudeRounded3D(a, h, r).Evaluate(p)
	u, v := a.Evaluate(r2.Vec{X: p.X, Y: p.Y}), math.Abs(p.Z)-(h/2-r)
	t.Ensure("rounded edges", Imp(r > 0, Eq(d, corner2(u, v)-r)))
	t.Ensure("without rounding", Imp(r == 0, Eq(d, math.Max(u, v))))
}
func C08_Loft3D(t *T) {
	a, b := t.SDF2("a"), t.SDF2("b")
	p := t.Vec3("p")
	h, r := t.Pos("h"), t.NonNeg("r")
	t.Require(h > 2*r)
	d := sdf.Loft3D(a, b, h, r).Evaluate(p)
	q := r2.Vec{X: p.X, Y: p.Y}
	f := math.Min(1, math.Max(0, 0.5+p.Z/(h-2*r)))
	u, v := a.Evaluate(q)*(1-f)+b.Evaluate(q)*f, math.Abs(p.Z)-(h/2-r)
	t.Ensure("mixed profiles with rounded edges", Eq(d, corner2(u, v)-r))
}

// all of the height is rounding: the middle plane
func C08_LoftMiddle(t *T) {
	a, b := t.SDF2("a"), t.SDF2("b")
	p := t.Vec3("p")
	r := t.Pos("r")
	p.Z = 0
	d := sdf.Loft3D(a, b, 2*r, r).Evaluate(p)
	q := r2.Vec{X: p.X, Y: p.Y}
	u := (a.Evaluate(q) + b.Evaluate(q)) / 2
	t.Ensure("even mix", Eq(d, math.Max(u, 0)-r))
}
func C08_Revolve3D(t *T) {
	a := t.SDF2("a")
	p := t.Vec3("p")
	theta := t.In("theta", 0, 2*math.Pi)
	t.Require(theta > 1e-9)
	t.Require(theta < 2*math.Pi-1e-6)
	d := sdf.Revolve3D(a, theta).Evaluate(p)
	u := a.Evaluate(r2.Vec{X: Sqrt(p.X*p.X + p.Y*p.Y), Y: p.Z})
	v := math.Cos(theta)*p.Y - math.Sin(theta)*p.X
	w := Ite(theta < math.Pi, math.Max(-p.Y, v), math.Min(-p.Y, v))
	t.Ensure("profile of revolution within the wedge", Eq(d, math.Max(u, w)))
}
func C08_RevolveFull(t *T) {
	a := t.SDF2("a")
	p := t.Vec3("p")
	d := sdf.Revolve3D(a, 2*math.Pi).Evaluate(p)
	t.Ensure("profile of revolution", Eq(d, a.Evaluate(r2.Vec{X: Sqrt(p.X*p.X + p.Y*p.Y), Y: p.Z})))
}
func C08_Empty(t *T) {
	a, b := t.SDF2("a"), t.SDF2("b")
	p := t.Vec3("p")
	x := t.Real("x")
	t.Require(x < 0)
	h, r := t.Pos("h"), t.NonNeg("r")
	t.Ensure("no angle", sdf.Revolve3D(a, x).Evaluate(p) > 1e300)
	t.Ensure("no height", sdf.Loft3D(a, b, x, 0).Evaluate(p) > 1e300)
	t.Ensure("negative rounding", sdf.Loft3D(a, b, h, x).Evaluate(p) > 1e300)
	t.Ensure("no rounded height", sdf.ExtrudeRounded3D(a, x, h).Evaluate(p) > 1e300)
	t.Ensure("negative rounding of an extrusion", sdf.ExtrudeRounded3D(a, h, x).Evaluate(p) > 1e300)
	t.Require(h < 2*r)
	t.Ensure("too much rounding", sdf.Loft3D(a, b, h, r).Evaluate(p) > 1e300)
	t.Ensure("too much rounding of an extrusion", sdf.ExtrudeRounded3D(a, h, r).Evaluate(p) > 1e300)
}

var _ = r3.Vec{}

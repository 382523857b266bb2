//go:build verif

// Package vc holds the contracts stated over the public API.
package vc

import (
	"math"

	"github.com/soypat/sdf"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r3"
)

func C01_Difference3D(t *T) {
	a := t.SDF3("a", "sound")
	b := t.SDF3("b")
	p := t.Vec3("p")
	s := sdf.Difference3D(a, b)
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C01_Intersect3D(t *T) {
	a := t.SDF3("a", "sound")
	b := t.SDF3("b", "sound")
	p := t.Vec3("p")
	s := sdf.Intersect3D(a, b)
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C01_Union3D(t *T) {
	var ss []sdf.SDF3
	t.Any("s", &ss, "sound", "len>=2")
	p := t.Vec3("p")
	k := t.Int("k", 0, 1<<30)
	t.Require(k < len(ss))
	t.Invariant(func(i int, bb r3.Box) bool { return Imp(i > k, Contains3(bb, ss[k].Bounds())) })
	s := sdf.Union3D(ss...)
	bb := s.Bounds()
	t.Ensure("bounds contain every operand's", Contains3(bb, ss[k].Bounds()))
	t.ClearInvariants()
	// if no operand is solid at p the union is not
	t.Invariant(func(i int, d float64) bool { return Imp(i > 0, d > 0) })
	t.AssumeForall(len(ss), func(i int) bool { return ss[i].Evaluate(p) > 0 })
	d := s.Evaluate(p)
	t.Ensure("outside every operand is outside the union", d > 0)
}

func C01_Cut3D(t *T) {
	a := t.SDF3("a", "sound")
	p, n := t.Vec3("p"), t.Vec3("n")
	t.Require(n.X*n.X+n.Y*n.Y+n.Z*n.Z > 0)
	s := sdf.Cut3D(a, t.Vec3("o"), n)
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C01_ScaleUniform3D(t *T) {
	a := t.SDF3("a", "sound")
	p := t.Vec3("p")
	k := t.Pos("k")
	s := sdf.ScaleUniform3D(a, k)
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d < 0, InBox3(p, s.Bounds())))
}

func C01_Elongate3D(t *T) {
	a := t.SDF3("a", "sound")
	p := t.Vec3("p")
	s := sdf.Elongate3D(a, t.Vec3("h"))
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C01_Offset3D(t *T) {
	a := t.SDF3("a", "cheb")
	p := t.Vec3("p")
	k := t.Real("k")
	s := sdf.Offset3D(a, k)
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(And(k >= 0, d <= 0), InBox3(p, s.Bounds())))
}

func C01_Shell3D(t *T) {
	a := t.SDF3("a", "cheb")
	p := t.Vec3("p")
	k := t.Pos("k")
	s := sdf.Shell3D(a, k)
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C01_Array3D(t *T) {
	a := t.SDF3("a", "sound")
	p := t.Vec3("p")
	n := sdf.V3i{t.Int("nx", 1, 1<<20), t.Int("ny", 1, 1<<20), t.Int("nz", 1, 1<<20)}
	s := sdf.Array3D(a, n, t.Vec3("step"))
	p = t.Seek3(p, s)
	bb := s.Bounds()
	t.Require(!InBox3(p, bb))
	t.Invariant(func(i int, d float64) bool { return d > 0 })
	d := s.Evaluate(p)
	t.Ensure("outside the bounds is outside the array", d > 0)
}

func C01_RotateCopy3D(t *T) {
	a := t.SDF3("a", "sound")
	p := t.Vec3("p")
	s := sdf.RotateCopy3D(a, t.Int("n", 1, 1<<20))
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C01_Extrude3D(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec3("p")
	s := sdf.Extrude3D(a, t.Pos("h"))
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C01_ExtrudeRounded3D(t *T) {
	a := t.SDF2("a", "cheb")
	p := t.Vec3("p")
	h := t.Pos("h")
	r := t.NonNeg("r")
	t.Require(h >= 2*r)
	s := sdf.ExtrudeRounded3D(a, h, r)
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C01_ScaleExtrude3D(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec3("p")
	s := sdf.ScaleExtrude3D(a, t.Pos("h"), t.PosVec2("sc"))
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C01_TwistExtrude3D(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec3("p")
	s := sdf.TwistExtrude3D(a, t.Pos("h"), t.Real("tw"))
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C01_ScaleTwistExtrude3D(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec3("p")
	h, tw, sc := t.Pos("h"), t.Real("tw"), t.PosVec2("sc")
	s := sdf.ScaleTwistExtrude3D(a, h, tw, sc)
	p = t.Seek3(p, s)
	t.Require(math.Abs(p.Z) <= h/2)
	q := sdf.ScaleTwistExtrude(h, tw, sc)(p)
	m := math.Max(1, math.Max(sc.X, sc.Y))
	x, y := 1+(0.5+p.Z/h)*(1/sc.X-1), 1+(0.5+p.Z/h)*(1/sc.Y-1)
	t.Ensure("scaled then rotated", Eq(q.X*q.X+q.Y*q.Y, (x*p.X)*(x*p.X)+(y*p.Y)*(y*p.Y)))
	f := 0.5 + p.Z/h
	t.Ensure("height fraction", And(Le(0, f), Le(f, 1)))
	t.Ensure("scale X", Ge(m*x, 1))
	t.Ensure("scale Y", Ge(m*y, 1))
	t.Lemma("grows at most by the scale", func(x, y, px, py, m, q2 float64) bool {
		return Imp(And(And(m*x >= 1, m*y >= 1), q2 == (x*px)*(x*px)+(y*py)*(y*py)), px*px+py*py <= q2*m*m)
	}, x, y, p.X, p.Y, m, q.X*q.X+q.Y*q.Y)
	ab := a.Bounds()
	t.Require(a.Evaluate(q) <= 0)
	rx, ry := math.Max(math.Abs(ab.Min.X), math.Abs(ab.Max.X)), math.Max(math.Abs(ab.Min.Y), math.Abs(ab.Max.Y))
	for _, c := range [][3]float64{{q.X, ab.Min.X, ab.Max.X}, {q.Y, ab.Min.Y, ab.Max.Y}} {
		t.Lemma("square", sqInside, c[0], c[1], c[2])
	}
	t.Ensure("profile point inside", And(Le(q.X*q.X, rx*rx), Le(q.Y*q.Y, ry*ry)))
	t.Lemma("radius", func(px, py, qx2, qy2, rx, ry, m float64) bool {
		return Imp(And(And(And(qx2 <= rx*rx, qy2 <= ry*ry), px*px+py*py <= (qx2+qy2)*m*m), m >= 1),
			And(math.Abs(px) <= Sqrt(rx*rx+ry*ry)*m, math.Abs(py) <= Sqrt(rx*rx+ry*ry)*m))
	}, p.X, p.Y, q.X*q.X, q.Y*q.Y, rx, ry, m)
	t.Ensure("solid inside bounds", InBox3(p, s.Bounds()))
}

func C01_ExtrudeHeight(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec3("p")
	h, tw, sc := t.Pos("h"), t.Real("tw"), t.PosVec2("sc")
	s := sdf.ScaleTwistExtrude3D(a, h, tw, sc)
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid within the height", Imp(d <= 0, Le(math.Abs(p.Z), h/2)))
	bb := s.Bounds()
	t.Ensure("bounds have the height", And(Le(bb.Min.Z, -h/2), Le(h/2, bb.Max.Z)))
}

func C01_Loft3D(t *T) {
	a := t.SDF2("a", "cheb")
	b := t.SDF2("b", "cheb")
	p := t.Vec3("p")
	h := t.Pos("h")
	r := t.NonNeg("r")
	t.Require(h > 2*r)
	s := sdf.Loft3D(a, b, h, r)
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C01_Revolve3D(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec3("p")
	s := sdf.Revolve3D(a, t.In("theta", 0, 2*math.Pi))
	p = t.Seek3(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func sqInside(q, lo, hi float64) bool {
	r := math.Max(math.Abs(lo), math.Abs(hi))
	return Imp(lo <= q && q <= hi, q*q <= r*r)
}

//go:build verif

package vc

import (
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/internal/d2"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
)

func C04_Union3D(t *T) {
	var ss []sdf.SDF3
	t.Any("s", &ss, "len>=2")
	p := t.Vec3("p")
	k := t.Int("k", 0, 1<<30)
	t.Require(k < len(ss))
	c := t.Real("c")
	t.Invariant(func(i int, d float64) bool { return Imp(i > k, d <= ss[k].Evaluate(p)) })
	t.Invariant(func(i int, d float64) bool { return Imp(i > 0, c <= d) })
	s := sdf.Union3D(ss...)
	t.AssumeForall(len(ss), func(i int) bool { return c <= ss[i].Evaluate(p) })
	d := s.Evaluate(p)
	t.Ensure("at most every operand", d <= ss[k].Evaluate(p))
	t.Ensure("at least the least operand", c <= d)
}

func C04_Difference3D(t *T) {
	a, b := t.SDF3("a"), t.SDF3("b")
	p := t.Vec3("p")
	d := sdf.Difference3D(a, b).Evaluate(p)
	t.Ensure("max(a,-b)", Eq(d, math.Max(a.Evaluate(p), -b.Evaluate(p))))
}

func C04_Intersect3D(t *T) {
	a, b := t.SDF3("a"), t.SDF3("b")
	p := t.Vec3("p")
	d := sdf.Intersect3D(a, b).Evaluate(p)
	t.Ensure("max(a,b)", Eq(d, math.Max(a.Evaluate(p), b.Evaluate(p))))
}

func C04_Difference2D(t *T) {
	a, b := t.SDF2("a"), t.SDF2("b")
	p := t.Vec2("p")
	d := sdf.Difference2D(a, b).Evaluate(p)
	t.Ensure("max(a,-b)", Eq(d, math.Max(a.Evaluate(p), -b.Evaluate(p))))
}

func C04_Intersect2D(t *T) {
	a, b := t.SDF2("a"), t.SDF2("b")
	p := t.Vec2("p")
	d := sdf.Intersect2D(a, b).Evaluate(p)
	t.Ensure("max(a,b)", Eq(d, math.Max(a.Evaluate(p), b.Evaluate(p))))
}

func C04_Cut3D(t *T) {
	a := t.SDF3("a")
	p, o, n := t.Vec3("p"), t.Vec3("o"), t.Vec3("n")
	l2 := n.X*n.X + n.Y*n.Y + n.Z*n.Z
	t.Require(l2 > 0)
	d := sdf.Cut3D(a, o, n).Evaluate(p)
	h := (o.X-p.X)*n.X + (o.Y-p.Y)*n.Y + (o.Z-p.Z)*n.Z
	t.Ensure("keeps the side of the normal", Eq(d, math.Max(a.Evaluate(p), h/Sqrt(l2))))
}

func C04_Cut2D(t *T) {
	a := t.SDF2("a")
	p, o, v := t.Vec2("p"), t.Vec2("o"), t.Vec2("v")
	l2 := v.X*v.X + v.Y*v.Y
	t.Require(l2 > 0)
	d := sdf.Cut2D(a, o, v).Evaluate(p)
	h := (p.Y-o.Y)*v.X - (p.X-o.X)*v.Y
	t.Ensure("keeps the right of the line", Eq(d, math.Max(a.Evaluate(p), h/Sqrt(l2))))
}

// blending functions are applied to the operands in order
func C04_BlendDiff3(t *T) {
	f, a, b := t.SDF2("f"), t.SDF3("a"), t.SDF3("b")
	p := t.Vec3("p")
	m := func(x, y float64) float64 { return f.Evaluate(r2.Vec{X: x, Y: y}) }
	s := sdf.Difference3D(a, b)
	s.SetMax(m)
	t.Ensure("difference uses the maximum set", Eq(s.Evaluate(p), m(a.Evaluate(p), -b.Evaluate(p))))
	i := sdf.Intersect3D(a, b)
	i.SetMax(m)
	t.Ensure("intersection uses the maximum set", Eq(i.Evaluate(p), m(a.Evaluate(p), b.Evaluate(p))))
	u := sdf.Union3D(a, b)
	u.SetMin(m)
	t.Ensure("union uses the minimum set", Eq(u.Evaluate(p), m(a.Evaluate(p), b.Evaluate(p))))
}

func C04_BlendDiff2(t *T) {
	f, a, b := t.SDF2("f"), t.SDF2("a"), t.SDF2("b")
	p := t.Vec2("p")
	m := func(x, y float64) float64 { return f.Evaluate(r2.Vec{X: x, Y: y}) }
	s := sdf.Difference2D(a, b)
	s.SetMax(m)
	t.Ensure("difference uses the maximum set", Eq(s.Evaluate(p), m(a.Evaluate(p), -b.Evaluate(p))))
	i := sdf.Intersect2D(a, b)
	i.SetMax(m)
	t.Ensure("intersection uses the maximum set", Eq(i.Evaluate(p), m(a.Evaluate(p), b.Evaluate(p))))
}

func C04_Panics(t *T) {
	a3, a2 := t.SDF3("a3"), t.SDF2("a2")
	t.Ensure("Union3D()", t.Panics(func() { sdf.Union3D() }))
	t.Ensure("Union3D(a)", t.Panics(func() { sdf.Union3D(a3) }))
	t.Ensure("Union3D(a,nil)", t.Panics(func() { sdf.Union3D(a3, nil) }))
	t.Ensure("Union3D(nil,a)", t.Panics(func() { sdf.Union3D(nil, a3) }))
	t.Ensure("Union2D()", t.Panics(func() { sdf.Union2D() }))
	t.Ensure("Union2D(a)", t.Panics(func() { sdf.Union2D(a2) }))
	t.Ensure("Union2D(a,nil)", t.Panics(func() { sdf.Union2D(a2, nil) }))
	t.Ensure("Difference3D(a,nil)", t.Panics(func() { sdf.Difference3D(a3, nil) }))
	t.Ensure("Difference3D(nil,a)", t.Panics(func() { sdf.Difference3D(nil, a3) }))
	t.Ensure("Intersect3D(a,nil)", t.Panics(func() { sdf.Intersect3D(a3, nil) }))
	t.Ensure("Intersect3D(nil,a)", t.Panics(func() { sdf.Intersect3D(nil, a3) }))
	t.Ensure("Difference2D(a,nil)", t.Panics(func() { sdf.Difference2D(a2, nil) }))
	t.Ensure("Difference2D(nil,a)", t.Panics(func() { sdf.Difference2D(nil, a2) }))
	t.Ensure("Intersect2D(a,nil)", t.Panics(func() { sdf.Intersect2D(a2, nil) }))
	t.Ensure("Intersect2D(nil,a)", t.Panics(func() { sdf.Intersect2D(nil, a2) }))
	t.Ensure("Transform3D(nil)", t.Panics(func() { sdf.Transform3D(nil, sdf.MirrorXY()) }))
}

func C04_UnionNilAnywhere(t *T) {
	var ss []sdf.SDF3
	t.Any("s", &ss, "len>=2")
	k := t.Int("k", 0, 1<<30)
	t.Require(k < len(ss))
	ss[k] = nil
	t.Invariant(func(i int) bool { return i <= k })
	t.Ensure("nil operand panics", t.Panics(func() { sdf.Union3D(ss...) }))
}

// the box summary used by the union of 2D objects
func minMaxDist2() Contract {
	return Contract{"C04_V_MinMaxDist2", d2.Box.MinMaxDist2,
		func(b d2.Box, p r2.Vec) bool { return And(b.Min.X <= b.Max.X, b.Min.Y <= b.Max.Y) },
		func(b d2.Box, p, v r2.Vec) bool {
			nx := math.Max(math.Max(b.Min.X-p.X, p.X-b.Max.X), 0)
			ny := math.Max(math.Max(b.Min.Y-p.Y, p.Y-b.Max.Y), 0)
			fx := math.Max(math.Abs(b.Min.X-p.X), math.Abs(p.X-b.Max.X))
			fy := math.Max(math.Abs(b.Min.Y-p.Y), math.Abs(p.Y-b.Max.Y))
			return And(Eq(v.X, nx*nx+ny*ny), Eq(v.Y, fx*fx+fy*fy))
		}}
}
func minMaxOrdered() Contract {
	return Contract{"C04_V_MinMaxOrdered", d2.Box.MinMaxDist2,
		func(b d2.Box, p r2.Vec) bool { return And(b.Min.X <= b.Max.X, b.Min.Y <= b.Max.Y) },
		func(b d2.Box, p, v r2.Vec) bool { return And(v.X >= 0, v.Y >= v.X) }}
}
func C04_V_MinMaxDist2(t *T)   { t.Verify(minMaxDist2()) }
func C04_V_MinMaxOrdered(t *T) { t.Verify(minMaxOrdered()) }

// Operands are at least as far as their box when outside it, and no farther
// than its farthest corner. The two distances are those of MinMaxDist2, which
// C04_V_MinMaxDist2 proves to be exact.
func C04_Union2D(t *T) {
	var ss []sdf.SDF2
	t.Any("s", &ss, "len>=2", "exact")
	p := t.Vec2("p")
	k := t.Int("k", 0, 1<<30)
	t.Require(k < len(ss))
	c := t.Real("c")
	t.Use(minMaxOrdered())
	s := sdf.Union2D(ss...)
	t.AssumeForall(len(ss), func(i int) bool { return c <= ss[i].Evaluate(p) })
	t.AssumeForall(len(ss), func(i int) bool {
		v, e := d2.Box(ss[i].Bounds()).MinMaxDist2(p), ss[i].Evaluate(p)
		return And(Sqrt(v.X) <= math.Max(e, 0)+slack(t), e <= Sqrt(v.Y)+slack(t))
	})
	ek := ss[k].Evaluate(p)
	t.Invariant(func(i int, vs []r2.Vec) bool {
		return Imp(i > k, And(And(vs[k].X >= 0, vs[k].Y >= vs[k].X), Sqrt(vs[k].X) <= math.Max(ek, 0)))
	})
	t.Invariant(func(i, minIndex int, vs []r2.Vec) bool {
		return Imp(i > 0, And(And(vs[minIndex].X >= 0, vs[minIndex].Y >= vs[minIndex].X), ss[minIndex].Evaluate(p) <= Sqrt(vs[minIndex].Y)))
	})
	t.Invariant(func(i, minIndex int, vs []r2.Vec) bool { return Imp(i > k, vs[minIndex].X <= vs[k].X) })
	t.Invariant(func(i, minIndex int, vs []r2.Vec, minDist2 float64) bool {
		return And(Imp(i <= 0, minDist2 < 0), Imp(i > 0, minDist2 == vs[minIndex].X))
	})
	t.Invariant(func(i, minIndex int) bool { return Imp(i > 0, And(0 <= minIndex, minIndex < i)) })
	t.Invariant(func(i, minIndex int, d float64, first bool) bool {
		return Imp(i > minIndex, And(!first, d <= ss[minIndex].Evaluate(p)))
	})
	t.Invariant(func(i, minIndex int, vs []r2.Vec, d float64, first bool) bool {
		return Imp(And(i > k, vs[minIndex].Y >= vs[k].X), And(!first, d <= ek))
	})
	t.Invariant(func(d float64, first bool) bool { return Or(first, c <= d) })
	d := s.Evaluate(p)
	t.Ensure("at most every operand", d <= ek)
	t.Ensure("at least the least operand", c <= d)
}

// rounding slack of the concrete runs
func slack(t *T) float64 {
	if t.Native() {
		return 1e-9
	}
	return 0
}

//go:build verif

package vc

import (
	"github.com/soypat/sdf"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
)

func C02_Difference2D(t *T) {
	a := t.SDF2("a", "sound")
	b := t.SDF2("b")
	p := t.Vec2("p")
	s := sdf.Difference2D(a, b)
	p = t.Seek2(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, s.Bounds())))
}

func C02_Intersect2D(t *T) {
	a := t.SDF2("a", "sound")
	b := t.SDF2("b", "sound")
	p := t.Vec2("p")
	s := sdf.Intersect2D(a, b)
	p = t.Seek2(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, s.Bounds())))
}

func C02_Union2D(t *T) {
	var ss []sdf.SDF2
	t.Any("s", &ss, "sound", "len>=2")
	k := t.Int("k", 0, 1<<30)
	t.Require(k < len(ss))
	t.Invariant(func(i int, bb r2.Box) bool { return Imp(i > k, Contains2(bb, ss[k].Bounds())) })
	s := sdf.Union2D(ss...)
	bb := s.Bounds()
	t.Ensure("bounds contain every operand's", Contains2(bb, ss[k].Bounds()))
}

func C02_Cut2D(t *T) {
	a := t.SDF2("a", "sound")
	p, v := t.Vec2("p"), t.Vec2("v")
	t.Require(v.X*v.X+v.Y*v.Y > 0)
	s := sdf.Cut2D(a, t.Vec2("o"), v)
	p = t.Seek2(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, s.Bounds())))
}

func C02_ScaleUniform2D(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec2("p")
	s := sdf.ScaleUniform2D(a, t.Pos("k"))
	p = t.Seek2(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, s.Bounds())))
}

func C02_Center2D(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec2("p")
	s := sdf.Center2D(a)
	p = t.Seek2(p, s)
	d := s.Evaluate(p)
	b := s.Bounds()
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, b)))
	t.Ensure("bounds are centred", And(Eq(b.Min.X, -b.Max.X), Eq(b.Min.Y, -b.Max.Y)))
}

func C02_CenterAndScale2D(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec2("p")
	s := sdf.CenterAndScale2D(a, t.Pos("k"))
	p = t.Seek2(p, s)
	d := s.Evaluate(p)
	b := s.Bounds()
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, b)))
	t.Ensure("bounds are centred", And(Eq(b.Min.X, -b.Max.X), Eq(b.Min.Y, -b.Max.Y)))
}

func C02_Elongate2D(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec2("p")
	s := sdf.Elongate2D(a, t.Vec2("h"))
	p = t.Seek2(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, s.Bounds())))
}

func C02_Offset2D(t *T) {
	a := t.SDF2("a", "cheb")
	p := t.Vec2("p")
	s := sdf.Offset2D(a, t.NonNeg("k"))
	p = t.Seek2(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, s.Bounds())))
}

func C02_Array2D(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec2("p")
	n := sdf.V2i{t.Int("nx", 1, 1<<20), t.Int("ny", 1, 1<<20)}
	s := sdf.Array2D(a, n, t.Vec2("step"))
	p = t.Seek2(p, s)
	t.Require(!InBox2(p, s.Bounds()))
	t.Invariant(func(i int, d float64) bool { return d > 0 })
	d := s.Evaluate(p)
	t.Ensure("outside the bounds is outside the array", d > 0)
}

func C02_RotateCopy2D(t *T) {
	a := t.SDF2("a", "sound")
	p := t.Vec2("p")
	s := sdf.RotateCopy2D(a, t.Int("n", 1, 1<<20))
	p = t.Seek2(p, s)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, s.Bounds())))
}

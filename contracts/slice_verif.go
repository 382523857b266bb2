//go:build verif

package sdf

import (
	"math"

	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// ---- planar slice of a solid ----

func corner3(b r3.Box, i int) r3.Vec {
	c := b.Min
	if i&1 != 0 {
		c.X = b.Max.X
	}
	if i&2 != 0 {
		c.Y = b.Max.Y
	}
	if i&4 != 0 {
		c.Z = b.Max.Z
	}
	return c
}

// a linear function takes values between those at the corners of a box
func hullLin(u, o r3.Vec, b r3.Box, q r3.Vec, lo, hi float64) bool {
	f := func(x, y, z float64) bool {
		d := dot3(r3.Sub(r3.Vec{X: x, Y: y, Z: z}, o), u)
		return And(lo <= d, d <= hi)
	}
	m, n := b.Min, b.Max
	return Imp(And(InBox3(q, b), And(And(And(f(m.X, m.Y, m.Z), f(n.X, m.Y, m.Z)), And(f(m.X, n.Y, m.Z), f(n.X, n.Y, m.Z))),
		And(And(f(m.X, m.Y, n.Z), f(n.X, m.Y, n.Z)), And(f(m.X, n.Y, n.Z), f(n.X, n.Y, n.Z))))),
		f(q.X, q.Y, q.Z))
}

func slicePlane(t *T) (a SDF3, o, n r3.Vec) {
	a = t.SDF3("a", "sound")
	o, n = t.Vec3("o"), t.Vec3("n")
	if t.Native() {
		if t.Bool("axis") {
			n = []r3.Vec{{X: 1}, {Y: -2}, {Z: 3}, {X: 1, Z: 2}, {Y: 1, Z: 1}, {X: -1, Y: 1}}[t.Int("k", 0, 5)]
		}
		t.Require(math.Abs(n.X)+math.Abs(n.Y) > 1e-2 || n.X == 0 || n.Y == 0)
	}
	t.Require(dot3(n, n) > 0)
	if t.Native() {
		t.Require(dot3(n, n) > 1e-4)
	}
	return
}

func C02_Slice2D(t *T) {
	a, o, n := slicePlane(t)
	p := t.Vec2("p")
	if t.Native() {
		s := Slice2D(a, o, n)
		t.Ensure("solid inside bounds", Imp(s.Evaluate(p) <= 0, InBox2(p, s.Bounds())))
		return
	}
	t.Use(unit3())
	t.Split(n.X == 0)
	t.Split(n.Y == 0)
	t.Split(n.Z == 0)
	s := Slice2D(a, o, n).(*slice2)
	u, v := s.u, s.v
	t.Ensure("orthonormal frame", And(And(Eq(dot3(u, u), 1), Eq(dot3(v, v), 1)), Eq(dot3(u, v), 0)))
	t.Ensure("frame in the plane", And(Eq(dot3(u, n), 0), Eq(dot3(v, n), 0)))
	nn := r3.Unit(n)
	t.Ensure("frame orthogonal to unit normal", And(Eq(dot3(u, nn), 0), Eq(dot3(v, nn), 0)))
	bb, ab := s.Bounds(), a.Bounds()
	for i := 0; i < 8; i++ {
		va := r3.Sub(corner3(ab, i), o)
		pa := r3.Sub(va, r3.Scale(dot3(nn, va), nn))
		t.Ensure("projection", And(Eq(dot3(pa, u), dot3(va, u)), Eq(dot3(pa, v), dot3(va, v))))
		t.Ensure("corner", InBox2(r2.Vec{X: dot3(va, u), Y: dot3(va, v)}, bb))
	}
	q := r3.Add(o, r3.Add(r3.Scale(p.X, u), r3.Scale(p.Y, v)))
	t.Ensure("coordinates", And(Eq(dot3(r3.Sub(q, o), u), p.X), Eq(dot3(r3.Sub(q, o), v), p.Y)))
	t.Lemma("hull", hullLin, u, o, ab, q, bb.Min.X, bb.Max.X)
	t.Lemma("hull", hullLin, v, o, ab, q, bb.Min.Y, bb.Max.Y)
	t.Ensure("solid inside bounds", Imp(s.Evaluate(p) <= 0, InBox2(p, bb)))
}

// the slice is the operand on the plane through o with normal n
func C08_Slice2D(t *T) {
	a, o, n := slicePlane(t)
	p := t.Vec2("p")
	t.Use(unit3())
	t.Split(n.X == 0)
	t.Split(n.Y == 0)
	t.Split(n.Z == 0)
	s := Slice2D(a, o, n).(*slice2)
	t.Ensure("orthonormal frame", And(And(Eq(dot3(s.u, s.u), 1), Eq(dot3(s.v, s.v), 1)), Eq(dot3(s.u, s.v), 0)))
	t.Ensure("frame in the plane", And(Eq(dot3(s.u, n), 0), Eq(dot3(s.v, n), 0)))
	q := r3.Vec{X: o.X + p.X*s.u.X + p.Y*s.v.X, Y: o.Y + p.X*s.u.Y + p.Y*s.v.Y, Z: o.Z + p.X*s.u.Z + p.Y*s.v.Z}
	t.Ensure("value of the operand on the plane", Eq(s.Evaluate(p), a.Evaluate(q)))
}

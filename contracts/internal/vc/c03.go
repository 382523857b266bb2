//go:build verif

package vc

import (
	"math"

	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/must3"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func pos(x float64) float64 { return math.Max(x, 0) }

// exact signed distance of an axis aligned box with half extents h
func boxDist2(p, h r2.Vec) float64 {
	x, y := math.Abs(p.X)-h.X, math.Abs(p.Y)-h.Y
	return Sqrt(pos(x)*pos(x)+pos(y)*pos(y)) + math.Min(math.Max(x, y), 0)
}
func boxDist3(p, h r3.Vec) float64 {
	x, y, z := math.Abs(p.X)-h.X, math.Abs(p.Y)-h.Y, math.Abs(p.Z)-h.Z
	return Sqrt(pos(x)*pos(x)+pos(y)*pos(y)+pos(z)*pos(z)) + math.Min(math.Max(x, math.Max(y, z)), 0)
}

func C03_Box3(t *T) {
	size := t.PosVec3("size")
	round := t.NonNeg("round")
	p := t.Vec3("p")
	t.Require(2*round <= size.X && 2*round <= size.Y && 2*round <= size.Z)
	s := must3.Box(size, round)
	d := s.Evaluate(p)
	h := r3.Vec{X: size.X/2 - round, Y: size.Y/2 - round, Z: size.Z/2 - round}
	t.Ensure("exact distance", Eq(d, boxDist3(p, h)-round))
	t.Ensure("bounds", EqBox3(s.Bounds(), r3.Box{Min: r3.Vec{X: -size.X / 2, Y: -size.Y / 2, Z: -size.Z / 2}, Max: r3.Vec{X: size.X / 2, Y: size.Y / 2, Z: size.Z / 2}}))
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C03_Sphere(t *T) {
	r := t.Pos("r")
	p := t.Vec3("p")
	s := must3.Sphere(r)
	d := s.Evaluate(p)
	t.Ensure("exact distance", Eq(d, Sqrt(p.X*p.X+p.Y*p.Y+p.Z*p.Z)-r))
	t.Ensure("bounds", EqBox3(s.Bounds(), r3.Box{Min: r3.Vec{X: -r, Y: -r, Z: -r}, Max: r3.Vec{X: r, Y: r, Z: r}}))
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C03_Cylinder(t *T) {
	h, r := t.Pos("h"), t.Pos("r")
	round := t.NonNeg("round")
	p := t.Vec3("p")
	t.Require(2*round <= h && round <= r)
	s := must3.Cylinder(h, r, round)
	d := s.Evaluate(p)
	x, y := Sqrt(p.X*p.X+p.Y*p.Y)-(r-round), math.Abs(p.Z)-(h/2-round)
	t.Ensure("exact distance", Eq(d, Sqrt(pos(x)*pos(x)+pos(y)*pos(y))+math.Min(math.Max(x, y), 0)-round))
	t.Ensure("bounds", EqBox3(s.Bounds(), r3.Box{Min: r3.Vec{X: -r, Y: -r, Z: -h / 2}, Max: r3.Vec{X: r, Y: r, Z: h / 2}}))
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}

func C03_Circle(t *T) {
	r := t.NonNeg("r")
	p := t.Vec2("p")
	s := must2.Circle(r)
	d := s.Evaluate(p)
	t.Ensure("exact distance", Eq(d, Sqrt(p.X*p.X+p.Y*p.Y)-r))
	t.Ensure("bounds", EqBox2(s.Bounds(), r2.Box{Min: r2.Vec{X: -r, Y: -r}, Max: r2.Vec{X: r, Y: r}}))
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, s.Bounds())))
}

func C03_Box2(t *T) {
	size := t.PosVec2("size")
	round := t.NonNeg("round")
	p := t.Vec2("p")
	t.Require(2*round <= size.X && 2*round <= size.Y)
	s := must2.Box(size, round)
	d := s.Evaluate(p)
	t.Ensure("exact distance", Eq(d, boxDist2(p, r2.Vec{X: size.X/2 - round, Y: size.Y/2 - round})-round))
	t.Ensure("bounds", EqBox2(s.Bounds(), r2.Box{Min: r2.Vec{X: -size.X / 2, Y: -size.Y / 2}, Max: r2.Vec{X: size.X / 2, Y: size.Y / 2}}))
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, s.Bounds())))
}

func C03_Line2(t *T) {
	l, round := t.NonNeg("l"), t.NonNeg("round")
	p := t.Vec2("p")
	s := must2.Line(l, round)
	d := s.Evaluate(p)
	x := pos(math.Abs(p.X) - l/2)
	t.Ensure("exact distance", Eq(d, Sqrt(x*x+p.Y*p.Y)-round))
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, s.Bounds())))
}

func C03_Cone(t *T) {
	h, r0, r1 := t.Pos("h"), t.NonNeg("r0"), t.NonNeg("r1")
	p := t.Vec3("p")
	s := must3.Cone(h, r0, r1, 0)
	d := s.Evaluate(p)
	q := r2.Vec{X: Sqrt(p.X*p.X + p.Y*p.Y), Y: p.Z}
	in := And(math.Abs(q.Y) <= h/2, (q.X-r0)*h <= (r1-r0)*(q.Y+h/2))
	t.Ensure("solid", Iff(d <= 0, in))
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
	above, below := And(q.Y >= h/2, q.X <= r1), And(q.Y <= -h/2, q.X <= r0)
	t.Ensure("distance to the top face", Imp(above, Eq(d, q.Y-h/2)))
	t.Ensure("distance to the bottom face", Imp(below, Eq(d, -q.Y-h/2)))
	t.Require(And(!above, !below))
	ux, uy := r1-r0, h
	l2 := ux*ux + uy*uy
	c := (q.X-r0)*uy - (q.Y+h/2)*ux // distance to the slope line times its length
	k := (q.X-r0)*ux + (q.Y+h/2)*uy
	t.Ensure("inside: nearest face", Imp(d < 0, Eq(-d*Sqrt(l2), math.Min(-c, (h/2-math.Abs(q.Y))*Sqrt(l2)))))
	t.Ensure("outside: slope", Imp(And(And(d >= 0, k >= 0), k <= l2), And(Eq(d*d*l2, c*c), c >= 0)))
	t.Ensure("outside: base rim", Imp(And(d >= 0, k < 0), Eq(d*d, (q.X-r0)*(q.X-r0)+(q.Y+h/2)*(q.Y+h/2))))
	t.Ensure("outside: top rim", Imp(And(d >= 0, k > l2), Eq(d*d, (q.X-r1)*(q.X-r1)+(q.Y-h/2)*(q.Y-h/2))))
}

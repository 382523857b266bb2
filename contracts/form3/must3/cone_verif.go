//go:build verif

package must3

import (
	. "github.com/soypat/sdf/internal/vspec"
)

// A rounded cone is an unrounded inner cone offset by the rounding radius, whose
// slope is parallel to the slope asked for and the rounding radius inside of it.
func C03_ConeRounded(t *T) {
	h, i0, i1, round := t.Pos("h"), t.NonNeg("i0"), t.NonNeg("i1"), t.Pos("round")
	ux := i1 - i0
	l := Sqrt(ux*ux + h*h)
	f := 1 + 2*round/h
	t.Lemma("similar", func(f, ux, h float64) bool {
		return Imp(f > 0, Eq(Sqrt((f*ux)*(f*ux)+(f*h)*(f*h)), f*Sqrt(ux*ux+h*h)))
	}, f, ux, h)
	r0, r1 := i0+round*(l-ux)/h, i1+round*(l+ux)/h
	s := Cone(h+2*round, r0, r1, round)
	if t.Native() {
		p := t.Vec3("p")
		t.Ensure("offset of the inner cone", Eq(s.Evaluate(p), Cone(h, i0, i1, 0).Evaluate(p)-round))
		return
	}
	t.Ensure("direction of the slope", And(Eq(s.u.X*l, ux), Eq(s.u.Y*l, h)))
	t.Ensure("normal of the slope", And(Eq(s.n.X*l, h), Eq(s.n.Y*l, -ux)))
	t.Ensure("height", Eq(s.height, h/2))
	t.Ensure("base radius", Eq(s.r0, i0))
	t.Ensure("top radius", Eq(s.r1, i1))
	t.Ensure("length of the slope", Eq(s.l, l))
	t.Ensure("rounding", Eq(s.round, round))
}

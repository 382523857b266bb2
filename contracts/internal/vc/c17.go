//go:build verif

package vc

import (
	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/internal/d2"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
)

// the checking constructor gives what the other gives, or an error and nothing where that panics
func mirror3(t *T, bad bool, safe func() (sdf.SDF3, error), must func() sdf.SDF3) {
	p := t.Vec3("p")
	var s sdf.SDF3
	var err error
	t.Ensure("never panics", !t.Panics(func() { s, err = safe() }))
	if bad {
		t.Ensure("invalid: error and no shape", err != nil && s == nil)
		t.Ensure("invalid: the must form panics", t.Panics(func() { must() }))
		return
	}
	var m sdf.SDF3
	t.Ensure("valid: the must form does not panic", !t.Panics(func() { m = must() }))
	t.Ensure("valid: a shape and no error", err == nil && s != nil)
	t.Ensure("same distances", Eq(s.Evaluate(p), m.Evaluate(p)))
	t.Ensure("same bounds", EqV3(s.Bounds().Min, m.Bounds().Min) && EqV3(s.Bounds().Max, m.Bounds().Max))
}

func mirror2(t *T, bad bool, safe func() (sdf.SDF2, error), must func() sdf.SDF2) {
	p := t.Vec2("p")
	var s sdf.SDF2
	var err error
	t.Ensure("never panics", !t.Panics(func() { s, err = safe() }))
	if bad {
		t.Ensure("invalid: error and no shape", err != nil && s == nil)
		t.Ensure("invalid: the must form panics", t.Panics(func() { must() }))
		return
	}
	var m sdf.SDF2
	t.Ensure("valid: the must form does not panic", !t.Panics(func() { m = must() }))
	t.Ensure("valid: a shape and no error", err == nil && s != nil)
	t.Ensure("same distances", Eq(s.Evaluate(p), m.Evaluate(p)))
	t.Ensure("same bounds", EqV2(s.Bounds().Min, m.Bounds().Min) && EqV2(s.Bounds().Max, m.Bounds().Max))
}

func C17_Box3(t *T) {
	size, round := t.Vec3("size"), t.Real("round")
	mirror3(t, size.X <= 0 || size.Y <= 0 || size.Z <= 0 || round < 0,
		func() (sdf.SDF3, error) { return form3.Box(size, round) },
		func() sdf.SDF3 { return must3.Box(size, round) })
}

func C17_Sphere(t *T) {
	r := t.Real("radius")
	mirror3(t, r <= 0,
		func() (sdf.SDF3, error) { return form3.Sphere(r) },
		func() sdf.SDF3 { return must3.Sphere(r) })
}

func C17_Cylinder(t *T) {
	h, r, round := t.Real("height"), t.Real("radius"), t.Real("round")
	mirror3(t, r <= 0 || round < 0 || round > r || h < 2*round,
		func() (sdf.SDF3, error) { return form3.Cylinder(h, r, round) },
		func() sdf.SDF3 { return must3.Cylinder(h, r, round) })
}

func C17_Capsule(t *T) {
	h, r := t.Real("height"), t.Real("radius")
	mirror3(t, r <= 0 || h < 2*r,
		func() (sdf.SDF3, error) { return form3.Capsule(h, r) },
		func() sdf.SDF3 { return must3.Cylinder(h, r, r) })
}

func C17_Cone(t *T) {
	h, r0, r1, round := t.Real("height"), t.Real("r0"), t.Real("r1"), t.Real("round")
	mirror3(t, h <= 0 || round < 0 || h < 2*round,
		func() (sdf.SDF3, error) { return form3.Cone(h, r0, r1, round) },
		func() sdf.SDF3 { return must3.Cone(h, r0, r1, round) })
}

func C17_Circle(t *T) {
	r := t.Real("radius")
	mirror2(t, r < 0,
		func() (sdf.SDF2, error) { return form2.Circle(r) },
		func() sdf.SDF2 { return must2.Circle(r) })
}

func C17_Box2(t *T) {
	size, round := t.Vec2("size"), t.Real("round")
	mirror2(t, false,
		func() (sdf.SDF2, error) { return form2.Box(size, round) },
		func() sdf.SDF2 { return must2.Box(size, round) })
}

func C17_Line(t *T) {
	l, round := t.Real("l"), t.Real("round")
	mirror2(t, false,
		func() (sdf.SDF2, error) { return form2.Line(l, round) },
		func() sdf.SDF2 { return must2.Line(l, round) })
}

func C17_PolygonErrors(t *T) {
	n := t.Int("n", 0, 2)
	v := make([]r2.Vec, n)
	if n > 0 {
		v[0] = t.Vec2("v")
	}
	if n > 1 {
		v[1] = t.Vec2("v")
	}
	mirror2(t, true,
		func() (sdf.SDF2, error) { return form2.Polygon(v) },
		func() sdf.SDF2 { return must2.Polygon(v) })
}

// of any number of vertices; C15 proves that must2.Polygon accepts three or more
func C17_Polygon(t *T) {
	if t.Native() {
		v := make([]r2.Vec, t.Int("n", 3, 9))
		for i := range v {
			v[i] = t.Vec2("v")
		}
		mirror2(t, false,
			func() (sdf.SDF2, error) { return form2.Polygon(v) },
			func() sdf.SDF2 { return must2.Polygon(v) })
		return
	}
	n := t.Int("n", 3, 1<<20)
	v := make([]r2.Vec, n)
	k := t.Index("k", n)
	v[k] = t.Vec2("v")
	shape, vs := anyPolygonShape(t, "shape")
	s, err := form2.Polygon(v)
	t.Ensure("a shape and no error", err == nil && s != nil)
	p := t.Vec2("p")
	t.Ensure("same distances", Eq(s.Evaluate(p), (*shape).Evaluate(p)))
	t.Ensure("of the same vertices", len(*vs) == n && EqV2((*vs)[k], v[k]))
}

func C17_Nagon(t *T) {
	n, r := t.Int("n", -1<<30, 2), t.Real("radius")
	s, err := form2.Nagon(n, r)
	t.Ensure("no vertices, no error", len(s) == 0 && err == nil)
	t.Ensure("must", len(must2.Nagon(n, r)) == 0)
}

// C15 proves what must2.Nagon gives for three or more
func C17_NagonValid(t *T) {
	n, r := t.Int("n", 3, 1<<20), t.Real("radius")
	if t.Native() {
		n = t.Int("n", 3, 40)
	}
	var want d2.Set
	if t.Native() {
		want = must2.Nagon(n, r)
	} else {
		want = make(d2.Set, n)
		t.Replace(must2.Nagon, func(m int, q float64) d2.Set {
			t.Have("same arguments", m == n && q == r)
			return want
		}, "C15_Nagon")
	}
	k := t.Index("k", n)
	s, err := form2.Nagon(n, r)
	t.Ensure("vertices and no error", len(s) == n && err == nil)
	t.Ensure("the same", EqV2(s[k], want[k]))
}

func C17_ChamferedCylinder(t *T) {
	var s sdf.SDF3
	var err error
	t.Ensure("never panics", !t.Panics(func() { s, err = form3.ChamferedCylinder(nil, 0.1, 0.1) }))
	t.Ensure("no operand: error and no shape", err != nil && s == nil)
}

//go:build verif

package sdf

import (
	"github.com/soypat/sdf/internal/d3"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r3"
	"math"
)

func dot3(a, b r3.Vec) float64 { return a.X*b.X + a.Y*b.Y + a.Z*b.Z }

// apart: a and b are directions that the routine does not treat as equal
func apart(a, b r3.Vec, e float64) bool {
	d := r3.Sub(a, b)
	return Or(Or(d.X > e, d.X < -e), Or(Or(d.Y > e, d.Y < -e), Or(d.Z > e, d.Z < -e)))
}
func isRotation(m m44) bool {
	x, y, z := r3.Vec{X: m.x00, Y: m.x10, Z: m.x20}, r3.Vec{X: m.x01, Y: m.x11, Z: m.x21}, r3.Vec{X: m.x02, Y: m.x12, Z: m.x22}
	return And(And(And(Eq(dot3(x, x), 1), Eq(dot3(y, y), 1)), And(Eq(dot3(z, z), 1), Eq(det3of44(m), 1))),
		And(And(And(Eq(dot3(x, y), 0), Eq(dot3(x, z), 0)), Eq(dot3(y, z), 0)), And(affine44(m), And(And(m.x03 == 0, m.x13 == 0), m.x23 == 0))))
}

// the unit vector routine gives a vector of length one along its argument
func unit3() Contract {
	return Contract{"C06_V_Unit", r3.Unit,
		func(a r3.Vec) bool { return dot3(a, a) > 0 },
		func(a, u r3.Vec) bool {
			n := Sqrt(dot3(a, a))
			return And(Eq(dot3(u, u), 1), EqV3(a, r3.Scale(n, u)))
		}}
}
func C06_V_Unit(t *T) { t.Verify(unit3()) }

// lemma: directions that are not opposite
func notOpposite(t *T, ua, ub r3.Vec) {
	t.Require(apart(r3.Scale(-1, ua), ub, 1e-3))
	w := r3.Add(ua, ub)
	t.Ensure("length of the sum", Eq(dot3(w, w), 2+2*dot3(ua, ub)))
	t.Ensure("the sum is not zero", dot3(w, w) > 0)
}

func C06_OrientGeneral(t *T) {
	a, b := t.Vec3("a"), t.Vec3("b")
	t.Require(dot3(a, a) > 1e-4)
	t.Require(dot3(b, b) > 1e-4)
	t.Use(unit3())
	ua, ub := r3.Unit(a), r3.Unit(b)
	t.Require(apart(ua, ub, 1e-3))
	notOpposite(t, ua, ub)
	t.Ensure("not zero", And(!d3.EqualWithin(a, r3.Vec{}, epsilon), !d3.EqualWithin(b, r3.Vec{}, epsilon)))
	t.Ensure("not equal", !d3.EqualWithin(ua, ub, epsilon))
	t.Ensure("not opposite", !d3.EqualWithin(r3.Scale(-1, ua), ub, epsilon))
	m := rotateToVec(a, b)
	t.Ensure("maps the first direction to the second", EqV3(m.MulPosition(ua), ub))
	t.Ensure("is a rotation", isRotation(m))
}
func C06_OrientOpposite(t *T) {
	a := t.Vec3("a")
	k := t.Pos("k")
	t.Require(dot3(a, a) > 1e-4)
	t.Require(k*k*dot3(a, a) > 1e-4)
	t.Use(unit3())
	b := r3.Scale(-k, a)
	ua, ub := r3.Unit(a), r3.Unit(b)
	t.Ensure("opposite unit vectors", EqV3(ub, r3.Scale(-1, ua)))
	t.Split(math.Abs(ua.Z) > 0.5)
	t.Ensure("not zero", And(!d3.EqualWithin(a, r3.Vec{}, epsilon), !d3.EqualWithin(b, r3.Vec{}, epsilon)))
	t.Ensure("not equal", !d3.EqualWithin(ua, ub, epsilon))
	m := rotateToVec(a, b)
	t.Ensure("reverses the direction", EqV3(m.MulPosition(ua), ub))
	t.Ensure("is a rotation", isRotation(m))
}
func C06_OrientSame(t *T) {
	a := t.Vec3("a")
	k := t.Pos("k")
	t.Require(dot3(a, a) > 1e-4)
	t.Require(k*k*dot3(a, a) > 1e-4)
	m := rotateToVec(a, r3.Scale(k, a))
	t.Ensure("keeps the direction", EqV3(m.MulPosition(a), a))
	t.Ensure("is a rotation", isRotation(m))
}

// copies turned from the base to each listed direction (bounded: up to three)
func orient(t *T, n int) {
	t.Bounded("number of directions: 1 to 3")
	a := t.SDF3("a")
	p, base := t.Vec3("p"), t.Vec3("base")
	var dirs d3.Set
	var want float64
	t.Use(inverse44())
	t.Use(orientation())
	for i := 0; i < n; i++ {
		d := t.Vec3("dir")
		m := rotateToVec(base, d)
		t.Require(And(affine44(m), Eq(det3of44(m), 1))) // it is a rotation: C06_Orient*
		dirs = append(dirs, d)
		e := a.Evaluate(m.Inverse().MulPosition(p))
		if i == 0 {
			want = e
		} else {
			want = math.Min(want, e)
		}
	}
	t.Ensure("least of the turned copies", Eq(Orient3D(a, base, dirs).Evaluate(p), want))
}

// rotateToVec as a pure function (what it returns: C06_Orient*)
func orientation() Contract { return Contract{"C06_OrientGeneral", rotateToVec, nil, nil} }
func C07_Orient3D1(t *T)    { orient(t, 1) }
func C07_Orient3D2(t *T)    { orient(t, 2) }
func C07_Orient3D3(t *T)    { orient(t, 3) }

//go:build verif

package sdf

import (
	"math"

	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// ---- contracts of the matrix routines ----

func affine44(a m44) bool {
	return And(And(Eq(a.x30, 0), Eq(a.x31, 0)), And(Eq(a.x32, 0), Eq(a.x33, 1)))
}
func affine33(a m33) bool {
	return And(And(Eq(a.x20, 0), Eq(a.x21, 0)), Eq(a.x22, 1))
}
func anyAffine44(t *T, n string) m44 {
	return m44{
		t.Real(n + ".x00"), t.Real(n + ".x01"), t.Real(n + ".x02"), t.Real(n + ".x03"),
		t.Real(n + ".x10"), t.Real(n + ".x11"), t.Real(n + ".x12"), t.Real(n + ".x13"),
		t.Real(n + ".x20"), t.Real(n + ".x21"), t.Real(n + ".x22"), t.Real(n + ".x23"),
		0, 0, 0, 1}
}
func anyAffine33(t *T, n string) m33 {
	return m33{
		t.Real(n + ".x00"), t.Real(n + ".x01"), t.Real(n + ".x02"),
		t.Real(n + ".x10"), t.Real(n + ".x11"), t.Real(n + ".x12"),
		0, 0, 1}
}
func det3of44(a m44) float64 {
	return a.x00*(a.x11*a.x22-a.x12*a.x21) - a.x01*(a.x10*a.x22-a.x12*a.x20) + a.x02*(a.x10*a.x21-a.x11*a.x20)
}
func mulIsIdentity44(a, b m44) bool {
	r := func(x, y, z, d float64) bool { return Eq(x+y+z, d) }
	return And(And(And(And(
		And(And(r(a.x00*b.x00, a.x01*b.x10, a.x02*b.x20, 1), r(a.x00*b.x01, a.x01*b.x11, a.x02*b.x21, 0)), r(a.x00*b.x02, a.x01*b.x12, a.x02*b.x22, 0)),
		And(And(r(a.x10*b.x00, a.x11*b.x10, a.x12*b.x20, 0), r(a.x10*b.x01, a.x11*b.x11, a.x12*b.x21, 1)), r(a.x10*b.x02, a.x11*b.x12, a.x12*b.x22, 0))),
		And(And(r(a.x20*b.x00, a.x21*b.x10, a.x22*b.x20, 0), r(a.x20*b.x01, a.x21*b.x11, a.x22*b.x21, 0)), r(a.x20*b.x02, a.x21*b.x12, a.x22*b.x22, 1))),
		And(And(r(a.x00*b.x03, a.x01*b.x13, a.x02*b.x23, -a.x03), r(a.x10*b.x03, a.x11*b.x13, a.x12*b.x23, -a.x13)), r(a.x20*b.x03, a.x21*b.x13, a.x22*b.x23, -a.x23))),
		affine44(b))
}
func mulIsIdentity33(a, b m33) bool {
	r := func(x, y, d float64) bool { return Eq(x+y, d) }
	return And(And(And(
		And(r(a.x00*b.x00, a.x01*b.x10, 1), r(a.x00*b.x01, a.x01*b.x11, 0)),
		And(r(a.x10*b.x00, a.x11*b.x10, 0), r(a.x10*b.x01, a.x11*b.x11, 1))),
		And(r(a.x00*b.x02, a.x01*b.x12, -a.x02), r(a.x10*b.x02, a.x11*b.x12, -a.x12))),
		affine33(b))
}

func inverse44() Contract {
	return Contract{"C05_V_Inverse44", m44.Inverse,
		func(a m44) bool { return And(affine44(a), det3of44(a) != 0) },
		func(a, b m44) bool { return And(mulIsIdentity44(a, b), mulIsIdentity44(b, a)) }}
}
func inverse33() Contract {
	return Contract{"C05_V_Inverse33", m33.Inverse,
		func(a m33) bool { return And(affine33(a), a.x00*a.x11-a.x01*a.x10 != 0) },
		func(a, b m33) bool { return And(mulIsIdentity33(a, b), mulIsIdentity33(b, a)) }}
}

func C05_V_Inverse44(t *T) { t.Verify(inverse44()) }
func C05_V_Inverse33(t *T) { t.Verify(inverse33()) }

func imageBox44(m m44, b r3.Box, p r3.Vec) bool {
	return Imp(InBox3(p, b), InBox3(m.MulPosition(p), m.MulBox(b)))
}
func imageBox33(m m33, b r2.Box, p r2.Vec) bool {
	return Imp(InBox2(p, b), InBox2(m.MulPosition(p), m.MulBox(b)))
}
func C05_MulBox44(t *T) {
	t.Ensure("the image of a point of the box is in the image box", imageBox44(anyAffine44(t, "m"), t.Box3("b"), t.Vec3("p")))
}
func C05_MulBox33(t *T) {
	t.Ensure("the image of a point of the box is in the image box", imageBox33(anyAffine33(t, "m"), t.Box2("b"), t.Vec2("p")))
}

var _ = r2.Vec{}
var _ = r3.Vec{}

func C01_Transform3D(t *T) {
	a := t.SDF3("a", "sound")
	m := anyAffine44(t, "m")
	t.Require(det3of44(m) != 0)
	p := t.Vec3("p")
	q := m.Inverse().MulPosition(p)
	t.Ensure("inverse point maps back", EqV3(m.MulPosition(q), p))
	t.Lemma("image box", imageBox44, m, a.Bounds(), q)
	s := Transform3D(a, m)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox3(p, s.Bounds())))
}
func C02_Transform2D(t *T) {
	a := t.SDF2("a", "sound")
	m := anyAffine33(t, "m")
	t.Require(m.x00*m.x11-m.x01*m.x10 != 0)
	p := t.Vec2("p")
	q := m.Inverse().MulPosition(p)
	t.Ensure("inverse point maps back", EqV2(m.MulPosition(q), p))
	t.Lemma("image box", imageBox33, m, a.Bounds(), q)
	s := Transform2D(a, m)
	d := s.Evaluate(p)
	t.Ensure("solid inside bounds", Imp(d <= 0, InBox2(p, s.Bounds())))
}

// ---- C05: matrix algebra over all matrices ----

func any44(t *T, n string) (m m44) { t.Any(n, &m); return }
func any33(t *T, n string) (m m33) { t.Any(n, &m); return }
func any22(t *T, n string) (m m22) { t.Any(n, &m); return }

func eq44(a, b m44) bool {
	return And(And(And(
		And(And(Eq(a.x00, b.x00), Eq(a.x01, b.x01)), And(Eq(a.x02, b.x02), Eq(a.x03, b.x03))),
		And(And(Eq(a.x10, b.x10), Eq(a.x11, b.x11)), And(Eq(a.x12, b.x12), Eq(a.x13, b.x13)))),
		And(And(Eq(a.x20, b.x20), Eq(a.x21, b.x21)), And(Eq(a.x22, b.x22), Eq(a.x23, b.x23)))),
		And(And(Eq(a.x30, b.x30), Eq(a.x31, b.x31)), And(Eq(a.x32, b.x32), Eq(a.x33, b.x33))))
}
func eq33(a, b m33) bool {
	return And(And(
		And(And(Eq(a.x00, b.x00), Eq(a.x01, b.x01)), Eq(a.x02, b.x02)),
		And(And(Eq(a.x10, b.x10), Eq(a.x11, b.x11)), Eq(a.x12, b.x12))),
		And(And(Eq(a.x20, b.x20), Eq(a.x21, b.x21)), Eq(a.x22, b.x22)))
}
func eq22(a, b m22) bool {
	return And(And(Eq(a.x00, b.x00), Eq(a.x01, b.x01)), And(Eq(a.x10, b.x10), Eq(a.x11, b.x11)))
}
func det33(a m33) float64 {
	return a.x00*(a.x11*a.x22-a.x12*a.x21) - a.x01*(a.x10*a.x22-a.x12*a.x20) + a.x02*(a.x10*a.x21-a.x11*a.x20)
}

// Laplace expansion along the first row
func det44(a m44) float64 {
	return a.x00*det33(m33{a.x11, a.x12, a.x13, a.x21, a.x22, a.x23, a.x31, a.x32, a.x33}) -
		a.x01*det33(m33{a.x10, a.x12, a.x13, a.x20, a.x22, a.x23, a.x30, a.x32, a.x33}) +
		a.x02*det33(m33{a.x10, a.x11, a.x13, a.x20, a.x21, a.x23, a.x30, a.x31, a.x33}) -
		a.x03*det33(m33{a.x10, a.x11, a.x12, a.x20, a.x21, a.x22, a.x30, a.x31, a.x32})
}
func mul44(a, b m44) (m m44) {
	d := func(p, q, r, s, i, j, k, l float64) float64 { return p*i + q*j + r*k + s*l }
	return m44{
		d(a.x00, a.x01, a.x02, a.x03, b.x00, b.x10, b.x20, b.x30), d(a.x00, a.x01, a.x02, a.x03, b.x01, b.x11, b.x21, b.x31), d(a.x00, a.x01, a.x02, a.x03, b.x02, b.x12, b.x22, b.x32), d(a.x00, a.x01, a.x02, a.x03, b.x03, b.x13, b.x23, b.x33),
		d(a.x10, a.x11, a.x12, a.x13, b.x00, b.x10, b.x20, b.x30), d(a.x10, a.x11, a.x12, a.x13, b.x01, b.x11, b.x21, b.x31), d(a.x10, a.x11, a.x12, a.x13, b.x02, b.x12, b.x22, b.x32), d(a.x10, a.x11, a.x12, a.x13, b.x03, b.x13, b.x23, b.x33),
		d(a.x20, a.x21, a.x22, a.x23, b.x00, b.x10, b.x20, b.x30), d(a.x20, a.x21, a.x22, a.x23, b.x01, b.x11, b.x21, b.x31), d(a.x20, a.x21, a.x22, a.x23, b.x02, b.x12, b.x22, b.x32), d(a.x20, a.x21, a.x22, a.x23, b.x03, b.x13, b.x23, b.x33),
		d(a.x30, a.x31, a.x32, a.x33, b.x00, b.x10, b.x20, b.x30), d(a.x30, a.x31, a.x32, a.x33, b.x01, b.x11, b.x21, b.x31), d(a.x30, a.x31, a.x32, a.x33, b.x02, b.x12, b.x22, b.x32), d(a.x30, a.x31, a.x32, a.x33, b.x03, b.x13, b.x23, b.x33)}
}
func mul33(a, b m33) (m m33) {
	d := func(p, q, r, i, j, k float64) float64 { return p*i + q*j + r*k }
	return m33{
		d(a.x00, a.x01, a.x02, b.x00, b.x10, b.x20), d(a.x00, a.x01, a.x02, b.x01, b.x11, b.x21), d(a.x00, a.x01, a.x02, b.x02, b.x12, b.x22),
		d(a.x10, a.x11, a.x12, b.x00, b.x10, b.x20), d(a.x10, a.x11, a.x12, b.x01, b.x11, b.x21), d(a.x10, a.x11, a.x12, b.x02, b.x12, b.x22),
		d(a.x20, a.x21, a.x22, b.x00, b.x10, b.x20), d(a.x20, a.x21, a.x22, b.x01, b.x11, b.x21), d(a.x20, a.x21, a.x22, b.x02, b.x12, b.x22)}
}

func C05_Mul44(t *T) {
	a, b := any44(t, "a"), any44(t, "b")
	t.Ensure("rows by columns", eq44(a.Mul(b), mul44(a, b)))
}
func C05_Mul33(t *T) {
	a, b := any33(t, "a"), any33(t, "b")
	t.Ensure("rows by columns", eq33(a.Mul(b), mul33(a, b)))
	k := t.Real("k")
	s, c := a.Add(b), a.MulScalar(k)
	t.Ensure("sum", eq33(s, m33{a.x00 + b.x00, a.x01 + b.x01, a.x02 + b.x02, a.x10 + b.x10, a.x11 + b.x11, a.x12 + b.x12, a.x20 + b.x20, a.x21 + b.x21, a.x22 + b.x22}))
	t.Ensure("scalar multiple", eq33(c, m33{k * a.x00, k * a.x01, k * a.x02, k * a.x10, k * a.x11, k * a.x12, k * a.x20, k * a.x21, k * a.x22}))
}
func C05_Mul22(t *T) {
	a, b := any22(t, "a"), any22(t, "b")
	t.Ensure("rows by columns", eq22(a.Mul(b), m22{a.x00*b.x00 + a.x01*b.x10, a.x00*b.x01 + a.x01*b.x11, a.x10*b.x00 + a.x11*b.x10, a.x10*b.x01 + a.x11*b.x11}))
}
func C05_Determinant(t *T) {
	a, b, c := any44(t, "a"), any33(t, "b"), any22(t, "c")
	t.Ensure("4x4", Eq(a.Determinant(), det44(a)))
	t.Ensure("3x3", Eq(b.Determinant(), det33(b)))
	t.Ensure("2x2", Eq(c.Determinant(), c.x00*c.x11-c.x01*c.x10))
}
func C05_Inverse44(t *T) {
	a := any44(t, "a")
	d := det44(a)
	t.Require(d != 0)
	t.Require(!t.Native() || d > 0.2 || d < -0.2)
	b := a.Inverse()
	t.Ensure("right inverse", eq44(mul44(a, b), identity3d()))
	t.Ensure("left inverse", eq44(mul44(b, a), identity3d()))
}
func C05_Inverse33(t *T) {
	a := any33(t, "a")
	d := det33(a)
	t.Require(d != 0)
	t.Require(!t.Native() || d > 0.2 || d < -0.2)
	b := a.Inverse()
	t.Ensure("right inverse", eq33(mul33(a, b), identity2d()))
	t.Ensure("left inverse", eq33(mul33(b, a), identity2d()))
}
func C05_Inverse22(t *T) {
	a := any22(t, "a")
	d := a.x00*a.x11 - a.x01*a.x10
	t.Require(d != 0)
	t.Require(!t.Native() || d > 0.2 || d < -0.2)
	b := a.Inverse()
	t.Ensure("right inverse", eq22(a.Mul(b), identity()))
	t.Ensure("left inverse", eq22(b.Mul(a), identity()))
}
func C05_Identity(t *T) {
	t.Ensure("4x4", eq44(identity3d(), m44{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}))
	t.Ensure("3x3", eq33(identity2d(), m33{1, 0, 0, 0, 1, 0, 0, 0, 1}))
	t.Ensure("2x2", eq22(identity(), m22{1, 0, 0, 1}))
}

// applying a product is applying the factors in turn
func C05_Compose(t *T) {
	a, b := anyAffine44(t, "a"), anyAffine44(t, "b")
	p := t.Vec3("p")
	t.Ensure("3d", EqV3(a.Mul(b).MulPosition(p), a.MulPosition(b.MulPosition(p))))
	c, d := anyAffine33(t, "c"), anyAffine33(t, "d")
	q := t.Vec2("q")
	t.Ensure("2d", EqV2(c.Mul(d).MulPosition(q), c.MulPosition(d.MulPosition(q))))
	e := any22(t, "e")
	t.Ensure("2x2", EqV2(e.MulPosition(q), r2.Vec{X: e.x00*q.X + e.x01*q.Y, Y: e.x10*q.X + e.x11*q.Y}))
}
func C05_MulVertices(t *T) {
	v := make([]r3.Vec, 3)
	v[0], v[1], v[2] = t.Vec3("p"), t.Vec3("q"), t.Vec3("r")
	w := []r3.Vec{v[0], v[1], v[2]}
	m := anyAffine44(t, "m")
	mulVertices3(v, m)
	t.Ensure("3d", And(And(EqV3(v[0], m.MulPosition(w[0])), EqV3(v[1], m.MulPosition(w[1]))), EqV3(v[2], m.MulPosition(w[2]))))
	x := []r2.Vec{t.Vec2("x"), t.Vec2("y")}
	y := []r2.Vec{x[0], x[1]}
	n := anyAffine33(t, "n")
	mulVertices2(x, n)
	t.Ensure("2d", And(EqV2(x[0], n.MulPosition(y[0])), EqV2(x[1], n.MulPosition(y[1]))))
}

// ---- C06: the named transforms ----

func C06_Translate(t *T) {
	v, p := t.Vec3("v"), t.Vec3("p")
	t.Ensure("3d", EqV3(Translate3D(v).MulPosition(p), r3.Add(p, v)))
	w, q := t.Vec2("w"), t.Vec2("q")
	t.Ensure("2d", EqV2(Translate2D(w).MulPosition(q), r2.Add(q, w)))
}
func C06_Scale(t *T) {
	v, p := t.Vec3("v"), t.Vec3("p")
	t.Ensure("3d", EqV3(Scale3D(v).MulPosition(p), r3.Vec{X: v.X * p.X, Y: v.Y * p.Y, Z: v.Z * p.Z}))
	w, q := t.Vec2("w"), t.Vec2("q")
	t.Ensure("2d", EqV2(Scale2D(w).MulPosition(q), r2.Vec{X: w.X * q.X, Y: w.Y * q.Y}))
}
func C06_Mirror(t *T) {
	p, q := t.Vec3("p"), t.Vec2("q")
	t.Ensure("XY", EqV3(MirrorXY().MulPosition(p), r3.Vec{X: p.X, Y: p.Y, Z: -p.Z}))
	t.Ensure("XZ", EqV3(MirrorXZ().MulPosition(p), r3.Vec{X: p.X, Y: -p.Y, Z: p.Z}))
	t.Ensure("YZ", EqV3(MirrorYZ().MulPosition(p), r3.Vec{X: -p.X, Y: p.Y, Z: p.Z}))
	t.Ensure("X=Y", EqV3(MirrorXeqY().MulPosition(p), r3.Vec{X: p.Y, Y: p.X, Z: p.Z}))
	t.Ensure("X", EqV2(MirrorX().MulPosition(q), r2.Vec{X: q.X, Y: -q.Y}))
	t.Ensure("Y", EqV2(MirrorY().MulPosition(q), r2.Vec{X: -q.X, Y: q.Y}))
}
func C06_Rotate2D(t *T) {
	a := t.Real("a")
	q := t.Vec2("q")
	s, c := math.Sin(a), math.Cos(a)
	want := r2.Vec{X: c*q.X - s*q.Y, Y: s*q.X + c*q.Y}
	t.Ensure("counter-clockwise", EqV2(Rotate2D(a).MulPosition(q), want))
	t.Ensure("2x2", EqV2(Rotate(a).MulPosition(q), want))
}

// Rodrigues' formula
func C06_Rotate3D(t *T) {
	a := t.Real("a")
	v, p := t.Vec3("v"), t.Vec3("p")
	l2 := v.X*v.X + v.Y*v.Y + v.Z*v.Z
	t.Require(l2 > 0)
	t.Require(!t.Native() || l2 > 1e-6)
	u := r3.Scale(1/Sqrt(l2), v)
	s, c := math.Sin(a), math.Cos(a)
	x := r3.Vec{X: u.Y*p.Z - u.Z*p.Y, Y: u.Z*p.X - u.X*p.Z, Z: u.X*p.Y - u.Y*p.X}
	k := (u.X*p.X + u.Y*p.Y + u.Z*p.Z) * (1 - c)
	want := r3.Vec{X: c*p.X + s*x.X + k*u.X, Y: c*p.Y + s*x.Y + k*u.Y, Z: c*p.Z + s*x.Z + k*u.Z}
	t.Ensure("right hand rule about the axis", EqV3(Rotate3D(v, a).MulPosition(p), want))
}
func C06_RotateAxes(t *T) {
	a := t.Real("a")
	p := t.Vec3("p")
	s, c := math.Sin(a), math.Cos(a)
	t.Ensure("X", EqV3(RotateX(a).MulPosition(p), r3.Vec{X: p.X, Y: c*p.Y - s*p.Z, Z: s*p.Y + c*p.Z}))
	t.Ensure("Y", EqV3(RotateY(a).MulPosition(p), r3.Vec{X: c*p.X + s*p.Z, Y: p.Y, Z: c*p.Z - s*p.X}))
	t.Ensure("Z", EqV3(RotateZ(a).MulPosition(p), r3.Vec{X: c*p.X - s*p.Y, Y: s*p.X + c*p.Y, Z: p.Z}))
}

// a transformed shape has at p the value of the shape at the preimage of p
func C06_Transform3D(t *T) {
	a := t.SDF3("a")
	m := anyAffine44(t, "m")
	d := det3of44(m)
	t.Require(d != 0)
	t.Require(!t.Native() || d > 0.2 || d < -0.2)
	p := t.Vec3("p")
	q := m.Inverse().MulPosition(p)
	t.Ensure("inverse point maps back", EqV3(m.MulPosition(q), p))
	t.Ensure("value at the preimage", Eq(Transform3D(a, m).Evaluate(p), a.Evaluate(q)))
}
func C06_Transform2D(t *T) {
	a := t.SDF2("a")
	m := anyAffine33(t, "m")
	d := m.x00*m.x11 - m.x01*m.x10
	t.Require(d != 0)
	t.Require(!t.Native() || d > 0.2 || d < -0.2)
	p := t.Vec2("p")
	q := m.Inverse().MulPosition(p)
	t.Ensure("inverse point maps back", EqV2(m.MulPosition(q), p))
	t.Ensure("value at the preimage", Eq(Transform2D(a, m).Evaluate(p), a.Evaluate(q)))
}
func C06_ScaleUniform3D(t *T) {
	a := t.SDF3("a")
	k := t.Pos("k")
	q := t.Vec3("q")
	t.Ensure("distances scale with the shape", Eq(ScaleUniform3D(a, k).Evaluate(r3.Scale(k, q)), k*a.Evaluate(q)))
}
func C06_ScaleUniform2D(t *T) {
	a := t.SDF2("a")
	k := t.Pos("k")
	q := t.Vec2("q")
	t.Ensure("distances scale with the shape", Eq(ScaleUniform2D(a, k).Evaluate(r2.Scale(k, q)), k*a.Evaluate(q)))
}

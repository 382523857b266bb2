//go:build verif

package sdf

import (
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// rigid: the linear part keeps lengths (a rotation, or a rotation and a mirror)
func rigid44(m m44) bool {
	x, y, z := r3.Vec{X: m.x00, Y: m.x10, Z: m.x20}, r3.Vec{X: m.x01, Y: m.x11, Z: m.x21}, r3.Vec{X: m.x02, Y: m.x12, Z: m.x22}
	return And(And(And(Eq(dot3(x, x), 1), Eq(dot3(y, y), 1)), Eq(dot3(z, z), 1)),
		And(And(Eq(dot3(x, y), 0), Eq(dot3(x, z), 0)), Eq(dot3(y, z), 0)))
}
func col44(m m44) (x, y, z r3.Vec) {
	return r3.Vec{X: m.x00, Y: m.x10, Z: m.x20}, r3.Vec{X: m.x01, Y: m.x11, Z: m.x21}, r3.Vec{X: m.x02, Y: m.x12, Z: m.x22}
}
func lin44(m m44, v r3.Vec) r3.Vec {
	return r3.Vec{X: m.x00*v.X + m.x01*v.Y + m.x02*v.Z, Y: m.x10*v.X + m.x11*v.Y + m.x12*v.Z, Z: m.x20*v.X + m.x21*v.Y + m.x22*v.Z}
}

func equalRoots(x, y float64) bool { return x != y || Eq(Sqrt(x), Sqrt(y)) }

// the square of the determinant is the determinant of the table of dot products
func gramDet(m m44) bool {
	x, y, z := col44(m)
	a, b, c, d, e, f := dot3(x, x), dot3(y, y), dot3(z, z), dot3(x, y), dot3(x, z), dot3(y, z)
	return Eq(det3of44(m)*det3of44(m), a*(b*c-f*f)-d*(d*c-f*e)+e*(d*f-b*e))
}

// a dot product of images from the dot products of the columns
func gramDot(m m44, u, v r3.Vec) bool {
	x, y, z := col44(m)
	a, b, c, d, e, f := dot3(x, x), dot3(y, y), dot3(z, z), dot3(x, y), dot3(x, z), dot3(y, z)
	return Eq(dot3(lin44(m, u), lin44(m, v)), a*u.X*v.X+b*u.Y*v.Y+c*u.Z*v.Z+d*(u.X*v.Y+u.Y*v.X)+e*(u.X*v.Z+u.Z*v.X)+f*(u.Y*v.Z+u.Z*v.Y))
}

// a dot product of a column with an image
func gramCol(m m44, v r3.Vec) bool {
	x, y, z := col44(m)
	a, b, c, d, e, f := dot3(x, x), dot3(y, y), dot3(z, z), dot3(x, y), dot3(x, z), dot3(y, z)
	w := lin44(m, v)
	return And(And(Eq(dot3(x, w), a*v.X+d*v.Y+e*v.Z), Eq(dot3(y, w), d*v.X+b*v.Y+f*v.Z)), Eq(dot3(z, w), e*v.X+f*v.Y+c*v.Z))
}

// inverseRigid: the inverse of a rigid step is its transpose and rigid
func inverseRigid(t *T, m, w m44) {
	a, b, c := col44(w)
	t.Lemma("dot products of columns", gramCol, m, a)
	t.Lemma("dot products of columns", gramCol, m, b)
	t.Lemma("dot products of columns", gramCol, m, c)
	t.Have("image of the inverse's columns", And(And(EqV3(lin44(m, a), r3.Vec{X: 1}), EqV3(lin44(m, b), r3.Vec{Y: 1})), EqV3(lin44(m, c), r3.Vec{Z: 1})))
	t.Have("transpose", And(And(EqV3(a, r3.Vec{X: m.x00, Y: m.x01, Z: m.x02}), EqV3(b, r3.Vec{X: m.x10, Y: m.x11, Z: m.x12})), EqV3(c, r3.Vec{X: m.x20, Y: m.x21, Z: m.x22})))
	t.Ensure("inverse of a rigid step", rigid44(w))
}
func rigid33(m m33) bool {
	return And(And(Eq(m.x00*m.x00+m.x10*m.x10, 1), Eq(m.x01*m.x01+m.x11*m.x11, 1)), Eq(m.x00*m.x01+m.x10*m.x11, 0))
}
func anyRigid44(t *T, n string) m44 {
	if t.Native() {
		m := Rotate3D(r3.Vec{X: 1, Y: t.In(n+".u", -2, 2), Z: t.In(n+".v", -2, 2)}, t.Real(n+".ax")).Mul(RotateZ(t.Real(n + ".az"))).Mul(Translate3D(t.Vec3(n + ".move")))
		if t.Bool(n + ".mirror") {
			m = m.Mul(MirrorXeqY())
		}
		return m
	}
	m := anyAffine44(t, n)
	t.Require(rigid44(m))
	return m
}
func anyRigid33(t *T, n string) m33 {
	if t.Native() {
		m := Rotate2D(t.Real(n + ".angle")).Mul(Translate2D(t.Vec2(n + ".move")))
		if t.Bool(n + ".mirror") {
			m = m.Mul(MirrorX())
		}
		return m
	}
	m := anyAffine33(t, n)
	t.Require(rigid33(m))
	return m
}
func apartSq3(p, q r3.Vec) float64 { d := r3.Sub(p, q); return dot3(d, d) }
func apartSq2(p, q r2.Vec) float64 { return (p.X-q.X)*(p.X-q.X) + (p.Y-q.Y)*(p.Y-q.Y) }

func C19_Transform3D(t *T) {
	a := t.SDF3("a", "lip")
	m := anyRigid44(t, "m")
	t.Use(inverse44())
	dd := det3of44(m)
	t.Lemma("squared determinant", gramDet, m)
	t.Ensure("volume kept", Eq(dd*dd, 1))
	// m has an inverse: p and q are the images of any two points
	P, Q := t.Vec3("p"), t.Vec3("q")
	p, q := m.MulPosition(P), m.MulPosition(Q)
	D := r3.Sub(P, Q)
	t.Lemma("dot products of images", gramDot, m, D, D)
	t.Have("as far apart", Eq(apartSq3(p, q), apartSq3(P, Q)))
	s := Transform3D(a, m)
	w := m.Inverse()
	t.Have("inverse maps back", And(EqV3(w.MulPosition(p), P), EqV3(w.MulPosition(q), Q)))
	t.Have("value", And(Eq(s.Evaluate(p), a.Evaluate(P)), Eq(s.Evaluate(q), a.Evaluate(Q))))
	t.Lemma("roots of equal numbers", equalRoots, apartSq3(p, q), apartSq3(P, Q))
	t.Have("same distance", Eq(Sqrt(apartSq3(p, q)), Sqrt(apartSq3(P, Q))))
	t.Have("operand", Le(a.Evaluate(P), a.Evaluate(Q)+Sqrt(apartSq3(P, Q))))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+Sqrt(apartSq3(p, q))))
}
func C19_Transform2D(t *T) {
	a := t.SDF2("a", "lip")
	m := anyRigid33(t, "m")
	t.Use(inverse33())
	dd := m.x00*m.x11 - m.x01*m.x10
	t.Ensure("area kept", Eq(dd*dd, 1))
	p, q := t.Vec2("p"), t.Vec2("q")
	s := Transform2D(a, m)
	w := m.Inverse()
	P, Q := w.MulPosition(p), w.MulPosition(q)
	t.Have("inverse maps back", And(EqV2(m.MulPosition(P), p), EqV2(m.MulPosition(Q), q)))
	t.Have("as far apart", Eq(apartSq2(P, Q), apartSq2(m.MulPosition(P), m.MulPosition(Q))))
	t.Have("as far apart", Eq(apartSq2(P, Q), apartSq2(p, q)))
	t.Have("value", And(Eq(s.Evaluate(p), a.Evaluate(P)), Eq(s.Evaluate(q), a.Evaluate(Q))))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+Sqrt(apartSq2(p, q))))
}

// the mirrors, orientations and axis rotations are rigid
func C19_Rigid(t *T) {
	x := t.Real("x")
	t.Ensure("mirror xy", rigid44(MirrorXY()))
	t.Ensure("mirror xz", rigid44(MirrorXZ()))
	t.Ensure("mirror yz", rigid44(MirrorYZ()))
	t.Ensure("mirror x=y", rigid44(MirrorXeqY()))
	t.Ensure("mirror x", rigid33(MirrorX()))
	t.Ensure("mirror y", rigid33(MirrorY()))
	t.Ensure("about x", rigid44(RotateX(x)))
	t.Ensure("about y", rigid44(RotateY(x)))
	t.Ensure("about z", rigid44(RotateZ(x)))
	t.Ensure("in the plane", rigid33(Rotate2D(x)))
	t.Ensure("translation", rigid44(Translate3D(t.Vec3("v"))))
	t.Ensure("translation in the plane", rigid33(Translate2D(t.Vec2("w"))))
	axis := t.Vec3("axis")
	t.Require(dot3(axis, axis) > 0)
	ra := Rotate3D(axis, x)
	ax, ay, az := col44(ra)
	u := r3.Unit(axis)
	t.Have("unit axis", Eq(dot3(u, u), 1))
	t.Have("xx", Eq(dot3(ax, ax), 1))
	t.Have("yy", Eq(dot3(ay, ay), 1))
	t.Have("zz", Eq(dot3(az, az), 1))
	t.Have("xy", Eq(dot3(ax, ay), 0))
	t.Have("xz", Eq(dot3(ax, az), 0))
	t.Have("yz", Eq(dot3(ay, az), 0))
	t.Ensure("about an axis", rigid44(ra))
	c, d := anyRigid33(t, "c"), anyRigid33(t, "d")
	t.Ensure("product in the plane", rigid33(c.Mul(d)))
}

func C19_RigidProduct(t *T) {
	a, b := anyRigid44(t, "a"), anyRigid44(t, "b")
	x0, y0, z0 := col44(b)
	t.Lemma("dot products of images", gramDot, a, x0, x0)
	t.Lemma("dot products of images", gramDot, a, y0, y0)
	t.Lemma("dot products of images", gramDot, a, z0, z0)
	t.Lemma("dot products of images", gramDot, a, x0, y0)
	t.Lemma("dot products of images", gramDot, a, x0, z0)
	t.Lemma("dot products of images", gramDot, a, y0, z0)
	m := a.Mul(b)
	x1, y1, z1 := col44(m)
	t.Have("columns", And(EqV3(x1, lin44(a, x0)), And(EqV3(y1, lin44(a, y0)), EqV3(z1, lin44(a, z0)))))
	t.Have("x", Eq(dot3(x1, x1), 1))
	t.Have("y", Eq(dot3(y1, y1), 1))
	t.Have("z", Eq(dot3(z1, z1), 1))
	t.Have("xy", Eq(dot3(x1, y1), 0))
	t.Have("xz", Eq(dot3(x1, z1), 0))
	t.Have("yz", Eq(dot3(y1, z1), 0))
	t.Ensure("product", rigid44(m))
}

func C19_Slice2D(t *T) {
	_, o, n := slicePlane(t)
	a := t.SDF3("lip", "lip")
	p, q := t.Vec2("p"), t.Vec2("q")
	d := Sqrt(apartSq2(p, q))
	if t.Native() {
		s := Slice2D(a, o, n)
		t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
		return
	}
	t.Use(unit3())
	t.Split(n.X == 0)
	t.Split(n.Y == 0)
	t.Split(n.Z == 0)
	s := Slice2D(a, o, n).(*slice2)
	u, v := s.u, s.v
	t.Have("orthonormal frame", And(And(Eq(dot3(u, u), 1), Eq(dot3(v, v), 1)), Eq(dot3(u, v), 0)))
	P := r3.Add(o, r3.Add(r3.Scale(p.X, u), r3.Scale(p.Y, v)))
	Q := r3.Add(o, r3.Add(r3.Scale(q.X, u), r3.Scale(q.Y, v)))
	t.Have("as far apart", Eq(apartSq3(P, Q), apartSq2(p, q)))
	t.Have("value", And(Eq(s.Evaluate(p), a.Evaluate(P)), Eq(s.Evaluate(q), a.Evaluate(Q))))
	t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
}

// A union of turned copies: every power of a rigid step is rigid.
// Two steps: the value at p, less the distance, is below the value at q of any
// copy; and (the second contract) whatever is below all copies is below the union.
func C19_RotateUnion3DLeast(t *T) { C07_RotateUnion3D(t) }
func C19_RotateUnion2DLeast(t *T) { C07_RotateUnion2D(t) }
func C19_RotateUnion3D(t *T) {
	step := anyRigid44(t, "m")
	n := t.Int("n", 1, 1<<30)
	k := t.Int("k", 0, 1<<30)
	t.Require(k < n)
	p, q := t.Vec3("p"), t.Vec3("q")
	d := Sqrt(apartSq3(p, q))
	if t.Native() {
		s := RotateUnion3D(t.SDF3("a", "lip"), n, step)
		t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
		return
	}
	a := t.SDF3("a") // no steeper than distance: used for copy k only
	t.Use(inverse44())
	dd := det3of44(step)
	t.Lemma("squared determinant", gramDet, step)
	t.Ensure("volume kept", Eq(dd*dd, 1))
	inv := step.Inverse()
	inverseRigid(t, step, inv)
	t.Opt("loopidx")
	var R []m44
	t.Any("R", &R, "len>=1")
	t.Require(len(R) == n+1)
	t.Require(eq44(R[0], identity3d()))
	t.AssumeForall(n, func(i int) bool { return eq44(R[i+1], mul44(R[i], inv)) })
	t.Invariant(func(i int) bool { return And(affine44(R[i]), rigid44(R[i])) })
	for i := 0; i < k; i++ {
	}
	t.ClearInvariants()
	P, Q := R[k].MulPosition(p), R[k].MulPosition(q)
	t.Have("copies as far apart", Eq(apartSq3(P, Q), apartSq3(p, q)))
	t.Require(a.Evaluate(P) <= a.Evaluate(Q)+d)
	s := RotateUnion3D(a, n, step)
	t.Invariant(func(i int, rot m44) bool { return eq44(rot, R[i]) })
	t.Invariant(func(i int, d float64) bool { return Imp(i > k, d <= a.Evaluate(P)) })
	t.Ensure("no more than the distance above any copy", s.Evaluate(p)-d <= a.Evaluate(Q))
}
func C19_RotateUnion2D(t *T) {
	step := anyRigid33(t, "m")
	n := t.Int("n", 1, 1<<30)
	k := t.Int("k", 0, 1<<30)
	t.Require(k < n)
	p, q := t.Vec2("p"), t.Vec2("q")
	d := Sqrt(apartSq2(p, q))
	if t.Native() {
		s := RotateUnion2D(t.SDF2("a", "lip"), n, step)
		t.Ensure("no steeper than distance", Le(s.Evaluate(p), s.Evaluate(q)+d))
		return
	}
	a := t.SDF2("a") // no steeper than distance: used for copy k only
	t.Use(inverse33())
	dd := step.x00*step.x11 - step.x01*step.x10
	t.Ensure("area kept", Eq(dd*dd, 1))
	inv := step.Inverse()
	t.Ensure("inverse of a rigid step", rigid33(inv))
	t.Opt("loopidx")
	var R []m33
	t.Any("R", &R, "len>=1")
	t.Require(len(R) == n+1)
	t.Require(eq33(R[0], identity2d()))
	t.AssumeForall(n, func(i int) bool { return eq33(R[i+1], mul33(R[i], inv)) })
	t.Invariant(func(i int) bool { return And(affine33(R[i]), rigid33(R[i])) })
	for i := 0; i < k; i++ {
	}
	t.ClearInvariants()
	P, Q := R[k].MulPosition(p), R[k].MulPosition(q)
	t.Have("copies as far apart", Eq(apartSq2(P, Q), apartSq2(p, q)))
	t.Require(a.Evaluate(P) <= a.Evaluate(Q)+d)
	s := RotateUnion2D(a, n, step)
	t.Invariant(func(i int, rot m33) bool { return eq33(rot, R[i]) })
	t.Invariant(func(i int, d float64) bool { return Imp(i > k, d <= a.Evaluate(P)) })
	t.Ensure("no more than the distance above any copy", s.Evaluate(p)-d <= a.Evaluate(Q))
}

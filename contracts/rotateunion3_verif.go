//go:build verif

package sdf

import (
	"math"

	"github.com/soypat/sdf/internal/d3"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r3"
)

// steps3 defines W[i] = step^i and R[i] = (step^-1)^i as sequences and proves,
// by induction, that R[k] undoes W[k].
func steps3(t *T, step m44, n, k int) (W, R []m44) {
	if t.Native() {
		W, R = []m44{identity3d()}, []m44{identity3d()}
		for i := 0; i < n; i++ {
			W = append(W, mul44(step, W[i]))
			R = append(R, mul44(R[i], step.Inverse()))
		}
		return W, R
	}
	inv := step.Inverse()
	t.Any("W", &W, "len>=1")
	t.Any("R", &R, "len>=1")
	t.Require(len(W) == n+1)
	t.Require(len(R) == n+1)
	t.Require(And(eq44(W[0], identity3d()), eq44(R[0], identity3d())))
	t.AssumeForall(n, func(i int) bool { return And(eq44(W[i+1], mul44(step, W[i])), eq44(R[i+1], mul44(R[i], inv))) })
	t.Invariant(func(i int) bool {
		return And(And(eq44(mul44(W[i], R[i]), identity3d()), affine44(W[i])), affine44(R[i]))
	})
	for i := 0; i < k; i++ {
	}
	t.ClearInvariants()
	t.Ensure("powers are inverse", And(And(eq44(mul44(W[k], R[k]), identity3d()), affine44(W[k])), affine44(R[k])))
	// k is arbitrary so far
	t.AssumeForall(n, func(i int) bool { return And(affine44(W[i]), affine44(R[i])) })
	return W, R
}

// any nonsingular step (concrete runs: well conditioned ones)
func anyStep3(t *T) m44 {
	if t.Native() {
		return RotateX(t.Real("ax")).Mul(RotateZ(t.Real("az"))).Mul(Translate3D(t.Vec3("move")))
	}
	return anyAffine44(t, "m")
}

func hull3(w m44, b, bb r3.Box, q, p r3.Vec) bool {
	c := func(x, y, z float64) bool { return InBox3(w.MulPosition(r3.Vec{X: x, Y: y, Z: z}), bb) }
	return Imp(And(And(EqV3(w.MulPosition(q), p), InBox3(q, b)),
		And(And(And(c(b.Min.X, b.Min.Y, b.Min.Z), c(b.Max.X, b.Min.Y, b.Min.Z)), And(c(b.Min.X, b.Max.Y, b.Min.Z), c(b.Max.X, b.Max.Y, b.Min.Z))),
			And(And(c(b.Min.X, b.Min.Y, b.Max.Z), c(b.Max.X, b.Min.Y, b.Max.Z)), And(c(b.Min.X, b.Max.Y, b.Max.Z), c(b.Max.X, b.Max.Y, b.Max.Z))))),
		InBox3(p, bb))
}

func C01_RotateUnion3D(t *T) {
	a := t.SDF3("a", "sound")
	step := anyStep3(t)
	t.Require(det3of44(step) != 0)
	n := t.Int("n", 1, 1<<30)
	k := t.Int("k", 0, 1<<30)
	t.Require(k < n)
	p := t.Vec3("p")
	t.Opt("loopidx")
	t.Use(inverse44())
	if t.Native() {
		s := RotateUnion3D(a, n, step)
		t.Ensure("solid inside bounds", Imp(s.Evaluate(p) <= 0, InBox3(p, s.Bounds())))
		return
	}
	W, R := steps3(t, step, n, k)
	q := R[k].MulPosition(p)
	t.Ensure("maps back", EqV3(W[k].MulPosition(q), p))
	ab := a.Bounds()
	v := [8]r3.Vec{}
	for j, w := range d3.Box(ab).Vertices() {
		v[j] = w
	}
	t.ClearInvariants()
	var img [8]r3.Vec
	for j := range v {
		w, j := t.Vec3("img"), j
		t.Require(EqV3(w, W[k].MulPosition(v[j])))
		img[j] = w
		t.Invariant(func(i int, bbMin, bbMax r3.Vec) bool { return Imp(i > k, InBox3(w, r3.Box{Min: bbMin, Max: bbMax})) })
		t.Invariant(func(i int, c []r3.Vec) bool { return Imp(i == k, EqV3(c[j], w)) })
	}
	t.Invariant(func(i int, v_ []r3.Vec) bool {
		return And(And(And(EqV3(v_[0], W[i].MulPosition(v[0])), EqV3(v_[1], W[i].MulPosition(v[1]))), And(EqV3(v_[2], W[i].MulPosition(v[2])), EqV3(v_[3], W[i].MulPosition(v[3])))), And(And(EqV3(v_[4], W[i].MulPosition(v[4])), EqV3(v_[5], W[i].MulPosition(v[5]))), And(EqV3(v_[6], W[i].MulPosition(v[6])), EqV3(v_[7], W[i].MulPosition(v[7])))))
	})
	s := RotateUnion3D(a, n, step)
	bb := s.Bounds()
	t.ClearInvariants()
	t.Ensure("corners of every copy", And(And(And(InBox3(img[0], bb), InBox3(img[1], bb)), And(InBox3(img[2], bb), InBox3(img[3], bb))), And(And(InBox3(img[4], bb), InBox3(img[5], bb)), And(InBox3(img[6], bb), InBox3(img[7], bb)))))
	t.Require(!InBox3(p, bb))
	t.Lemma("a box is the hull of its corners", hull3, W[k], ab, bb, q, p)
	t.Ensure("p is outside every copy of the box", !InBox3(q, ab))
	t.AssumeForall(n, func(i int) bool { return !InBox3(R[i].MulPosition(p), ab) })
	t.Invariant(func(i int, d float64, rot m44) bool { return And(d > 0, eq44(rot, R[i])) })
	d := s.Evaluate(p)
	t.Ensure("outside the bounds is outside the union", d > 0)
}

func C07_RotateUnion3D(t *T) {
	a := t.SDF3("a")
	step := anyStep3(t)
	d := det3of44(step)
	t.Require(d != 0)
	n := t.Int("n", 1, 1<<30)
	k := t.Int("k", 0, 1<<30)
	t.Require(k < n)
	p := t.Vec3("p")
	c := t.Real("c")
	t.Opt("loopidx")
	t.Use(inverse44())
	_, R := steps3(t, step, n, k)
	s := RotateUnion3D(a, n, step)
	t.AssumeForall(n, func(i int) bool { return c <= a.Evaluate(R[i].MulPosition(p)) })
	t.Require(c <= math.MaxFloat64)
	t.Invariant(func(i int, rot m44) bool { return eq44(rot, R[i]) })
	t.Invariant(func(d float64) bool { return c <= d })
	t.Invariant(func(i int, d float64) bool { return Imp(i > k, d <= a.Evaluate(R[k].MulPosition(p))) })
	e := s.Evaluate(p)
	t.Ensure("at most every copy", Le(e, a.Evaluate(R[k].MulPosition(p))))
	t.Ensure("at least the least copy", Le(c, e))
}

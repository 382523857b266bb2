//go:build verif

package sdf

import (
	"math"

	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// ---- unions of rotated copies: powers of the step ----

// steps2 defines W[i] = step^i and R[i] = (step^-1)^i as sequences and proves,
// by induction, that R[k] undoes W[k].
func steps2(t *T, step m33, n, k int) (W, R []m33) {
	if t.Native() {
		W, R = []m33{identity2d()}, []m33{identity2d()}
		for i := 0; i < n; i++ {
			W = append(W, mul33(step, W[i]))
			R = append(R, mul33(R[i], step.Inverse()))
		}
		return W, R
	}
	inv := step.Inverse()
	t.Any("W", &W, "len>=1")
	t.Any("R", &R, "len>=1")
	t.Require(len(W) == n+1)
	t.Require(len(R) == n+1)
	t.Require(And(eq33(W[0], identity2d()), eq33(R[0], identity2d())))
	t.AssumeForall(n, func(i int) bool { return And(eq33(W[i+1], mul33(step, W[i])), eq33(R[i+1], mul33(R[i], inv))) })
	t.Invariant(func(i int) bool {
		return And(And(eq33(mul33(W[i], R[i]), identity2d()), affine33(W[i])), affine33(R[i]))
	})
	for i := 0; i < k; i++ {
	}
	t.ClearInvariants()
	t.Ensure("powers are inverse", And(And(eq33(mul33(W[k], R[k]), identity2d()), affine33(W[k])), affine33(R[k])))
	// k is arbitrary so far
	t.AssumeForall(n, func(i int) bool { return And(affine33(W[i]), affine33(R[i])) })
	return W, R
}

// any nonsingular step (concrete runs: well conditioned ones)
func anyStep2(t *T) m33 {
	if t.Native() {
		return Rotate2D(t.Real("angle")).Mul(Translate2D(t.Vec2("move")))
	}
	return anyAffine33(t, "m")
}

func hull2(w m33, b, bb r2.Box, q, p r2.Vec) bool {
	c := func(x, y float64) bool { return InBox2(w.MulPosition(r2.Vec{X: x, Y: y}), bb) }
	return Imp(And(And(EqV2(w.MulPosition(q), p), InBox2(q, b)), And(And(c(b.Min.X, b.Min.Y), c(b.Max.X, b.Min.Y)), And(c(b.Min.X, b.Max.Y), c(b.Max.X, b.Max.Y)))),
		InBox2(p, bb))
}

func C02_RotateUnion2D(t *T) {
	a := t.SDF2("a", "sound")
	step := anyStep2(t)
	t.Require(step.x00*step.x11-step.x01*step.x10 != 0)
	n := t.Int("n", 1, 1<<30)
	k := t.Int("k", 0, 1<<30)
	t.Require(k < n)
	p := t.Vec2("p")
	t.Opt("loopidx")
	t.Use(inverse33())
	if t.Native() {
		s := RotateUnion2D(a, n, step)
		t.Ensure("solid inside bounds", Imp(s.Evaluate(p) <= 0, InBox2(p, s.Bounds())))
		return
	}
	W, R := steps2(t, step, n, k)
	q := R[k].MulPosition(p)
	t.Ensure("maps back", EqV2(W[k].MulPosition(q), p))
	ab := a.Bounds()
	v := [4]r2.Vec{ab.Min, {X: ab.Max.X, Y: ab.Min.Y}, {X: ab.Min.X, Y: ab.Max.Y}, ab.Max}
	var img [4]r2.Vec
	for j := range v {
		w, j := t.Vec2("img"), j
		t.Require(EqV2(w, W[k].MulPosition(v[j])))
		img[j] = w
		t.Invariant(func(i int, bbMin, bbMax r2.Vec) bool { return Imp(i > k, InBox2(w, r2.Box{Min: bbMin, Max: bbMax})) })
		t.Invariant(func(i int, c []r2.Vec) bool { return Imp(i == k, EqV2(c[j], w)) })
	}
	t.Invariant(func(i int, vset []r2.Vec) bool {
		return And(And(EqV2(vset[0], W[i].MulPosition(v[0])), EqV2(vset[1], W[i].MulPosition(v[1]))), And(EqV2(vset[2], W[i].MulPosition(v[2])), EqV2(vset[3], W[i].MulPosition(v[3]))))
	})
	s := RotateUnion2D(a, n, step)
	bb := s.Bounds()
	t.ClearInvariants()
	t.Ensure("corners of every copy", And(And(InBox2(img[0], bb), InBox2(img[1], bb)), And(InBox2(img[2], bb), InBox2(img[3], bb))))
	t.Require(!InBox2(p, bb))
	t.Lemma("a box is the hull of its corners", hull2, W[k], ab, bb, q, p)
	t.Ensure("p is outside every copy of the box", !InBox2(q, ab))
	t.AssumeForall(n, func(i int) bool { return !InBox2(R[i].MulPosition(p), ab) })
	t.Invariant(func(i int, d float64, rot m33) bool { return And(d > 0, eq33(rot, R[i])) })
	d := s.Evaluate(p)
	t.Ensure("outside the bounds is outside the union", d > 0)
}

func C07_RotateUnion2D(t *T) {
	a := t.SDF2("a")
	step := anyStep2(t)
	d := step.x00*step.x11 - step.x01*step.x10
	t.Require(d != 0)
	n := t.Int("n", 1, 1<<30)
	k := t.Int("k", 0, 1<<30)
	t.Require(k < n)
	p := t.Vec2("p")
	c := t.Real("c")
	t.Opt("loopidx")
	t.Use(inverse33())
	_, R := steps2(t, step, n, k)
	s := RotateUnion2D(a, n, step)
	t.AssumeForall(n, func(i int) bool { return c <= a.Evaluate(R[i].MulPosition(p)) })
	t.Require(c <= math.MaxFloat64)
	t.Invariant(func(i int, rot m33) bool { return eq33(rot, R[i]) })
	t.Invariant(func(d float64) bool { return c <= d })
	t.Invariant(func(i int, d float64) bool { return Imp(i > k, d <= a.Evaluate(R[k].MulPosition(p))) })
	e := s.Evaluate(p)
	t.Ensure("at most every copy", Le(e, a.Evaluate(R[k].MulPosition(p))))
	t.Ensure("at least the least copy", Le(c, e))
}

var _ = r3.Vec{}

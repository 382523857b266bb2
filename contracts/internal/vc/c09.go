//go:build verif

package vc

import (
	"math"

	"github.com/soypat/sdf"
	. "github.com/soypat/sdf/internal/vspec"
)

// blend: symmetric, at most the minimum, the plain minimum where the two
// values differ by at least k, at least lo below the minimum everywhere
func blend(t *T, f sdf.MinFunc, k float64, lo func(a, b float64) float64) {
	a, b := t.Real("a"), t.Real("b")
	d := f(a, b)
	m := math.Min(a, b)
	t.Ensure("symmetric", Eq(d, f(b, a)))
	t.Ensure("never above the minimum", Le(d, m))
	t.Ensure("plain minimum away from the seam", Imp(math.Abs(a-b) >= k, Eq(d, m)))
	t.Ensure("bounded deviation", Ge(d, lo(a, b)))
}
func C09_MinPolyQuadratic(t *T) {
	k := t.Pos("k")
	blend(t, sdf.MinPoly(2, k), k, func(a, b float64) float64 { return math.Min(a, b) - k/4 })
}
func C09_MinPolyCubic(t *T) {
	k := t.Pos("k")
	blend(t, sdf.MinPoly(3, k), k, func(a, b float64) float64 { return math.Min(a, b) - k/6 })
}
func C09_MinPolyAny(t *T) {
	k := t.Pos("k")
	n := t.Int("n", 4, 1<<20)
	blend(t, sdf.MinPoly(n, k), k, func(a, b float64) float64 { return math.Min(a, b) - k/(2*float64(n)) })
}
func C09_MinPolyOne(t *T) {
	a, b := t.Real("a"), t.Real("b")
	t.Ensure("degree one is the minimum", Eq(sdf.MinPoly(1, t.Pos("k"))(a, b), math.Min(a, b)))
}

// chamfer: the plain minimum wherever the chamfer plane is above it
func C09_MinPolyChamfer(t *T) {
	a, b := t.Real("a"), t.Real("b")
	k := t.Pos("k")
	d := sdf.MinPoly(0, k)(a, b)
	// half of the root of two is a decimal in the code
	c, e := math.Min(math.Min(a, b), (a+b-k)*Sqrt(0.5)), 1e-12*math.Abs(a+b-k)
	t.Ensure("chamfer", And(Le(d, c+e), Le(c, d+e)))
}
func C09_MinRound(t *T) {
	a, b := t.Real("a"), t.Real("b")
	k := t.Pos("k")
	f := sdf.MinRound(k)
	d := f(a, b)
	m := math.Min(a, b)
	t.Ensure("symmetric", Eq(d, f(b, a)))
	t.Ensure("never above the minimum", Le(d, m))
	t.Ensure("plain minimum away from the seam", Imp(math.Max(a, b) >= k, Eq(d, m)))
	t.Ensure("quarter circle of radius k", Imp(a < k && b < k, Eq((k-d)*(k-d), (k-a)*(k-a)+(k-b)*(k-b))))
}
func C09_MinExp(t *T) {
	a, b := t.Real("a"), t.Real("b")
	k := t.Pos("k")
	if t.Native() {
		t.Require(math.Abs(k*a) < 100 && math.Abs(k*b) < 100 && k > 1e-3)
	}
	f := sdf.MinExp(k)
	d := f(a, b)
	t.Ensure("symmetric", Eq(d, f(b, a)))
	t.Ensure("never above the minimum", Le(d, math.Min(a, b)))
}

// maximum: the mirror image
func C09_MaxPoly(t *T) {
	a, b := t.Real("a"), t.Real("b")
	k := t.Pos("k")
	n := t.Int("n", 2, 1<<20)
	f := sdf.MaxPoly(n, k)
	d, m := f(a, b), math.Max(a, b)
	t.Ensure("symmetric", Eq(d, f(b, a)))
	t.Ensure("never below the maximum", Ge(d, m))
	t.Ensure("plain maximum away from the seam", Imp(math.Abs(a-b) >= k, Eq(d, m)))
	t.Ensure("bounded deviation", Le(d, m+k/(2*float64(n))))
}
func C09_MaxPolyChamfer(t *T) {
	a, b := t.Real("a"), t.Real("b")
	k := t.Pos("k")
	t.Ensure("chamfer", Eq(sdf.MaxPoly(0, k)(a, b), -sdf.MinPoly(0, k)(-a, -b)))
}
func C09_Dual(t *T) {
	a, b := t.Real("a"), t.Real("b")
	k := t.Pos("k")
	n := t.Int("n", 2, 1<<20)
	d, e := sdf.MaxPoly(n, k)(a, b), -sdf.MinPoly(n, k)(-a, -b)
	// a sixth is a decimal in the code
	t.Ensure("maximum mirrors the minimum", And(Le(d, e+1e-12*k), Le(e, d+1e-12*k)))
}

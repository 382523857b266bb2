//go:build verif

package vc

import (
	"math"
	"sync"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3/thread"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func same(a, b float64) bool { return a == b || a != a && b != b }

// steady natively evaluates a shape at several points, in several goroutines at once.
func steady(t *T, eval func(r3.Vec) float64) {
	var pts [8]r3.Vec
	var want [8]float64
	for i := range pts {
		pts[i] = r3.Vec{X: t.Rng.NormFloat64() * 3, Y: t.Rng.NormFloat64() * 3, Z: t.Rng.NormFloat64() * 3}
		want[i] = eval(pts[i])
	}
	ok := true
	for i := range pts {
		ok = ok && same(want[i], eval(pts[i]))
	}
	t.Ensure("the same value at the same point", ok)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					mu.Lock()
					ok = false
					mu.Unlock()
				}
			}()
			good := true
			for k := 0; k < 40; k++ {
				i := (k*(2*g+1) + g) % len(pts)
				good = good && same(want[i], eval(pts[i]))
			}
			mu.Lock()
			ok = ok && good
			mu.Unlock()
		}()
	}
	wg.Wait()
	t.Ensure("the same value in every goroutine", ok)
}

func pure3(t *T, make func() sdf.SDF3) {
	p := t.Vec3("p")
	var s sdf.SDF3
	t.Frozen(func() { s = make() })
	if t.Native() {
		b := s.Bounds()
		steady(t, s.Evaluate)
		t.Ensure("the same bounds", s.Bounds() == b)
		return
	}
	t.Frozen(func() { s.Evaluate(p) })
	t.Frozen(func() { s.Bounds() })
}

func pure2(t *T, make func() sdf.SDF2) {
	p := t.Vec2("p")
	var s sdf.SDF2
	t.Frozen(func() { s = make() })
	if t.Native() {
		b := s.Bounds()
		steady(t, func(p r3.Vec) float64 { return s.Evaluate(r2.Vec{X: p.X, Y: p.Y}) })
		t.Ensure("the same bounds", s.Bounds() == b)
		return
	}
	t.Frozen(func() { s.Evaluate(p) })
	t.Frozen(func() { s.Bounds() })
}

func anyList3(t *T) (ss []sdf.SDF3) {
	t.Any("list", &ss, "len>=2")
	return
}
func anyList2(t *T) (ss []sdf.SDF2) {
	t.Any("list", &ss, "len>=2")
	return
}

func C18_Union3D(t *T) {
	ss := anyList3(t)
	pure3(t, func() sdf.SDF3 { return sdf.Union3D(ss...) })
}

func C18_Union2D(t *T) {
	ss := anyList2(t)
	t.Invariant(func(i, minIndex int) bool { return And(0 <= minIndex, Or(minIndex < i, minIndex == 0)) })
	pure2(t, func() sdf.SDF2 { return sdf.Union2D(ss...) })
}

func C18_Combine3(t *T) {
	a, b := t.SDF3("a"), t.SDF3("b")
	o, n := t.Vec3("o"), t.Vec3("n")
	k := t.Pos("k")
	t.Require(n.X*n.X+n.Y*n.Y+n.Z*n.Z > 0)
	w := t.Int("which", 0, 8)
	pure3(t, func() sdf.SDF3 {
		switch w {
		case 0:
			return sdf.Difference3D(a, b)
		case 1:
			return sdf.Intersect3D(a, b)
		case 2:
			return sdf.Elongate3D(a, o)
		case 3:
			return sdf.Cut3D(a, o, n)
		case 4:
			return sdf.Transform3D(a, sdf.RotateX(k).Mul(sdf.Translate3D(o)))
		case 5:
			return sdf.ScaleUniform3D(a, k)
		case 6:
			return sdf.Offset3D(a, k)
		case 7:
			return sdf.Shell3D(a, k)
		}
		return must3.ChamferedCylinder(b, 0, 0)
	})
}

func C18_Combine2(t *T) {
	a, b := t.SDF2("a"), t.SDF2("b")
	o, n := t.Vec2("o"), t.Vec2("n")
	k := t.Pos("k")
	t.Require(n.X*n.X+n.Y*n.Y > 0)
	w := t.Int("which", 0, 8)
	pure2(t, func() sdf.SDF2 {
		switch w {
		case 0:
			return sdf.Difference2D(a, b)
		case 1:
			return sdf.Intersect2D(a, b)
		case 2:
			return sdf.Elongate2D(a, o)
		case 3:
			return sdf.Cut2D(a, o, n)
		case 4:
			return sdf.Transform2D(a, sdf.Rotate2D(k).Mul(sdf.Translate2D(o)))
		case 5:
			return sdf.ScaleUniform2D(a, k)
		case 6:
			return sdf.Offset2D(a, k)
		case 7:
			return sdf.Center2D(a)
		}
		return sdf.CenterAndScale2D(a, k)
	})
}

func C18_Slice2D(t *T) {
	a := t.SDF3("a")
	o, n := t.Vec3("o"), t.Vec3("n")
	t.Require(n.X*n.X+n.Y*n.Y+n.Z*n.Z > 0)
	pure2(t, func() sdf.SDF2 { return sdf.Slice2D(a, o, n) })
}

func C18_Copies3(t *T) {
	a := t.SDF3("a")
	n := sdf.V3i{t.Int("nx", 1, 1<<20), t.Int("ny", 1, 1<<20), t.Int("nz", 1, 1<<20)}
	if t.Native() {
		n = sdf.V3i{t.Int("nx", 1, 3), t.Int("ny", 1, 3), t.Int("nz", 1, 3)}
	}
	v := t.Vec3("step")
	w := t.Int("which", 0, 2)
	pure3(t, func() sdf.SDF3 {
		switch w {
		case 0:
			return sdf.Array3D(a, n, v)
		case 1:
			return sdf.RotateUnion3D(a, n[0], sdf.RotateZ(v.Z).Mul(sdf.Translate3D(v)))
		}
		return sdf.RotateCopy3D(a, n[0])
	})
}

func C18_Copies2(t *T) {
	a := t.SDF2("a")
	n := sdf.V2i{t.Int("nx", 1, 1<<20), t.Int("ny", 1, 1<<20)}
	if t.Native() {
		n = sdf.V2i{t.Int("nx", 1, 3), t.Int("ny", 1, 3)}
	}
	v := t.Vec2("step")
	w := t.Int("which", 0, 2)
	pure2(t, func() sdf.SDF2 {
		switch w {
		case 0:
			return sdf.Array2D(a, n, v)
		case 1:
			return sdf.RotateUnion2D(a, n[0], sdf.Rotate2D(v.Y).Mul(sdf.Translate2D(v)))
		}
		return sdf.RotateCopy2D(a, n[0])
	})
}

func C18_Profiles(t *T) {
	a, b := t.SDF2("a"), t.SDF2("b")
	h, r := t.Pos("height"), t.NonNeg("round")
	t.Require(2*r < h)
	x := t.In("turn", 0.1, 7)
	v := t.PosVec2("scale")
	w := t.Int("which", 0, 6)
	pure3(t, func() sdf.SDF3 {
		switch w {
		case 0:
			return sdf.Extrude3D(a, h)
		case 1:
			return sdf.TwistExtrude3D(a, h, x)
		case 2:
			return sdf.ScaleExtrude3D(a, h, v)
		case 3:
			return sdf.ScaleTwistExtrude3D(a, h, x, v)
		case 4:
			return sdf.ExtrudeRounded3D(a, h, r)
		case 5:
			return sdf.Loft3D(a, b, h, r)
		}
		return sdf.Revolve3D(a, x)
	})
}

func C18_Screw(t *T) {
	th := someThread(t)
	l := t.Pos("length")
	pure3(t, func() sdf.SDF3 {
		s, err := thread.Screw(l, th)
		if err != nil {
			panic("no screw")
		}
		return s
	})
}

func C18_Primitives3(t *T) {
	size, round := t.PosVec3("size"), t.NonNeg("round")
	r0, r1 := t.Pos("r0"), t.NonNeg("r1")
	t.Require(round <= r0)
	t.Require(2*round <= size.Z)
	w := t.Int("which", 0, 3)
	pure3(t, func() sdf.SDF3 {
		switch w {
		case 0:
			return must3.Box(size, round)
		case 1:
			return must3.Sphere(r0)
		case 2:
			return must3.Cylinder(size.Z, r0, round)
		}
		return must3.Cone(size.Z, r0, r1, round)
	})
}

func C18_Primitives2(t *T) {
	size, round := t.PosVec2("size"), t.NonNeg("round")
	w := t.Int("which", 0, 2)
	pure2(t, func() sdf.SDF2 {
		switch w {
		case 0:
			return must2.Box(size, round)
		case 1:
			return must2.Circle(round)
		}
		return must2.Line(size.X, round)
	})
}

// a smoothed union, difference or intersection
func C18_Blends(t *T) {
	ss := anyList3(t)
	k := t.Pos("k")
	t.Require(k <= 1e6)
	w := t.Int("which", 0, 3)
	v := t.Int("op", 0, 2)
	pure3(t, func() sdf.SDF3 {
		var m sdf.MinFunc
		switch w {
		case 0:
			m = sdf.MinRound(k)
		case 1:
			m = sdf.MinExp(k)
		case 2:
			m = sdf.MinPoly(2, k)
		default:
			m = math.Min
		}
		if v == 0 {
			u := sdf.Union3D(ss...)
			u.SetMin(m)
			return u
		}
		if v == 1 {
			d := sdf.Difference3D(ss[0], ss[1])
			d.SetMax(sdf.MaxPoly(2, k))
			return d
		}
		i := sdf.Intersect3D(ss[0], ss[1])
		i.SetMax(sdf.MaxPoly(3, k))
		return i
	})
}

func C18_MinPow(t *T) {
	k, a, b := t.Pos("k"), t.Pos("a"), t.Pos("b")
	t.Require(And(k <= 100, And(a <= 100, b <= 100)))
	f := sdf.MinPow(k)
	d, e := 0.0, 0.0
	t.Frozen(func() { d = f(a, b) })
	e = f(a, b)
	t.Ensure("the same value", d == e)
}

func C18_Polygon(t *T) {
	var v []r2.Vec
	t.Any("v", &v, "len>=3")
	t.Invariant(func(dd float64) bool { return dd >= 0 })
	pure2(t, func() sdf.SDF2 { return must2.Polygon(v) })
}

// a union is of the shapes it was made of, whatever becomes of the list
func C18_UnionList3(t *T) {
	ss := anyList3(t)
	p := t.Vec3("p")
	k := t.Int("k", 0, 1<<30)
	t.Require(k < len(ss))
	old := ss[k]
	c := t.Real("c")
	s := sdf.Union3D(ss...)
	t.AssumeForall(len(ss), func(i int) bool { return c <= ss[i].Evaluate(p) })
	other := t.SDF3("other")
	ss[k] = other
	t.Invariant(func(i int, d float64) bool { return Imp(i > k, d <= old.Evaluate(p)) })
	t.Invariant(func(i int, d float64) bool { return Imp(i > 0, c <= d) })
	d := s.Evaluate(p)
	t.Ensure("at most the shape it was made of", d <= old.Evaluate(p))
	t.Ensure("at least the least it was made of", c <= d)
}

func C18_UnionList2(t *T) {
	a, b, c := t.SDF2("a"), t.SDF2("b"), t.SDF2("c")
	list := []sdf.SDF2{a, b}
	p := t.Vec2("p")
	s := sdf.Union2D(list...)
	list[t.Int("k", 0, 1)] = c
	bb := s.Bounds()
	t.Invariant(func(i int, vs []r2.Vec) bool { return true })
	_ = bb
	d := s.Evaluate(p)
	t.Ensure("one of the shapes it was made of", Or(d == a.Evaluate(p), d == b.Evaluate(p)))
}

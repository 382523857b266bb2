//go:build verif

package vc

import (
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/internal/d2"
	"github.com/soypat/sdf/internal/d3"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// a grid array is the least of its copies
func C07_Array3D(t *T) {
	a := t.SDF3("a")
	p, st := t.Vec3("p"), t.Vec3("step")
	nx, ny, nz := t.Int("nx", 1, 1<<20), t.Int("ny", 1, 1<<20), t.Int("nz", 1, 1<<20)
	x, y, z := t.Int("x", 0, 1<<20), t.Int("y", 0, 1<<20), t.Int("z", 0, 1<<20)
	t.Require(x < nx && y < ny && z < nz)
	at := func(i, j, k int) r3.Vec {
		return r3.Vec{X: p.X - float64(i)*st.X, Y: p.Y - float64(j)*st.Y, Z: p.Z - float64(k)*st.Z}
	}
	v := a.Evaluate(at(x, y, z))
	t.Invariant(func(j int, d float64) bool { return Imp(j > x, d <= v) })
	t.Invariant(func(j, k int, d float64) bool { return Imp(j > x || (j == x && k > y), d <= v) })
	t.Invariant(func(j, k, l int, d float64) bool {
		return Imp(j > x || (j == x && (k > y || (k == y && l > z))), d <= v)
	})
	s := sdf.Array3D(a, sdf.V3i{nx, ny, nz}, st)
	d := s.Evaluate(p)
	t.Ensure("at most every copy", Le(d, v))
}
func C07_Array2D(t *T) {
	a := t.SDF2("a")
	p, st := t.Vec2("p"), t.Vec2("step")
	nx, ny := t.Int("nx", 1, 1<<20), t.Int("ny", 1, 1<<20)
	x, y := t.Int("x", 0, 1<<20), t.Int("y", 0, 1<<20)
	t.Require(x < nx && y < ny)
	v := a.Evaluate(r2.Vec{X: p.X - float64(x)*st.X, Y: p.Y - float64(y)*st.Y})
	t.Invariant(func(j int, d float64) bool { return Imp(j > x, d <= v) })
	t.Invariant(func(j, k int, d float64) bool { return Imp(j > x || (j == x && k > y), d <= v) })
	s := sdf.Array2D(a, sdf.V2i{nx, ny}, st)
	t.Ensure("at most every copy", Le(s.Evaluate(p), v))
}

// c is below every copy
func C07_Array2DLeast(t *T) {
	a := t.SDF2("a")
	p, st := t.Vec2("p"), t.Vec2("step")
	nx, ny := t.Int("nx", 1, 1<<20), t.Int("ny", 1, 1<<20)
	c := t.Real("c")
	t.Opt("loopidx")
	t.Require(c <= math.MaxFloat64)
	t.AssumeForall2(nx, ny, func(i, j int) bool {
		return c <= a.Evaluate(r2.Vec{X: p.X - float64(i)*st.X, Y: p.Y - float64(j)*st.Y})
	})
	t.Invariant(func(d float64) bool { return c <= d })
	s := sdf.Array2D(a, sdf.V2i{nx, ny}, st)
	t.Ensure("at least the least copy", Le(c, s.Evaluate(p)))
}

func C07_Array3DLeast(t *T) {
	a := t.SDF3("a")
	p, st := t.Vec3("p"), t.Vec3("step")
	nx, ny, nz := t.Int("nx", 1, 1<<20), t.Int("ny", 1, 1<<20), t.Int("nz", 1, 1<<20)
	c := t.Real("c")
	t.Opt("loopidx")
	t.Require(c <= math.MaxFloat64)
	t.AssumeForall3(nx, ny, nz, func(i, j, k int) bool {
		return c <= a.Evaluate(r3.Vec{X: p.X - float64(i)*st.X, Y: p.Y - float64(j)*st.Y, Z: p.Z - float64(k)*st.Z})
	})
	t.Invariant(func(d float64) bool { return c <= d })
	s := sdf.Array3D(a, sdf.V3i{nx, ny, nz}, st)
	t.Ensure("at least the least copy", Le(c, s.Evaluate(p)))
}

func C07_RotateCopy2D(t *T) {
	a := t.SDF2("a")
	p := t.Vec2("p")
	n := t.Int("n", 1, 1<<20)
	d := sdf.RotateCopy2D(a, n).Evaluate(p)
	step := 2 * math.Pi / float64(n)
	phi := math.Atan2(p.Y, p.X)
	m := math.Floor(phi/step + 0.5)
	if t.Native() { // away from the seam, where rounding picks the copy
		f := phi/step + 0.5
		t.Require(math.Abs(f-math.Round(f)) > 1e-9)
	}
	r := Sqrt(p.X*p.X + p.Y*p.Y)
	q := r2.Vec{X: r * math.Cos(phi-m*step), Y: r * math.Sin(phi-m*step)}
	t.Ensure("the operand turned by whole steps", Eq(d, a.Evaluate(q)))
}
func C07_RotateCopy3D(t *T) {
	a := t.SDF3("a")
	p := t.Vec3("p")
	n := t.Int("n", 1, 1<<20)
	d := sdf.RotateCopy3D(a, n).Evaluate(p)
	step := 2 * math.Pi / float64(n)
	phi := math.Atan2(p.Y, p.X)
	m := math.Floor(phi/step + 0.5)
	if t.Native() { // away from the seam, where rounding picks the copy
		f := phi/step + 0.5
		t.Require(math.Abs(f-math.Round(f)) > 1e-9)
	}
	r := Sqrt(p.X*p.X + p.Y*p.Y)
	q := r3.Vec{X: r * math.Cos(phi-m*step), Y: r * math.Sin(phi-m*step), Z: p.Z}
	t.Ensure("the operand turned by whole steps about z", Eq(d, a.Evaluate(q)))
}

// no copies
func C07_None(t *T) {
	a, b := t.SDF2("a"), t.SDF3("b")
	p, q := t.Vec2("p"), t.Vec3("q")
	n := t.Int("n", -1<<20, 0)
	m := t.Int("m", 1, 1<<20)
	t.Ensure("no 2D rotated copies", sdf.RotateUnion2D(a, n, sdf.Rotate2D(1)).Evaluate(p) > 1e300)
	t.Ensure("no 3D rotated copies", sdf.RotateUnion3D(b, n, sdf.RotateX(1)).Evaluate(q) > 1e300)
	t.Ensure("no 3D copies", sdf.RotateCopy3D(b, n).Evaluate(q) > 1e300)
	t.Ensure("no columns", sdf.Array2D(a, sdf.V2i{n, m}, p).Evaluate(p) > 1e300)
	t.Ensure("no rows", sdf.Array2D(a, sdf.V2i{m, n}, p).Evaluate(p) > 1e300)
	t.Ensure("empty x", sdf.Array3D(b, sdf.V3i{n, m, m}, q).Evaluate(q) > 1e300)
	t.Ensure("empty y", sdf.Array3D(b, sdf.V3i{m, n, m}, q).Evaluate(q) > 1e300)
	t.Ensure("empty z", sdf.Array3D(b, sdf.V3i{m, m, n}, q).Evaluate(q) > 1e300)
	t.Ensure("no positions", sdf.Multi3D(b, nil).Evaluate(q) > 1e300)
	t.Ensure("no directions", sdf.Orient3D(b, q, nil).Evaluate(q) > 1e300)
	t.Ensure("no pattern 3D", sdf.LineOf3D(b, q, q, "").Evaluate(q) > 1e300)
	t.Ensure("no pattern 2D", sdf.LineOf2D(a, p, p, "").Evaluate(p) > 1e300)
}

// copies at listed positions (bounded: up to three)
func copies3(t *T, a sdf.SDF3, p r3.Vec, pos []r3.Vec) float64 {
	var want float64
	for i, v := range pos {
		e := a.Evaluate(r3.Vec{X: p.X - v.X, Y: p.Y - v.Y, Z: p.Z - v.Z})
		if i == 0 {
			want = e
		} else {
			want = math.Min(want, e)
		}
	}
	return want
}
func multi3(t *T, n int) {
	t.Bounded("number of copies: 0 to 3")
	a := t.SDF3("a")
	p := t.Vec3("p")
	var pos d3.Set
	for i := 0; i < n; i++ {
		pos = append(pos, t.Vec3("pos"))
	}
	t.Ensure("least of the copies", Eq(sdf.Multi3D(a, pos).Evaluate(p), copies3(t, a, p, pos)))
}
func C07_Multi3D1(t *T) { multi3(t, 1) }
func C07_Multi3D2(t *T) { multi3(t, 2) }
func C07_Multi3D3(t *T) { multi3(t, 3) }

func lineOf3(t *T, pattern string) {
	t.Bounded("patterns of up to four characters")
	a := t.SDF3("a")
	p, p0, p1 := t.Vec3("p"), t.Vec3("p0"), t.Vec3("p1")
	var pos []r3.Vec
	for i, c := range pattern {
		if c == 'x' {
			f := float64(i) / float64(len(pattern))
			pos = append(pos, r3.Vec{X: p0.X + f*(p1.X-p0.X), Y: p0.Y + f*(p1.Y-p0.Y), Z: p0.Z + f*(p1.Z-p0.Z)})
		}
	}
	t.Ensure("a copy for every x", Eq(sdf.LineOf3D(a, p0, p1, pattern).Evaluate(p), copies3(t, a, p, pos)))
}
func C07_LineOf3D1(t *T) { lineOf3(t, "x") }
func C07_LineOf3D2(t *T) { lineOf3(t, "-x-x") }
func C07_LineOf3D3(t *T) { lineOf3(t, "xx x") }

// a moved copy keeps the box distances the 2D union prunes by
func C07_MovedBox2D(t *T) {
	a := t.SDF2("a")
	p, v := t.Vec2("p"), t.Vec2("v")
	mm := d2.Box(a.Bounds()).MinMaxDist2(r2.Vec{X: p.X - v.X, Y: p.Y - v.Y})
	t.Ensure("box distances", EqV2(mm, d2.Box(sdf.Transform2D(a, sdf.Translate2D(v)).Bounds()).MinMaxDist2(p)))
}

func copies2(t *T, a sdf.SDF2, p r2.Vec, pos []r2.Vec) float64 {
	var want float64
	t.Use(minMaxOrdered())
	for i, v := range pos {
		e := a.Evaluate(r2.Vec{X: p.X - v.X, Y: p.Y - v.Y})
		// a is exact (with C07_MovedBox2D: so is its copy)
		mm := d2.Box(sdf.Transform2D(a, sdf.Translate2D(v)).Bounds()).MinMaxDist2(p)
		t.Require(And(Sqrt(mm.X) <= math.Max(e, 0)+slack(t), e <= Sqrt(mm.Y)+slack(t)))
		if i == 0 {
			want = e
		} else {
			want = math.Min(want, e)
		}
	}
	return want
}
func multi2(t *T, n int) {
	t.Bounded("number of copies: 1 to 2")
	a := t.SDF2("a", "exact")
	p := t.Vec2("p")
	var pos d2.Set
	for i := 0; i < n; i++ {
		pos = append(pos, t.Vec2("pos"))
	}
	want := copies2(t, a, p, pos)
	t.Ensure("least of the copies", Eq(sdf.Multi2D(a, pos).Evaluate(p), want))
}
func C07_Multi2D1(t *T) { multi2(t, 1) }
func C07_Multi2D2(t *T) { multi2(t, 2) }
func lineOf2(t *T, pattern string) {
	t.Bounded("patterns of up to four characters")
	a := t.SDF2("a", "exact")
	p, p0, p1 := t.Vec2("p"), t.Vec2("p0"), t.Vec2("p1")
	var pos []r2.Vec
	for i, c := range pattern {
		if c == 'x' {
			f := float64(i) / float64(len(pattern))
			pos = append(pos, r2.Vec{X: p0.X + f*(p1.X-p0.X), Y: p0.Y + f*(p1.Y-p0.Y)})
		}
	}
	want := copies2(t, a, p, pos)
	t.Ensure("a copy for every x", Eq(sdf.LineOf2D(a, p0, p1, pattern).Evaluate(p), want))
}
func C07_LineOf2D1(t *T) { lineOf2(t, "x") }
func C07_LineOf2D2(t *T) { lineOf2(t, "-x-x") }

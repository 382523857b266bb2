//go:build verif

package render

import (
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/internal/d3"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r3"
)

func gridAt(dc *dc3, v sdf.V3i) r3.Vec {
	return r3.Vec{
		X: dc.origin.X + dc.resolution*float64(v[0]),
		Y: dc.origin.Y + dc.resolution*float64(v[1]),
		Z: dc.origin.Z + dc.resolution*float64(v[2]),
	}
}

func anyV3i(t *T, name string) sdf.V3i {
	return sdf.V3i{t.Int(name+".x", 0, 1<<40), t.Int(name+".y", 0, 1<<40), t.Int(name+".z", 0, 1<<40)}
}

func anyDc3(t *T, flags ...string) *dc3 {
	return &dc3{origin: t.Vec3("origin"), resolution: t.Pos("resolution"), s: t.SDF3("s", flags...), cache: map[sdf.V3i]float64{}}
}

// the cache never changes a value: if every cached value is the shape's, it
// stays so and lookups give the shape's value
func C11_DistanceCache(t *T) {
	dc := anyDc3(t)
	v, w := anyV3i(t, "v"), anyV3i(t, "w")
	if t.Native() {
		_, d := dc.Evaluate(v)
		_, e := dc.Evaluate(w)
		_, d2 := dc.Evaluate(v)
		t.Ensure("value of the shape at the grid point", d == dc.s.Evaluate(gridAt(dc, v)) && e == dc.s.Evaluate(gridAt(dc, w)) && d2 == d)
		return
	}
	t.Any("cache", &dc.cache)
	ok := func(k sdf.V3i) bool {
		d, has := dc.cache[k]
		return Imp(has, d == dc.s.Evaluate(gridAt(dc, k)))
	}
	t.Require(ok(v))
	t.Require(ok(w))
	p, d := dc.Evaluate(v)
	t.Ensure("grid point", EqV3(p, gridAt(dc, v)))
	t.Ensure("value of the shape at the grid point", Eq(d, dc.s.Evaluate(gridAt(dc, v))))
	t.Ensure("cache still consistent", ok(w))
}

func direct(t *T) {
	t.Replace((*dc3).Evaluate, func(dc *dc3, v sdf.V3i) (r3.Vec, float64) {
		p := gridAt(dc, v)
		return p, dc.s.Evaluate(p)
	}, "C11_DistanceCache")
}

// a cube judged empty has no surface inside
func C11_EmptyCube(t *T) {
	if t.Native() {
		nativeCutCube(t)
		return
	}
	dc := anyDc3(t, "lip")
	n := t.Int("n", 1, 40)
	at := anyV3i(t, "c")
	t.Any("hdiag", &dc.hdiag)
	t.Require(n < len(dc.hdiag))
	side := dc.resolution * float64(int(1)<<uint(n))
	t.Require(dc.hdiag[n] >= 0 && 4*dc.hdiag[n]*dc.hdiag[n] == 3*side*side)
	direct(t)
	x, y, z := t.Real("x"), t.Real("y"), t.Real("z")
	t.Require(0 <= x && x <= side && 0 <= y && y <= side && 0 <= z && z <= side)
	if dc.IsEmpty(&cube{at, uint(n)}) {
		o := gridAt(dc, at)
		h := side / 2
		c := dc.s.Evaluate(r3.Vec{X: o.X + h, Y: o.Y + h, Z: o.Z + h})
		q := dc.s.Evaluate(r3.Vec{X: o.X + x, Y: o.Y + y, Z: o.Z + z})
		t.Ensure("same side of the surface as the centre", And(Imp(c > 0, q >= 0), Imp(c <= 0, q <= 0)))
	}
}

// half diagonals of the cubes of each level
func C11_HalfDiagonals(t *T) {
	if t.Native() {
		nativeCutCube(t)
		return
	}
	s := t.SDF3("s")
	o, res := t.Vec3("o"), t.Pos("res")
	n := t.Int("n", 1, 63)
	k := t.Int("k", 1, 62) // level 0 is never looked up
	t.Require(k < n)
	side := res * float64(int(1)<<uint(k))
	t.Invariant(func(i int, hdiag []float64) bool {
		return Imp(k < i, hdiag[k] >= 0 && 4*hdiag[k]*hdiag[k] == 3*side*side)
	})
	dc := newDc3(s, o, res, uint(n))
	t.Ensure("one per level", len(dc.hdiag) == n)
	t.Ensure("half the diagonal", dc.hdiag[k] >= 0 && Eq(4*dc.hdiag[k]*dc.hdiag[k], 3*side*side))
	t.Ensure("set up as asked", dc.origin == o && dc.resolution == res)
}

// the eight octants of a cube are kept unless empty
func C11_Subdivide(t *T) {
	if t.Native() {
		nativeMesh(t)
		return
	}
	var empty func(cube) bool
	t.Any("empty", &empty)
	n := t.Int("n", 2, 40)
	c := cube{anyV3i(t, "c"), uint(n)}
	oc := &octree{}
	t.Replace((*dc3).IsEmpty, func(dc *dc3, c *cube) bool { return empty(*c) }, "C11_EmptyCube")
	w, kids := oc.processCube(make([]r3.Triangle, marchingCubesMaxTriangles), c)
	t.Ensure("no triangles", w == 0)
	s := int(1) << uint(n-1)
	cnt := 0
	for o := 0; o < 8; o++ {
		sub := cube{sdf.V3i{c.V3i[0] + s*(o&1), c.V3i[1] + s*(o>>1&1), c.V3i[2] + s*(o>>2)}, uint(n - 1)}
		if !empty(sub) {
			cnt++
			found := false
			for _, k := range kids {
				found = Or(found, k == sub)
			}
			t.Ensure("octant kept", found)
		}
	}
	t.Ensure("nothing else", len(kids) == cnt)
}

// a smallest cube is meshed from the values at its corners
func C11_SmallestCube(t *T) {
	if t.Native() {
		nativeMesh(t)
		return
	}
	dc := anyDc3(t)
	oc := &octree{dc: *dc}
	direct(t)
	c := anyV3i(t, "c")
	k := t.Int("k", 0, 7)
	calls, m := 0, t.Int("m", 0, 5)
	buf := make([]r3.Triangle, 7)
	t.Replace(mcToTriangles, func(dst []r3.Triangle, p [8]r3.Vec, v [8]float64, x float64) int {
		calls++
		t.Ensure("level zero", x == 0)
		t.Ensure("room", len(dst) == len(buf))
		off := [8][3]int{{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {0, 0, 2}, {2, 0, 2}, {2, 2, 2}, {0, 2, 2}}
		for i := range p {
			q := gridAt(dc, sdf.V3i{c[0] + off[i][0], c[1] + off[i][1], c[2] + off[i][2]})
			t.Ensure("corner", EqV3(p[i], q))
			t.Ensure("value", Eq(v[i], dc.s.Evaluate(q)))
		}
		return m
	}, "C12_Patterns")
	w, kids := oc.processCube(buf, cube{c, 1})
	_ = k
	t.Ensure("meshed once", calls == 1 && w == m && len(kids) == 0)
}

// the first cube covers the shape's box
func C11_Root(t *T) {
	if t.Native() {
		nativeMesh(t)
		return
	}
	s := t.SDF3("s")
	b := s.Bounds()
	sz := d3.Box(b).Size()
	t.Require(sz.X > 0 && sz.Y > 0 && sz.Z > 0)
	cells := t.Int("cells", 2, 1<<20)
	t.Replace(newDc3, func(s sdf.SDF3, origin r3.Vec, res float64, n uint) *dc3 {
		return &dc3{origin: origin, resolution: res, hdiag: make([]float64, n), s: s}
	}, "C11_HalfDiagonals")
	oc := NewOctreeRenderer(s, cells)
	t.Ensure("one cube", len(oc.todo) == 1 && oc.unwritten.Len() == 0)
	c := oc.todo[0]
	dc := &oc.dc
	n := int(c.n)
	t.Ensure("levels", n >= 1 && len(dc.hdiag) == n+1)
	t.Ensure("at the origin", c.V3i == sdf.V3i{})
	long := math.Max(sz.X, math.Max(sz.Y, sz.Z))
	t.Ensure("cell size", Eq(2*dc.resolution*float64(cells), 1.01*long))
	side := dc.resolution * float64(int(1)<<uint(n))
	o := dc.origin
	t.Ensure("below the box", o.X <= b.Min.X && o.Y <= b.Min.Y && o.Z <= b.Min.Z)
	t.Ensure("above the box", o.X+side >= b.Max.X && o.Y+side >= b.Max.Y && o.Z+side >= b.Max.Z)
}

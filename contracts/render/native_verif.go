//go:build verif

package render

import (
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/internal/d3"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r3"
)

// nativeMesh runs the octree renderer on random solids with random buffer
// lengths and compares what it delivers with the meshes of all smallest cubes.
// Only run natively, to find inputs for violated obligations.
func nativeMesh(t *T) {
	var shapes []sdf.SDF3
	unit := func(name string, lo, hi int) float64 { return float64(t.Int(name, lo, hi)) / 16 }
	for i := t.Int("shapes", 2, 3); i > 0; i-- {
		var s sdf.SDF3
		if t.Bool("box") {
			s = must3.Box(r3.Vec{X: unit("sx", 3, 40), Y: unit("sy", 3, 40), Z: unit("sz", 3, 40)}, 0)
		} else {
			s = must3.Sphere(unit("r", 3, 20))
		}
		shapes = append(shapes, sdf.Transform3D(s, sdf.Translate3D(r3.Vec{X: unit("x", -40, 40), Y: unit("y", -40, 40), Z: unit("z", -40, 40)})))
	}
	s := sdf.Union3D(shapes...)
	cells := t.Int("cells", 2, 9)
	oc := NewOctreeRenderer(s, cells)
	root, dc := oc.todo[0], oc.dc
	b := s.Bounds()
	sz := d3.Box(b).Size()
	long := math.Max(sz.X, math.Max(sz.Y, sz.Z))
	t.Ensure("cell size", math.Abs(2*dc.resolution*float64(cells)-1.01*long) < 1e-9*long)
	n := int(root.n)
	span := dc.resolution * float64(int(1)<<uint(n))
	o := dc.origin
	t.Ensure("covers the bounds", o.X <= b.Min.X && o.Y <= b.Min.Y && o.Z <= b.Min.Z &&
		o.X+span >= b.Max.X && o.Y+span >= b.Max.Y && o.Z+span >= b.Max.Z && root.V3i == sdf.V3i{})
	var want []r3.Triangle
	off := [8][3]int{{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {0, 0, 2}, {2, 0, 2}, {2, 2, 2}, {0, 2, 2}}
	for x := 0; x < 1<<uint(n); x += 2 {
		for y := 0; y < 1<<uint(n); y += 2 {
			for z := 0; z < 1<<uint(n); z += 2 {
				var p [8]r3.Vec
				var v [8]float64
				for i := range p {
					p[i] = gridAt(&dc, sdf.V3i{x + off[i][0], y + off[i][1], z + off[i][2]})
					v[i] = s.Evaluate(p[i])
				}
				var tri [marchingCubesMaxTriangles]r3.Triangle
				k := mcToTriangles(tri[:], p, v, 0)
				want = append(want, tri[:k]...)
			}
		}
	}
	var got []r3.Triangle
	fixed := t.Int("buffer", 0, 9)
	for calls := 0; ; calls++ {
		size := fixed
		if size == 0 {
			size = t.Int("len", 1, 30)
		}
		buf := make([]r3.Triangle, size)
		k, err := oc.ReadTriangles(buf)
		got = append(got, buf[:k]...)
		if err == io.EOF {
			break
		}
		if calls > 100000 {
			t.Ensure("the end is reached", false)
			return
		}
	}
	key := func(ts []r3.Triangle) []string {
		ks := make([]string, len(ts))
		for i, x := range ts {
			ks[i] = fmt.Sprint(x)
		}
		sort.Strings(ks)
		return ks
	}
	a, w := key(got), key(want)
	same := len(a) == len(w)
	for i := 0; same && i < len(a); i++ {
		same = a[i] == w[i]
	}
	t.Ensure("the triangles of every smallest cube, each once", same)
}

type cutPlane struct {
	n r3.Vec
	d float64
}

func (c cutPlane) Evaluate(p r3.Vec) float64 { return r3.Dot(c.n, p) - c.d }
func (c cutPlane) Bounds() r3.Box {
	return r3.Box{Min: r3.Vec{X: -1, Y: -1, Z: -1}, Max: r3.Vec{X: 1, Y: 1, Z: 1}}
}

// nativeCutCube cuts a cube of any level by a plane passing near one of its
// corners: the cube must not be skipped.
func nativeCutCube(t *T) {
	oc := NewOctreeRenderer(cutPlane{}, t.Int("cells", 2, 600))
	n := uint(t.Int("n", 1, int(oc.todo[0].n)))
	at := sdf.V3i{t.Int("x", 0, 5) << n, t.Int("y", 0, 5) << n, t.Int("z", 0, 5) << n}
	side := oc.dc.resolution * float64(int(1)<<n)
	o := gridAt(&oc.dc, at)
	corner := o
	var nrm r3.Vec
	dir := func(up bool, c, n *float64) {
		*n = -1
		if up {
			*c += side
			*n = 1
		}
	}
	dir(t.Bool("ux"), &corner.X, &nrm.X)
	dir(t.Bool("uy"), &corner.Y, &nrm.Y)
	dir(t.Bool("uz"), &corner.Z, &nrm.Z)
	if t.Bool("skew") {
		nrm.X *= float64(t.Int("wx", 1, 9))
		nrm.Y *= float64(t.Int("wy", 1, 9))
	}
	nrm = r3.Unit(nrm)
	off := side * float64(t.Int("inset", 1, 40)) / 4096
	plane := cutPlane{nrm, r3.Dot(nrm, corner) - off}
	oc.dc.s = plane
	t.Ensure("a cube with surface inside is kept", !oc.dc.IsEmpty(&cube{at, n}))
	if t.Bool("inverted") {
		return
	}
	nativeMesh(t)
}

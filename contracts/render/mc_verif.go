//go:build verif

package render

import (
	"math"

	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r3"
)

// corners of the four corners of each face, counter-clockwise seen from outside
var mcSpecFaces = [6][4]int{
	{0, 3, 2, 1}, {4, 5, 6, 7},
	{0, 1, 5, 4}, {2, 3, 7, 6},
	{0, 4, 7, 3}, {1, 2, 6, 5},
}

// the edges of the cube: number of the edge between corners a and b
func mcSpecEdge(a, b int) int {
	if a > b {
		a, b = b, a
	}
	switch a*8 + b {
	case 1:
		return 0
	case 10:
		return 1
	case 19:
		return 2
	case 3:
		return 3
	case 37:
		return 4
	case 46:
		return 5
	case 55:
		return 6
	case 39:
		return 7
	case 4:
		return 8
	case 13:
		return 9
	case 22:
		return 10
	case 31:
		return 11
	}
	return -1
}

// mesh of the cube with the corners of m inside: every vertex lies on an edge
// with one end inside; the border of the mesh cuts each run of inside corners
// off every face, keeping it on the left seen from outside, so the meshes of
// two cubes sharing a face meet there with opposite directions.
func mcPatterns(t *T, from, to int) {
	if t.Native() {
		for m := from; m < to; m++ {
			mcPatternUnit(t, m)
		}
		return
	}
	t.Opt("nomerge")
	for m := from; m < to; m++ {
		if t.Bool("this") { // each pattern on its own path
			mcPattern(t, m)
			return
		}
	}
}

func mcPattern(t *T, m int) {
	var p [8]r3.Vec
	var v [8]float64
	t.Any("p", &p)
	t.Any("v", &v)
	x := t.Real("x")
	var in [8]bool
	for i := range v {
		in[i] = m>>uint(i)&1 == 1
		t.Require((v[i] < x) == in[i])
	}
	corner := func(q r3.Vec) int {
		for i := range p {
			if Same(p[i].X, q.X) && Same(p[i].Y, q.Y) && Same(p[i].Z, q.Z) {
				return i
			}
		}
		return -1
	}
	badEdge := false
	t.Replace(mcInterpolate, func(p1, p2 r3.Vec, v1, v2, lvl float64) r3.Vec {
		a, b := corner(p1), corner(p2)
		if a > b {
			a, b = b, a
			v1, v2 = v2, v1
		}
		if a < 0 || mcSpecEdge(a, b) < 0 || !Same(v1, v[a]) || !Same(v2, v[b]) || !Same(lvl, x) {
			badEdge = true
			return r3.Vec{}
		}
		return r3.Vec{X: float64(1 + a), Y: float64(1 + b)}
	}, "C12_Interpolate")
	var all, kept []r3.Triangle
	dropped := false
	t.Replace(r3.Triangle.IsDegenerate, func(tri r3.Triangle, tol float64) bool {
		t.Ensure("only slivers are dropped", tol <= 1e-9)
		all = append(all, tri)
		if len(all) <= 2 && t.Bool("sliver") { // the others are treated alike
			dropped = true
			return true
		}
		kept = append(kept, tri)
		return false
	}, "the definition of sliver: gonum r3.Triangle.IsDegenerate")
	dst := make([]r3.Triangle, marchingCubesMaxTriangles)
	n := mcToTriangles(dst, p, v, x)
	t.Ensure("vertices are interpolated on edges", !badEdge)
	t.Ensure("all but slivers returned", n == len(kept))
	for i := 0; i < n && i < len(kept); i++ {
		t.Ensure("all but slivers returned, as they are", dst[i] == kept[i])
	}
	if dropped {
		return
	}
	mcBorder(t, in, all)
}

// the same on the unit cube with values -1 and 1
func mcPatternUnit(t *T, m int) {
	p := [8]r3.Vec{{}, {X: 1}, {X: 1, Y: 1}, {Y: 1}, {Z: 1}, {X: 1, Z: 1}, {X: 1, Y: 1, Z: 1}, {Y: 1, Z: 1}}
	var v [8]float64
	var in [8]bool
	for i := range v {
		in[i] = m>>uint(i)&1 == 1
		v[i] = 1
		if in[i] {
			v[i] = -1
		}
	}
	dst := make([]r3.Triangle, marchingCubesMaxTriangles)
	n := mcToTriangles(dst, p, v, 0)
	var all []r3.Triangle
	for _, tri := range dst[:n] {
		for k, q := range tri {
			tri[k] = r3.Vec{}
			for a := range p {
				for b := a + 1; b < 8; b++ {
					if mcSpecEdge(a, b) >= 0 && q == r3.Scale(0.5, r3.Add(p[a], p[b])) {
						tri[k] = r3.Vec{X: float64(1 + a), Y: float64(1 + b)}
					}
				}
			}
		}
		all = append(all, tri)
	}
	mcBorder(t, in, all)
}

func mcBorder(t *T, in [8]bool, all []r3.Triangle) {
	// directed sides, counted with sign: side a-b of edges a and b
	var cnt [144]int
	code := func(q r3.Vec) int {
		a, b := int(q.X)-1, int(q.Y)-1
		ok := a >= 0 && a < 8 && b < 8 && a < b && in[a] != in[b]
		t.Ensure("vertex on an edge crossing the surface", ok)
		if !ok {
			return 0
		}
		return mcSpecEdge(a, b)
	}
	for _, tri := range all {
		for k := 0; k < 3; k++ {
			a, b := code(tri[k]), code(tri[(k+1)%3])
			if a < b {
				cnt[a*12+b]++
			} else {
				cnt[b*12+a]--
			}
		}
	}
	for _, f := range mcSpecFaces {
		for k := 0; k < 4; k++ {
			if !in[f[k]] || in[f[(k+1)%4]] {
				continue
			}
			// leaving the run of inside corners that ends here; it began at j
			j := k
			for in[f[(j+3)%4]] {
				j = (j + 3) % 4
			}
			a, b := mcSpecEdge(f[(j+3)%4], f[j]), mcSpecEdge(f[k], f[(k+1)%4])
			if a < b {
				cnt[a*12+b]--
			} else {
				cnt[b*12+a]++
			}
		}
	}
	bad := false
	for i := range cnt {
		if cnt[i] != 0 {
			bad = true
		}
	}
	t.Ensure("border matches the faces", !bad)
}

func C12_Patterns0(t *T) { mcPatterns(t, 0, 32) }
func C12_Patterns1(t *T) { mcPatterns(t, 32, 64) }
func C12_Patterns2(t *T) { mcPatterns(t, 64, 96) }
func C12_Patterns3(t *T) { mcPatterns(t, 96, 128) }
func C12_Patterns4(t *T) { mcPatterns(t, 128, 160) }
func C12_Patterns5(t *T) { mcPatterns(t, 160, 192) }
func C12_Patterns6(t *T) { mcPatterns(t, 192, 224) }
func C12_Patterns7(t *T) { mcPatterns(t, 224, 256) }

// vertices divide the edge as the values do
func C12_Interpolate(t *T) {
	p, q := t.Vec3("p"), t.Vec3("q")
	a, b, x := t.Real("a"), t.Real("b"), t.Real("x")
	t.Require((a < x) != (b < x))
	r := mcInterpolate(p, q, a, b, x)
	w := Div(x-a, b-a)
	lin := r3.Vec{X: p.X + w*(q.X-p.X), Y: p.Y + w*(q.Y-p.Y), Z: p.Z + w*(q.Z-p.Z)}
	near, nearq := math.Abs(x-a) < 1e-11, math.Abs(x-b) < 1e-11
	if !near && !nearq {
		t.Ensure("linear", EqV3(r, lin))
	} else {
		u := t.Real("u")
		t.Ensure("at or between the ends", Imp(Or(Eq(r.X, p.X), Eq(u*(q.X-p.X), r.X-p.X)), true))
		if !nearq {
			t.Ensure("near the first end", Or(EqV3(r, p), EqV3(r, lin)))
		} else if !near {
			t.Ensure("near the second end", Or(EqV3(r, q), EqV3(r, lin)))
		} else {
			m := r3.Vec{X: (p.X + q.X) / 2, Y: (p.Y + q.Y) / 2, Z: (p.Z + q.Z) / 2}
			t.Ensure("near both ends", Or(Or(EqV3(r, p), EqV3(r, q)), Or(EqV3(r, m), EqV3(r, lin))))
		}
	}
	s := mcInterpolate(q, p, b, a, x)
	t.Ensure("the same from both ends", EqV3(r, s))
}

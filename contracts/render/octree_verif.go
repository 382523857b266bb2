//go:build verif

package render

import (
	"io"

	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r3"
)

// processing a cube emits the next few triangles of out and the next few
// cubes of kids, both arbitrary; the cubes processed are those of todo in order.
type ghost struct {
	t    *T
	out  []r3.Triangle
	kids []cube
	todo []cube
	g, h int // emitted so far
	p    int // cubes processed so far
}

func (g *ghost) process(oc *octree, dst []r3.Triangle, c cube) (int, []cube) {
	t := g.t
	t.Ensure("room for every triangle of a cube", len(dst) >= marchingCubesMaxTriangles)
	t.Ensure("cubes are processed in order, each once", g.p < len(g.todo) && c == g.todo[g.p])
	n := t.Int("ntri", 0, marchingCubesMaxTriangles)
	m := t.Int("nkids", 0, 8)
	t.Require(n <= len(g.out)-g.g && m <= len(g.kids)-g.h)
	copy(dst[:n], g.out[g.g:])
	kids := g.kids[g.h : g.h+m : g.h+m]
	g.g += n
	g.h += m
	g.p++
	return n, kids
}

func ghostOctree(t *T) (*ghost, *octree, []r3.Triangle, []cube) {
	g := &ghost{t: t}
	t.Any("out", &g.out)
	t.Any("kids", &g.kids)
	var unw []r3.Triangle
	t.Any("unwritten", &unw)
	t.Any("todo", &g.todo)
	oc := &octree{todo: g.todo, unwritten: TriangleBuffer{buf: unw}}
	t.Replace((*octree).processCube, g.process, "C11_SmallestCube, C11_Subdivide, C12_Patterns")
	return g, oc, unw, g.todo
}

func C10_OctreeRead(t *T) {
	if t.Native() {
		nativeMesh(t)
		return
	}
	g, oc, unw, todo := ghostOctree(t)
	var dst []r3.Triangle
	t.Any("dst", &dst, "len>=1")
	k := t.Int("k", 0, 1<<40)
	j := t.Int("j", 0, 1<<40)
	t.Invariant(func() bool { return g.p <= len(todo) })
	t.Invariant(func() bool { return g.g <= len(g.out) && g.h <= len(g.kids) })
	t.Invariant(func() bool { return k >= len(unw) || k >= len(dst) || dst[k] == unw[k] })
	t.Invariant(func(n int, dst []r3.Triangle) bool { return n == g.g && n <= len(dst) })
	t.Invariant(func(n int, dst []r3.Triangle) bool { return k >= n || dst[k] == g.out[k] })
	t.Invariant(func(newCubes []cube) bool { return len(newCubes) == g.h })
	t.Invariant(func(newCubes []cube) bool { return j >= len(newCubes) || newCubes[j] == g.kids[j] })
	n, err := oc.ReadTriangles(dst)
	rest := oc.unwritten.buf
	t.Ensure("no more than fit", n <= len(dst))
	t.Ensure("triangles conserved", n+len(rest) == len(unw)+g.g)
	if k < n && k < len(unw) {
		t.Ensure("delivered in order", dst[k] == unw[k])
	}
	if len(unw)+k < n {
		t.Ensure("new triangles delivered in order", dst[len(unw)+k] == g.out[k])
	}
	if k < len(rest) {
		if n+k < len(unw) {
			t.Ensure("kept in order", rest[k] == unw[n+k])
		} else {
			t.Ensure("new triangles kept in order", rest[k] == g.out[n+k-len(unw)])
		}
	}
	left := len(todo) - g.p
	t.Ensure("cubes conserved", len(oc.todo) == left+g.h)
	if j < left {
		t.Ensure("unprocessed cubes stay", oc.todo[j] == todo[g.p+j])
	}
	if j < g.h {
		t.Ensure("new cubes are queued", oc.todo[left+j] == g.kids[j])
	}
	t.Ensure("end only when nothing is left", Imp(err != nil, err == io.EOF && len(rest) == 0 && len(oc.todo) == 0))
	t.Ensure("progress", err != nil || n > 0 || g.p > 0)
}

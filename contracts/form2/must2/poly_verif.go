//go:build verif

package must2

import (
	"math"

	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
)

// ---- polygons ----

// chain is the closed chain of m edges that vs describes: a last vertex within
// the tolerance of the first stands for it.
func chain(t *T, vs []r2.Vec) (m int) {
	n := len(vs)
	f, l := vs[0], vs[n-1]
	if math.Abs(f.X-l.X) <= tolerance && math.Abs(f.Y-l.Y) <= tolerance {
		return n - 1
	}
	return n
}

func at(vs []r2.Vec, m, i int) r2.Vec {
	if i >= m {
		return vs[0]
	}
	return vs[i]
}

// edges are the facts about the polygon's data that Evaluate relies on, for an edge ab.
func edge(a, b, v r2.Vec, l float64) bool {
	return And(And(l >= 0, And(Eq(v.X*l, b.X-a.X), Eq(v.Y*l, b.Y-a.Y))),
		And(Imp(l <= 0, And(v.X == 0, v.Y == 0)), Imp(l > 0, Eq(v.X*v.X+v.Y*v.Y, 1))))
}

func sub(a, b r2.Vec) r2.Vec    { return r2.Vec{X: a.X - b.X, Y: a.Y - b.Y} }
func cross(a, b r2.Vec) float64 { return a.X*b.Y - a.Y*b.X }
func dot(a, b r2.Vec) float64   { return a.X*b.X + a.Y*b.Y }

// below: c is at most the squared distance from p to every point of the
// segment from a to b = a+l*d, d a unit vector.
func below(p, a, b, d r2.Vec, l, c float64) bool {
	pa, pb := sub(p, a), sub(p, b)
	x, y := dot(pa, d), cross(pa, d)
	return And(And(Imp(x <= 0, Le(c, dot(pa, pa))), Imp(x > l, Le(c, dot(pb, pb)))), Imp(And(x > 0, x <= l), Le(c, y*y)))
}

// turns is what edge ab adds to the winding number around p: edges that pass
// the ray from p to the right upwards count one, downwards minus one.
func turns(p, a, b r2.Vec) int {
	left := cross(sub(b, a), sub(p, a))
	if a.Y <= p.Y {
		if b.Y > p.Y && left > 0 {
			return 1
		}
	} else if b.Y <= p.Y && left < 0 {
		return -1
	}
	return 0
}

// below means what it says
func C15_SegmentDistance(t *T) {
	p, a, d := t.Vec2("p"), t.Vec2("a"), t.Vec2("d")
	l := t.NonNeg("l")
	if t.Native() {
		n := math.Hypot(d.X, d.Y)
		t.Require(n > 1e-3)
		d = r2.Vec{X: d.X / n, Y: d.Y / n}
		if l == 0 {
			d = r2.Vec{}
		}
	}
	b := r2.Vec{X: a.X + l*d.X, Y: a.Y + l*d.Y}
	t.Require(edge(a, b, d, l))
	c, u := t.Real("c"), t.In("u", 0, 1)
	pa, pb := sub(p, a), sub(p, b)
	x, y := dot(pa, d), cross(pa, d)
	q := func(u float64) float64 {
		v := r2.Vec{X: pa.X - u*(b.X-a.X), Y: pa.Y - u*(b.Y-a.Y)}
		return dot(v, v)
	}
	t.Have("point", Imp(l > 0, Eq(q(u), (x-u*l)*(x-u*l)+y*y)))
	t.Have("first vertex", Imp(l > 0, Eq(dot(pa, pa), x*x+y*y)))
	t.Have("last vertex", Imp(l > 0, Eq(dot(pb, pb), (x-l)*(x-l)+y*y)))
	if t.Bool("all") {
		t.Require(below(p, a, b, d, l, c))
		t.Ensure("at most the squared distance of every point", Le(c, q(u)))
		return
	}
	// the point of the segment nearest to p
	near := 0.0
	if x > 0 {
		near = 1
		if x <= l {
			near = x / l
		}
	}
	t.Require(c <= q(near))
	t.Ensure("at least the squared distance of some point", below(p, a, b, d, l, c))
}

// a polygon is made of the edges between neighbouring vertices and closes
func C15_PolygonEdges(t *T) {
	if t.Native() {
		nativePolygon(t)
		return
	}
	var vs []r2.Vec
	t.Any("vertex", &vs, "len>=3")
	m := chain(t, vs)
	k := t.Int("edge", 0, 1<<40)
	t.Require(k < m)
	c0, c1 := at(vs, m, k), at(vs, m, k+1)
	lo, hi := t.Vec2("lo"), t.Vec2("hi")
	t.AssumeForall(len(vs), func(i int) bool { return InBox2(vs[i], r2.Box{Min: lo, Max: hi}) })
	t.Invariant(func(i int, vector []r2.Vec) bool { return Imp(k >= i, And(vector[k].X == 0, vector[k].Y == 0)) })
	t.Invariant(func(i int, vector []r2.Vec, length []float64) bool { return Imp(k < i, edge(c0, c1, vector[k], length[k])) })
	t.Invariant(func(i int, vmin, vmax r2.Vec) bool { return Imp(k < i, InBox2(c0, r2.Box{Min: vmin, Max: vmax})) })
	t.Invariant(func(i int, vmin, vmax r2.Vec) bool { return Contains2(r2.Box{Min: lo, Max: hi}, r2.Box{Min: vmin, Max: vmax}) })
	s := Polygon(vs).(*polygon)
	t.Ensure("edges", And(len(s.vertex) == m+1, And(len(s.vector) == m, len(s.length) == m)))
	t.Ensure("vertices", And(EqV2(s.vertex[k], c0), EqV2(s.vertex[k+1], c1)))
	t.Ensure("edge data", edge(c0, c1, s.vector[k], s.length[k]))
	t.Ensure("vertices inside bounds", InBox2(c0, s.Bounds()))
	t.Ensure("bounds are tight", Contains2(r2.Box{Min: lo, Max: hi}, s.Bounds()))
}

// anyPolygon is any polygon satisfying C15_PolygonEdges, m its number of edges.
func anyPolygon(t *T) (s *polygon, m int) {
	s = &polygon{}
	t.Any("vertex", &s.vertex, "len>=3")
	t.Any("vector", &s.vector)
	t.Any("length", &s.length)
	m = t.Int("m", 2, 1<<40)
	t.Require(len(s.vertex) == m+1)
	t.Require(len(s.vector) == m)
	t.Require(len(s.length) == m)
	t.Require(EqV2(s.vertex[m], s.vertex[0]))
	t.AssumeForall(m, func(i int) bool { return edge(s.vertex[i], s.vertex[i+1], s.vector[i], s.length[i]) })
	return s, m
}

// the magnitude is at most the distance to every point of every edge
func C15_PolygonDistance(t *T) {
	if t.Native() {
		nativePolygon(t)
		return
	}
	p := t.Vec2("p")
	s, m := anyPolygon(t)
	k := t.Int("k", 0, 1<<40)
	t.Require(k < m)
	u := t.In("u", 0, 1)
	a, b := s.vertex[k], s.vertex[k+1]
	pa, pb := sub(p, a), sub(p, b)
	d, l := s.vector[k], s.length[k]
	x, y := dot(pa, d), cross(pa, d)
	q := r2.Vec{X: pa.X - u*(b.X-a.X), Y: pa.Y - u*(b.Y-a.Y)}
	D := dot(q, q)
	t.Have("edge", edge(a, b, d, l))
	t.Have("point", Imp(l > 0, Eq(D, (x-u*l)*(x-u*l)+y*y)))
	t.Have("first vertex", Imp(l > 0, Eq(dot(pa, pa), x*x+y*y)))
	t.Have("last vertex", Imp(l > 0, Eq(dot(pb, pb), (x-l)*(x-l)+y*y)))
	t.Have("no length", Imp(l <= 0, And(D == dot(pa, pa), x == 0)))
	t.Have("before", Imp(x <= 0, dot(pa, pa) <= D))
	t.Have("after", Imp(x > l, dot(pb, pb) <= D))
	t.Have("beside", Imp(And(x > 0, x <= l), y*y <= D))
	t.Opt("loopidx")
	t.Invariant(func(i int, pb r2.Vec) bool { return EqV2(pb, sub(p, s.vertex[i])) })
	t.Invariant(func(dd float64) bool { return dd >= 0 })
	t.Invariant(func(i int, dd float64) bool { return Imp(i > k, dd <= D) })
	e := s.Evaluate(p)
	t.Ensure("at most the distance to every edge", e*e <= D)
}

// and not less than the distance to the nearest
func C15_PolygonNearest(t *T) {
	if t.Native() {
		nativePolygon(t)
		return
	}
	p := t.Vec2("p")
	s, m := anyPolygon(t)
	c := t.Real("c")
	t.Require(c <= math.MaxFloat64)
	t.AssumeForall(m, func(i int) bool { return below(p, s.vertex[i], s.vertex[i+1], s.vector[i], s.length[i], c) })
	t.Opt("loopidx")
	t.Invariant(func(i int, pb r2.Vec) bool { return EqV2(pb, sub(p, s.vertex[i])) })
	t.Invariant(func(dd float64) bool { return dd >= 0 })
	t.Invariant(func(dd float64) bool { return c <= dd })
	e := s.Evaluate(p)
	t.Ensure("at least the distance to the nearest edge", c <= e*e)
}

// negative where the edges wind around the point
func C15_PolygonSign(t *T) {
	if t.Native() {
		nativePolygon(t)
		return
	}
	p := t.Vec2("p")
	s, m := anyPolygon(t)
	var W []int // winding number of the first i edges
	t.Any("W", &W, "len>=1")
	t.Require(len(W) == m+1)
	t.Require(W[0] == 0)
	t.AssumeForall(m, func(i int) bool { return W[i+1] == W[i]+turns(p, s.vertex[i], s.vertex[i+1]) })
	t.Opt("loopidx")
	t.Invariant(func(i int, pb r2.Vec) bool { return EqV2(pb, sub(p, s.vertex[i])) })
	t.Invariant(func(dd float64) bool { return dd >= 0 })
	t.Invariant(func(i, wn int) bool { return wn == W[i] })
	e := s.Evaluate(p)
	t.Ensure("not positive inside", Imp(W[m] != 0, e <= 0))
	t.Ensure("not negative outside", Imp(W[m] == 0, e >= 0))
}

// the solid is inside any box that contains the vertices
func C15_PolygonBounds(t *T) {
	if t.Native() {
		nativePolygon(t)
		return
	}
	p := t.Vec2("p")
	s, m := anyPolygon(t)
	b := t.Box2("b")
	t.AssumeForall(m+1, func(i int) bool { return InBox2(s.vertex[i], b) })
	t.Require(!InBox2(p, b))
	left := p.X < b.Min.X
	y0 := s.vertex[0].Y
	t.Opt("loopidx")
	t.Invariant(func(i int, pb r2.Vec) bool { return EqV2(pb, sub(p, s.vertex[i])) })
	t.Invariant(func(dd float64) bool { return dd > 0 })
	t.Invariant(func(i, wn int) bool {
		if !left {
			return wn == 0
		}
		n := 0
		if s.vertex[i].Y > p.Y {
			n++
		}
		if y0 > p.Y {
			n--
		}
		return wn == n
	})
	e := s.Evaluate(p)
	t.Ensure("outside the bounds is outside the polygon", e > 0)
}

// ---- lists of vertices ----

// the builder returns the vertices it was given, in order or reversed
func C15_Vertices(t *T) {
	var vs []r2.Vec
	t.Any("vertex", &vs, "len>=1")
	k := t.Index("k", len(vs))
	p := NewPolygon()
	rev := t.Bool("reverse")
	if rev {
		p.Reverse()
	}
	if t.Bool("close") {
		p.Close()
	}
	n := len(vs)
	t.InvariantAll(func(j, i int) bool {
		return j < 0 || j >= i || len(p.vlist) == i && p.vlist[j] == polygonVertex{vertex: vs[j]}
	})
	t.InvariantAll(func(j, i int, v []r2.Vec) bool {
		if rev {
			return j < 0 || j >= i || v[n-1-j] == vs[j]
		}
		return j < 0 || j >= i || v[j] == vs[j]
	})
	for i := t.Int("dropped", 0, 3); i > 0 && t.Native(); i-- {
		p.Add(1, 2)
		p.Drop()
	}
	p.AddV2Set(vs)
	out := p.Vertices()
	t.Ensure("as many", len(out) == n)
	at := k
	if rev {
		at = n - 1 - k
	}
	t.Ensure("in order", out[at] == vs[k])
}

// relative vertices are relative to the vertex before
func C15_RelativeVertices(t *T) {
	var vs []r2.Vec
	var rel []bool
	t.Any("vertex", &vs, "len>=1")
	t.Any("relative", &rel, "len>=1")
	n := len(vs)
	t.Require(len(rel) >= n)
	t.Require(!rel[0])
	W := make([]r2.Vec, n) // where the vertices are
	if t.Native() {
		for i := range W {
			W[i] = vs[i]
			if rel[i] {
				W[i] = r2.Vec{X: vs[i].X + W[i-1].X, Y: vs[i].Y + W[i-1].Y}
			}
		}
	} else {
		t.Any("W", &W)
		t.Require(len(W) == n)
		t.AssumeForall(n, func(i int) bool {
			if rel[i] {
				return W[i] == r2.Vec{X: vs[i].X + W[i-1].X, Y: vs[i].Y + W[i-1].Y}
			}
			return W[i] == vs[i]
		})
	}
	p := NewPolygon()
	given := func(j int) polygonVertex { return polygonVertex{vertex: vs[j], relative: rel[j]} }
	t.InvariantAll(func(j, i int) bool {
		return j < 0 || j >= i || len(p.vlist) == i && p.vlist[j] == given(j)
	})
	for i := 0; i < n; i++ {
		v := p.Add(vs[i].X, vs[i].Y)
		if rel[i] {
			v.Rel()
		}
	}
	t.ClearInvariants()
	t.InvariantAll(func(j, i int) bool {
		if j < 0 || j >= n {
			return true
		}
		if j < i {
			return p.vlist[j] == polygonVertex{vertex: W[j]}
		}
		return p.vlist[j] == given(j)
	})
	t.InvariantAll(func(j, i int, v []r2.Vec) bool {
		return j < 0 || j >= i || v[j] == W[j]
	})
	k := t.Index("k", n)
	out := p.Vertices()
	t.Ensure("as many", len(out) == n)
	t.Ensure("offset from the vertex before", out[k] == W[k])
}

// a regular polygon: the first vertex on the X axis, every next one the last
// turned by a full turn over the number of vertices
func C15_Nagon(t *T) {
	n := t.Int("n", 3, 1<<40)
	if t.Native() {
		n = 3 + n%60
	}
	r := t.Real("radius")
	a := 2 * math.Pi / float64(n)
	sin, cos := math.Sin(a), math.Cos(a)
	turned := func(q, p r2.Vec) bool { return EqV2(q, r2.Vec{X: cos*p.X - sin*p.Y, Y: sin*p.X + cos*p.Y}) }
	t.Opt("loopidx")
	t.InvariantAll(func(j, i int, v []r2.Vec) bool {
		return j < 0 || j >= i-1 || turned(v[j+1], v[j])
	})
	t.Invariant(func(i int, v []r2.Vec, p r2.Vec) bool {
		if i == 0 {
			return p == r2.Vec{X: r}
		}
		return v[0] == r2.Vec{X: r} && turned(p, v[i-1])
	})
	v := Nagon(n, r)
	t.Ensure("vertices", len(v) == n)
	k := t.Index("k", n-1)
	t.Ensure("first", v[0] == r2.Vec{X: r})
	t.Ensure("next", turned(v[k+1], v[k]))
	t.Ensure("none for less than three", Nagon(t.Int("few", -5, 2), r) == nil)
}

// nativePolygon makes polygons of random vertices, repeated ones and closed
// lists among them, and measures them.
func nativePolygon(t *T) {
	n := t.Int("n", 3, 7)
	all := make([]r2.Vec, n, n+3)
	for i := range all {
		all[i] = r2.Vec{X: float64(t.Int("x", -4, 4)), Y: float64(t.Int("y", -4, 4))}
		if i > 0 && t.Int("repeat", 0, 9) == 0 {
			all[i] = all[i-1]
		}
	}
	vs := all
	switch t.Int("close", 0, 3) {
	case 0:
		all = append(all, all[0])
		vs = all
	case 1:
		all = append(all, r2.Vec{X: all[0].X + 5e-10, Y: all[0].Y - 5e-10})
		vs = all
	}
	spare := r2.Vec{X: 77, Y: -77}
	all = append(all, spare)
	keep := append([]r2.Vec(nil), all...)
	ring := append(append([]r2.Vec(nil), vs...), vs[0])
	s := Polygon(vs)
	for i := range all {
		t.Ensure("the list given is left alone", all[i] == keep[i])
		all[i] = r2.Vec{X: 1e3, Y: 1e3} // and not kept
	}
	p := r2.Vec{X: t.In("px", -6, 6), Y: t.In("py", -6, 6)}
	if t.Bool("on the grid") {
		p = r2.Vec{X: math.Round(p.X), Y: math.Round(p.Y)}
	}
	lo, hi := ring[0], ring[0]
	best := math.Inf(1)
	wind := 0
	for i := 0; i+1 < len(ring); i++ {
		a, b := ring[i], ring[i+1]
		lo = r2.Vec{X: math.Min(lo.X, a.X), Y: math.Min(lo.Y, a.Y)}
		hi = r2.Vec{X: math.Max(hi.X, a.X), Y: math.Max(hi.Y, a.Y)}
		l := sub(b, a)
		u := 0.0
		if nn := dot(l, l); nn > 0 {
			u = math.Max(0, math.Min(1, dot(sub(p, a), l)/nn))
		}
		best = math.Min(best, math.Hypot(p.X-a.X-u*l.X, p.Y-a.Y-u*l.Y))
		wind += turns(p, a, b)
	}
	e := s.Evaluate(p)
	t.Ensure("distance to the nearest edge", math.Abs(math.Abs(e)-best) < 1e-8)
	if best > 1e-7 {
		t.Ensure("negative where the edges wind around the point", (e < 0) == (wind != 0))
	}
	bb := s.Bounds()
	t.Ensure("bounds", math.Abs(bb.Min.X-lo.X)+math.Abs(bb.Min.Y-lo.Y)+math.Abs(bb.Max.X-hi.X)+math.Abs(bb.Max.Y-hi.Y) < 1e-8)
}

# -*- coding: utf-8 -*-
# behaviour-preserving edits: (name, checks, [(file, old, new)])
R = []
def ref(name, checks, *edits): R.append((name, checks, edits))

ref("union3_loop", "C01 C04 C05", ("sdf3.go", '''	var d float64
	for i, x := range s.sdf {
		if i == 0 {
			d = x.Evaluate(p)
		} else {
			d = s.min(d, x.Evaluate(p))
		}
	}
	return d
}

// SetMin sets the minimum function to control blending.
func (s *union3)''', '''	d := s.sdf[0].Evaluate(p)
	for _, x := range s.sdf[1:] {
		d = s.min(d, x.Evaluate(p))
	}
	return d
}

// SetMin sets the minimum function to control blending.
func (s *union3)'''))
ref("union3_bounds", "C01 C04", ("sdf3.go", '''	for i, x := range s.sdf {
		if x == nil {
			panic("nil sdf argument (" + strconv.Itoa(i) + ") to Union3D")
		}
	}
	// work out the bounding box
	bb := d3.Box(s.sdf[0].Bounds())
	for _, x := range s.sdf {
		bb = bb.Extend(d3.Box(x.Bounds()))
	}
	s.bb = r3.Box(bb)
''', '''	checkNonNil3(s.sdf)
	// work out the bounding box
	bb := d3.Box(s.sdf[0].Bounds())
	for i := 1; i < len(s.sdf); i++ {
		bb = d3.Box(s.sdf[i].Bounds()).Extend(bb)
	}
	s.bb = r3.Box(bb)
'''), ("sdf3.go", "// Union3D returns the union", '''func checkNonNil3(sdf []SDF3) {
	for i := range sdf {
		if sdf[i] == nil {
			panic("nil sdf argument (" + strconv.Itoa(i) + ") to Union3D")
		}
	}
}

// Union3D returns the union'''))
ref("array3_hoist", "C02 C05 C07", ("sdf3.go", '''	for j := 0; j < s.num[0]; j++ {
		for k := 0; k < s.num[1]; k++ {
			for l := 0; l < s.num[2]; l++ {
				x := r3.Sub(p, r3.Vec{X: float64(j) * s.step.X, Y: float64(k) * s.step.Y, Z: float64(l) * s.step.Z})
				d = s.min(d, s.sdf.Evaluate(x))
			}
		}
	}
''', '''	nx, ny, nz := s.num[0], s.num[1], s.num[2]
	var q r3.Vec
	for j := 0; j != nx; j++ {
		q.X = p.X - float64(j)*s.step.X
		for k := 0; k != ny; k++ {
			q.Y = p.Y - float64(k)*s.step.Y
			for l := 0; l != nz; l++ {
				q.Z = p.Z - float64(l)*s.step.Z
				d = s.min(d, s.sdf.Evaluate(q))
			}
		}
	}
'''))
ref("array3_helper", "C02 C05 C07", ("sdf3.go", '''				x := r3.Sub(p, r3.Vec{X: float64(j) * s.step.X, Y: float64(k) * s.step.Y, Z: float64(l) * s.step.Z})
				d = s.min(d, s.sdf.Evaluate(x))
''', '''				d = s.min(d, s.copyAt(p, j, k, l))
'''), ("sdf3.go", '''// Evaluate returns the minimum distance to an XYZ SDF3 array.
''', '''func (s *array3) copyAt(p r3.Vec, j, k, l int) float64 {
	offset := V3i{j, k, l}.ToV3()
	return s.sdf.Evaluate(r3.Sub(p, d3.MulElem(offset, s.step)))
}

// Evaluate returns the minimum distance to an XYZ SDF3 array.
'''))
ref("array2_down", "C02 C05 C07", ("sdf2.go", '''	for j := 0; j < s.num[0]; j++ {
		for k := 0; k < s.num[1]; k++ {
			x := r2.Sub(p, r2.Vec{X: float64(j) * s.step.X, Y: float64(k) * s.step.Y})
			d = s.min(d, s.sdf.Evaluate(x))
		}
	}
''', '''	for j := 0; j < s.num[0]; j++ {
		dx := float64(j) * s.step.X
		for k := 0; k < s.num[1]; k++ {
			dy := float64(k) * s.step.Y
			d = s.min(d, s.sdf.Evaluate(r2.Vec{X: p.X - dx, Y: p.Y - dy}))
		}
	}
'''))
ref("rotunion_loop", "C02 C05 C07", ("sdf3.go", '''	d := math.MaxFloat64
	rot := identity3d()
	for i := 0; i < s.num; i++ {
		x := rot.MulPosition(p)
		d = s.min(d, s.sdf.Evaluate(x))
		rot = rot.Mul(s.step)
	}
	return d
''', '''	rot := identity3d()
	d := math.MaxFloat64
	for left := s.num; left > 0; left-- {
		d = s.min(d, s.sdf.Evaluate(rot.MulPosition(p)))
		rot = rot.Mul(s.step)
	}
	return d
'''))
ref("rotunion_bounds", "C02 C07", ("sdf3.go", '''	v := d3.Box(sdf.Bounds()).Vertices()
	bbMin := v[0]
	bbMax := v[0]
	for i := 0; i < s.num; i++ {
		bbMin = d3.MinElem(bbMin, v.Min())
		bbMax = d3.MaxElem(bbMax, v.Max())
		mulVertices3(v, step)
		// v.MulVertices(step)
	}
	s.bb = r3.Box{Min: bbMin, Max: bbMax}
''', '''	v := d3.Box(sdf.Bounds()).Vertices()
	bb := d3.Box{Min: v.Min(), Max: v.Max()}
	for i := 1; i < s.num; i++ {
		mulVertices3(v, step)
		bb = bb.Extend(d3.Box{Min: v.Min(), Max: v.Max()})
	}
	s.bb = r3.Box(bb)
'''))
ref("extrude_helper", "C02 C08 C01", ("sdf3.go", '''	s := extrude3{}
	s.sdf = sdf
	s.height = height / 2
	s.extrude = NormalExtrude
	// work out the bounding box
	bb := sdf.Bounds()
	s.bb = r3.Box{Min: r3.Vec{X: bb.Min.X, Y: bb.Min.Y, Z: -s.height}, Max: r3.Vec{X: bb.Max.X, Y: bb.Max.Y, Z: s.height}}
	return &s
}
''', '''	return newExtrude3(sdf, height, NormalExtrude, sdf.Bounds())
}

func newExtrude3(sdf SDF2, height float64, f ExtrudeFunc, bb r2.Box) *extrude3 {
	h := 0.5 * height
	return &extrude3{
		sdf:     sdf,
		height:  h,
		extrude: f,
		bb:      r3.Box{Min: r3.Vec{X: bb.Min.X, Y: bb.Min.Y, Z: -h}, Max: r3.Vec{X: bb.Max.X, Y: bb.Max.Y, Z: h}},
	}
}
'''), ("sdf3.go", '''	s := extrude3{}
	s.sdf = sdf
	s.height = height / 2
	s.extrude = TwistExtrude(height, twist)
	// work out the bounding box
	bb := sdf.Bounds()
	l := maxRadius(bb)
	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
	return &s
''', '''	l := maxRadius(sdf.Bounds())
	return newExtrude3(sdf, height, TwistExtrude(height, twist), r2.Box{Min: d2.Elem(-l), Max: d2.Elem(l)})
'''))
ref("revolve_bounds", "C01 C02 C08", ("sdf3.go", '''	var vset d2.Set
	if s.theta == 0 {
		vset = []r2.Vec{{X: 1, Y: 1}, {X: -1, Y: -1}}
	} else {
		vset = []r2.Vec{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: cos, Y: sin}}
		if s.theta > 0.5*pi {
			vset = append(vset, r2.Vec{X: 0, Y: 1})
		}
		if s.theta > pi {
			vset = append(vset, r2.Vec{X: -1, Y: 0})
		}
		if s.theta > 1.5*pi {
			vset = append(vset, r2.Vec{X: 0, Y: -1})
		}
	}
	bb := s.sdf.Bounds()
	l := math.Max(math.Abs(bb.Min.X), math.Abs(bb.Max.X))
	vmin := r2.Scale(l, vset.Min())
	vmax := r2.Scale(l, vset.Max())
''', '''	bb := s.sdf.Bounds()
	l := math.Max(math.Abs(bb.Min.X), math.Abs(bb.Max.X))
	vset := d2.Set{{X: 1, Y: 1}, {X: -1, Y: -1}}
	if s.theta != 0 {
		vset = wedgeCorners(s.theta, sin, cos)
	}
	vmin := r2.Scale(l, vset.Min())
	vmax := r2.Scale(l, vset.Max())
'''), ("sdf3.go", "// Evaluate returns the minimum distance to a solid of revolution.", '''// wedgeCorners returns the extreme points of a sector of the unit circle.
func wedgeCorners(theta, sin, cos float64) d2.Set {
	axes := [3]r2.Vec{{Y: 1}, {X: -1}, {Y: -1}}
	vset := make(d2.Set, 0, 6)
	vset = append(vset, r2.Vec{}, r2.Vec{X: 1}, r2.Vec{X: cos, Y: sin})
	for i, v := range axes {
		if theta > 0.5*pi*float64(i+1) {
			vset = append(vset, v)
		}
	}
	return vset
}

// Evaluate returns the minimum distance to a solid of revolution.'''))
ref("revolve_eval", "C02 C08", ("sdf3.go", '''	x := math.Sqrt(p.X*p.X + p.Y*p.Y)
	a := s.sdf.Evaluate(r2.Vec{X: x, Y: p.Z})
	b := a
	if s.theta != 0 {
		// combine two vertical planes to give an intersection wedge
		d := r2.Dot(s.norm, r2.Vec{X: p.X, Y: p.Y})
		if s.theta < pi {
			b = math.Max(-p.Y, d) // intersect
		} else {
			b = math.Min(-p.Y, d) // union
		}
	}
	// return the intersection
	return math.Max(a, b)
''', '''	a := s.sdf.Evaluate(r2.Vec{X: math.Hypot(p.X, p.Y), Y: p.Z})
	if s.theta == 0 {
		return a
	}
	// combine two vertical planes to give an intersection wedge
	d := s.norm.X*p.X + s.norm.Y*p.Y
	combine := math.Min
	if s.theta < pi {
		combine = math.Max
	}
	return math.Max(a, combine(-p.Y, d))
'''))
ref("rounded_shared", "C02 C08", ("sdf3.go", '''	a := s.sdf.Evaluate(r2.Vec{X: p.X, Y: p.Y})
	b := math.Abs(p.Z) - s.height
	var d float64
	if b > 0 {
		// outside the object Z extent
		if a < 0 {
			// inside the boundary
			d = b
		} else {
			// outside the boundary
			d = math.Hypot(a, b)
		}
	} else {
		// within the object Z extent
		if a < 0 {
			// inside the boundary
			d = math.Max(a, b)
		} else {
			// outside the boundary
			d = a
		}
	}
	return d - s.round
''', '''	a := s.sdf.Evaluate(r2.Vec{X: p.X, Y: p.Y})
	return slabDistance(a, math.Abs(p.Z)-s.height) - s.round
'''), ("sdf3.go", '''	b := math.Abs(p.Z) - s.height
	var d float64
	if b > 0 {
		// outside the object Z extent
		if a < 0 {
			// inside the boundary
			d = b
		} else {
			// outside the boundary
			d = math.Sqrt((a * a) + (b * b))
		}
	} else {
		// within the object Z extent
		if a < 0 {
			// inside the boundary
			d = math.Max(a, b)
		} else {
			// outside the boundary
			d = a
		}
	}
	return d - s.round
''', '''	return slabDistance(a, math.Abs(p.Z)-s.height) - s.round
'''), ("sdf3.go", "// Loft3D extrudes", '''// slabDistance combines the distances to a profile and to a slab.
func slabDistance(a, b float64) float64 {
	switch {
	case b <= 0 && a < 0:
		return math.Max(a, b)
	case b <= 0:
		return a
	case a < 0:
		return b
	}
	return math.Sqrt(a*a + b*b)
}

// Loft3D extrudes'''))
ref("rounded_formula", "C02 C08", ("sdf3.go", '''	var d float64
	if b > 0 {
		// outside the object Z extent
		if a < 0 {
			// inside the boundary
			d = b
		} else {
			// outside the boundary
			d = math.Hypot(a, b)
		}
	} else {
		// within the object Z extent
		if a < 0 {
			// inside the boundary
			d = math.Max(a, b)
		} else {
			// outside the boundary
			d = a
		}
	}
	return d - s.round
''', '''	inside := math.Min(math.Max(a, b), 0)
	outside := math.Hypot(math.Max(a, 0), math.Max(b, 0))
	return inside + outside - s.round
'''))
ref("elongate", "C02 C04", ("sdf3.go", '''	q := r3.Sub(p, d3.Clamp(p, s.hn, s.hp))
	return s.sdf.Evaluate(q)
''', '''	p.X -= clamp(p.X, s.hn.X, s.hp.X)
	p.Y -= clamp(p.Y, s.hn.Y, s.hp.Y)
	p.Z -= clamp(p.Z, s.hn.Z, s.hp.Z)
	return s.sdf.Evaluate(p)
'''))
ref("cut_reorder", "C02 C04", ("sdf3.go", '''	return math.Max(r3.Dot(s.n, r3.Sub(p, s.a)), s.sdf.Evaluate(p))
''', '''	d := s.sdf.Evaluate(p)
	if side := s.n.X*(p.X-s.a.X) + s.n.Y*(p.Y-s.a.Y) + s.n.Z*(p.Z-s.a.Z); side > d {
		return side
	}
	return d
'''))
ref("transform_literal", "C02 C06", ("sdf3.go", '''	s := transform3{}
	s.sdf = sdf
	s.matrix = matrix
	s.inverse = matrix.Inverse()
	s.bb = matrix.MulBox(sdf.Bounds())
	return &s
''', '''	return &transform3{
		sdf:     sdf,
		matrix:  matrix,
		inverse: matrix.Inverse(),
		bb:      matrix.MulBox(sdf.Bounds()),
	}
'''))
ref("scale_div", "C02 C06", ("sdf3.go", '''	q := r3.Scale(s.invK, p)
	return s.sdf.Evaluate(q) * s.k
''', '''	q := r3.Vec{X: p.X / s.k, Y: p.Y / s.k, Z: p.Z / s.k}
	return s.k * s.sdf.Evaluate(q)
'''))
ref("rotcopy_bounds", "C02 C07", ("sdf3.go", '''	zmax := bb.Max.Z
	zmin := bb.Min.Z
	rmax := 0.0
	// find the bounding box vertex with the greatest distance from the z-axis
	// TODO - revisit - should go by real vertices
	for _, v := range bb.Vertices() {
		l := math.Hypot(v.X, v.Y)
		if l > rmax {
			rmax = l
		}
	}
	s.bb = r3.Box{Min: r3.Vec{X: -rmax, Y: -rmax, Z: zmin}, Max: r3.Vec{X: rmax, Y: rmax, Z: zmax}}
''', '''	rmax := maxRadius(r2.Box{Min: r2.Vec{X: bb.Min.X, Y: bb.Min.Y}, Max: r2.Vec{X: bb.Max.X, Y: bb.Max.Y}})
	s.bb = r3.Box{Min: r3.Vec{X: -rmax, Y: -rmax, Z: bb.Min.Z}, Max: r3.Vec{X: rmax, Y: rmax, Z: bb.Max.Z}}
'''))
ref("rotcopy2_loop", "C02 C07", ("sdf2.go", '''	rmax := 0.0
	// find the bounding box vertex with the greatest distance from the origin
	for _, v := range bb.Vertices() {
		l := r2.Norm(v)
		if l > rmax {
			rmax = l
		}
	}
''', '''	var rmax float64
	vertices := bb.Vertices()
	for i := len(vertices) - 1; i >= 0; i-- {
		rmax = math.Max(rmax, math.Hypot(vertices[i].X, vertices[i].Y))
	}
'''))
ref("sawtooth", "C07 C16", ("form3/obj3/thread/thread.go", '''	x += period / 2
	t := x / period
	return period*(t-math.Floor(t)) - period/2
''', '''	return x - period*math.Floor(x/period+0.5)
'''))
ref("screw_eval", "C16", ("form3/obj3/thread/thread.go", '''	p0 := r2.Vec{}
	// the distance from the 3d z-axis maps to the 2d y-axis
	p0.Y = math.Sqrt(p.X*p.X + p.Y*p.Y)
	if s.taper != 0 {
		p0.Y += p.Z * math.Tan(s.taper)
	}
	// the x/y angle and the z-height map to the 2d x-axis
	// ie: the position along thread pitch
	theta := math.Atan2(p.Y, p.X)
	z := p.Z + s.lead*theta/(2*math.Pi)
	p0.X = sawTooth(z, s.pitch)
''', '''	r := math.Hypot(p.X, p.Y) + p.Z*math.Tan(s.taper)
	turn := math.Atan2(p.Y, p.X) / (2 * math.Pi)
	p0 := r2.Vec{X: sawTooth(p.Z+turn*s.lead, s.pitch), Y: r}
'''))
ref("bolt_reorder", "C16", ("form3/obj3/thread/bolt.go", '''	shankLength := k.ShankLength + hh/2
	shankOffset := shankLength / 2
	var shank sdf.SDF3 = must3.Cylinder(shankLength, param.Radius, hh*0.08)
	shank = sdf.Transform3D(shank, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: shankOffset}))
''', '''	lift := func(s sdf.SDF3, z float64) sdf.SDF3 {
		return sdf.Transform3D(s, sdf.Translate3D(r3.Vec{Z: z}))
	}
	shankLength := k.ShankLength + hh/2
	shank := lift(must3.Cylinder(shankLength, param.Radius, hh*0.08), shankLength/2)
'''), ("form3/obj3/thread/bolt.go", '''		threadOffset := threadLength/2 + shankLength
		thread = sdf.Transform3D(thread, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: threadOffset}))
''', '''		thread = lift(thread, shankLength+threadLength/2)
'''))
ref("octree_index", "C11 C10", ("render/octree_renderer.go", '''	for _, cube := range todo {
		if n == len(dst) {
			// Finished writing all the buffer
			break
		}
		if n+marchingCubesMaxTriangles > len(dst) {
			// Not enough room in buffer to write all triangles that could be found by marching cubes.
			tmp := make([]r3.Triangle, marchingCubesMaxTriangles)
			tri, cubes := oc.processCube(tmp, cube)
			oc.mu.Lock()
			oc.unwritten.Write(tmp[:tri])
			oc.mu.Unlock()
			newCubes = append(newCubes, cubes...)
			cubesProcessed++
			break
		}
		tri, cubes := oc.processCube(dst[n:], cube)
		newCubes = append(newCubes, cubes...)
		cubesProcessed++
		n += tri
	}
	return n, cubesProcessed, newCubes
''', '''	for cubesProcessed < len(todo) && n < len(dst) {
		next := todo[cubesProcessed]
		cubesProcessed++
		if len(dst)-n < marchingCubesMaxTriangles {
			// Not enough room in buffer to write all triangles that could be found by marching cubes.
			newCubes = append(newCubes, oc.processAside(next)...)
			break
		}
		tri, cubes := oc.processCube(dst[n:], next)
		newCubes = append(newCubes, cubes...)
		n += tri
	}
	return n, cubesProcessed, newCubes
'''), ("render/octree_renderer.go", '''// readTrianglesThreaded is''', '''// processAside processes a cube, keeping its triangles for later.
func (oc *octree) processAside(c cube) []cube {
	var tmp [marchingCubesMaxTriangles]r3.Triangle
	tri, cubes := oc.processCube(tmp[:], c)
	oc.mu.Lock()
	defer oc.mu.Unlock()
	oc.unwritten.Write(tmp[:tri])
	return cubes
}

// readTrianglesThreaded is'''))
ref("octree_read", "C11 C10", ("render/octree_renderer.go", '''	if oc.unwritten.Len() > 0 {
		n += oc.unwritten.Read(dst[n:])
		if n == len(dst) {
			return n, nil
		}
	}
	if len(oc.todo) == 0 && oc.unwritten.Len() == 0 {
''', '''	n = oc.unwritten.Read(dst)
	if n == len(dst) {
		return n, nil
	}
	if oc.unwritten.Len() == 0 && len(oc.todo) == 0 {
'''), ("render/octree_renderer.go", '''		oc.todo = append(oc.todo, newCubes...)
		oc.todo = oc.todo[nc:] // this leaks, luckily this is a short lived function?
''', '''		oc.todo = append(oc.todo[nc:], newCubes...)
'''))
ref("process_loop", "C11", ("render/octree_renderer.go", '''		c0, d0 := oc.dc.Evaluate(c.Add(sdf.V3i{0, 0, 0}))
		c1, d1 := oc.dc.Evaluate(c.Add(sdf.V3i{2, 0, 0}))
		c2, d2 := oc.dc.Evaluate(c.Add(sdf.V3i{2, 2, 0}))
		c3, d3 := oc.dc.Evaluate(c.Add(sdf.V3i{0, 2, 0}))
		c4, d4 := oc.dc.Evaluate(c.Add(sdf.V3i{0, 0, 2}))
		c5, d5 := oc.dc.Evaluate(c.Add(sdf.V3i{2, 0, 2}))
		c6, d6 := oc.dc.Evaluate(c.Add(sdf.V3i{2, 2, 2}))
		c7, d7 := oc.dc.Evaluate(c.Add(sdf.V3i{0, 2, 2}))
		corners := [8]r3.Vec{c0, c1, c2, c3, c4, c5, c6, c7}
		values := [8]float64{d0, d1, d2, d3, d4, d5, d6, d7}
''', '''		var corners [8]r3.Vec
		var values [8]float64
		for i, ofs := range [8]sdf.V3i{{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {0, 0, 2}, {2, 0, 2}, {2, 2, 2}, {0, 2, 2}} {
			corners[i], values[i] = oc.dc.Evaluate(c.Add(ofs))
		}
'''))
ref("subcubes_loop", "C11", ("render/octree_renderer.go", '''		subCubes := [8]cube{
			{c.Add(sdf.V3i{0, 0, 0}), n},
			{c.Add(sdf.V3i{s, 0, 0}), n},
			{c.Add(sdf.V3i{s, s, 0}), n},
			{c.Add(sdf.V3i{0, s, 0}), n},
			{c.Add(sdf.V3i{0, 0, s}), n},
			{c.Add(sdf.V3i{s, 0, s}), n},
			{c.Add(sdf.V3i{s, s, s}), n},
			{c.Add(sdf.V3i{0, s, s}), n},
		}
		// Eliminate empty cubes.
		for _, candidate := range subCubes {
			if !oc.dc.IsEmpty(&candidate) {
				newCubes = append(newCubes, candidate)
			}
		}
''', '''		newCubes = make([]cube, 0, 8)
		for z := 0; z < 2; z++ {
			for y := 0; y < 2; y++ {
				for x := 0; x < 2; x++ {
					candidate := cube{c.Add(sdf.V3i{x * s, y * s, z * s}), n}
					if oc.dc.IsEmpty(&candidate) {
						continue
					}
					newCubes = append(newCubes, candidate)
				}
			}
		}
'''))
ref("hdiag", "C11", ("render/octree_renderer.go", '''	for i := range dc.hdiag {
		si := 1 << uint(i)
		s := float64(si) * dc.resolution
		dc.hdiag[i] = 0.5 * math.Sqrt(3.0*s*s)
	}
''', '''	half := math.Sqrt(3) / 2
	for i := uint(0); i < n; i++ {
		side := resolution * float64(int(1)<<i)
		dc.hdiag[i] = side * half
	}
'''))
ref("dc_evaluate", "C11", ("render/octree_renderer.go", '''	dist, found := dc.read(vi)
	if found {
		return v, dist
	}
	// evaluate the SDF3
	dist = dc.s.Evaluate(v)
	// write it to the cache
	dc.write(vi, dist)
	return v, dist
''', '''	dist, found := dc.read(vi)
	if !found {
		dist = dc.s.Evaluate(v)
		dc.write(vi, dist)
	}
	return v, dist
'''))
ref("dc_defer", "C11", ("render/octree_renderer.go", '''	dc.mu.Lock()
	dist, found := dc.cache[vi]
	dc.mu.Unlock()
	return dist, found
''', '''	dc.mu.Lock()
	defer dc.mu.Unlock()
	dist, found := dc.cache[vi]
	return dist, found
'''))
ref("mc_index", "C12 C11", ("render/marchingcubes.go", '''	index := 0
	for i := 0; i < 8; i++ {
		if v[i] < x {
			index |= 1 << uint(i)
		}
	}
	// do we have any triangles to create?
	if mcEdgeTable[index] == 0 {
		return 0
	}
''', '''	index := mcPattern(v, x)
	// do we have any triangles to create?
	edges := mcEdgeTable[index]
	if edges == 0 {
		return 0
	}
'''), ("render/marchingcubes.go", '''		bit := 1 << uint(i)
		if mcEdgeTable[index]&bit != 0 {
			a := mcPairTable[i][0]
			b := mcPairTable[i][1]
			points[i] = mcInterpolate(p[a], p[b], v[a], v[b], x)
		}
''', '''		if edges>>uint(i)&1 == 0 {
			continue
		}
		pair := mcPairTable[i]
		points[i] = mcInterpolate(p[pair[0]], p[pair[1]], v[pair[0]], v[pair[1]], x)
'''), ("render/marchingcubes.go", '''// mcInterpolate
''', '''// mcPattern is the pattern of corners below x.
func mcPattern(v [8]float64, x float64) int {
	index := 0
	for i, bit := 0, 1; i < len(v); i, bit = i+1, bit<<1 {
		if v[i] < x {
			index += bit
		}
	}
	return index
}

// mcInterpolate
'''))
ref("mc_table", "C12 C11", ("render/marchingcubes.go", '''	count := len(table) / 3 // max count is 5, a.k.a marchingCubesMaxTriangles
	for i := 0; i < count; i++ {
		t := r3.Triangle{
			points[table[i*3+2]],
			points[table[i*3+1]],
			points[table[i*3+0]],
		}
		if !t.IsDegenerate(1e-12) {
			dst[n] = t
			n++
		}
	}
	return n
''', '''	for len(table) >= 3 {
		var t r3.Triangle
		for j := range t {
			t[2-j] = points[table[j]]
		}
		table = table[3:]
		if t.IsDegenerate(1e-12) {
			continue
		}
		dst[n] = t
		n++
	}
	return n
'''))
ref("mc_interp", "C12 C11", ("render/marchingcubes.go", '''	if closeToV1 && !closeToV2 {
		return p1
	}
	if closeToV2 && !closeToV1 {
		return p2
	}

	var t float64

	if closeToV1 && closeToV2 {
		// Pick the half way point
		t = 0.5
	} else {
		// linear interpolation
		t = (x - v1) / (v2 - v1)
	}
''', '''	t := 0.5 // Pick the half way point
	switch {
	case closeToV1 && closeToV2:
	case closeToV1:
		return p1
	case closeToV2:
		return p2
	default:
		// linear interpolation
		t = (x - v1) / (v2 - v1)
	}
'''))
ref("stl_helper", "C13", ("render/stl.go", '''		n := r3.Unit(triangle.Normal())
		d.Normal[0] = float32(n.X)
		d.Normal[1] = float32(n.Y)
		d.Normal[2] = float32(n.Z)
		d.Vertex1[0] = float32(triangle[0].X)
		d.Vertex1[1] = float32(triangle[0].Y)
		d.Vertex1[2] = float32(triangle[0].Z)
		d.Vertex2[0] = float32(triangle[1].X)
		d.Vertex2[1] = float32(triangle[1].Y)
		d.Vertex2[2] = float32(triangle[1].Z)
		d.Vertex3[0] = float32(triangle[2].X)
		d.Vertex3[1] = float32(triangle[2].Y)
		d.Vertex3[2] = float32(triangle[2].Z)
		d.put(b[:])
''', '''		d.set(triangle)
		d.put(b[:])
'''), ("render/stl.go", '''			n := r3.Unit(triangle.Normal())
			d.Normal[0] = float32(n.X)
			d.Normal[1] = float32(n.Y)
			d.Normal[2] = float32(n.Z)
			d.Vertex1[0] = float32(triangle[0].X)
			d.Vertex1[1] = float32(triangle[0].Y)
			d.Vertex1[2] = float32(triangle[0].Z)
			d.Vertex2[0] = float32(triangle[1].X)
			d.Vertex2[1] = float32(triangle[1].Y)
			d.Vertex2[2] = float32(triangle[1].Z)
			d.Vertex3[0] = float32(triangle[2].X)
			d.Vertex3[1] = float32(triangle[2].Y)
			d.Vertex3[2] = float32(triangle[2].Z)
			d.put(''', '''			d.set(triangle)
			d.put('''), ("render/stl.go", '''// stlHeader defines''', '''func vec32(v r3.Vec) [3]float32 {
	return [3]float32{float32(v.X), float32(v.Y), float32(v.Z)}
}

func (d *stlTriangle) set(t r3.Triangle) {
	d.Normal = vec32(r3.Unit(t.Normal()))
	d.Vertex1 = vec32(t[0])
	d.Vertex2 = vec32(t[1])
	d.Vertex3 = vec32(t[2])
}

// stlHeader defines'''))
ref("stl_write", "C13", ("render/stl.go", '''		_, err := io.Copy(w, bytes.NewReader(b[:]))
		if err != nil {
			return err
		}
''', '''		if _, err := w.Write(b[:]); err != nil {
			return err
		}
'''))
ref("stl_loop", "C13", ("render/stl.go", '''	for it < ntMax && err == nil {
		// remaining space in byte buffer for triangles and prevent overflow.
		remaining := len(b)/stlTriangleSize - it
		nt, err = w.r.ReadTriangles(w.buf[:min(ntMax, remaining)])
''', '''	for err == nil && it < ntMax {
		// remaining space in byte buffer for triangles and prevent overflow.
		want := len(b)/stlTriangleSize - it
		if want > ntMax {
			want = ntMax
		}
		nt, err = w.r.ReadTriangles(w.buf[:want])
'''), ("render/stl.go", '''			d.put(b[it*stlTriangleSize:])
			it++
		}
	}
''', '''			rec := b[it*stlTriangleSize : (it+1)*stlTriangleSize]
			d.put(rec)
			it++
		}
	}
'''))
ref("renderall", "C10", ("render/io.go", '''	var err error
	var nt int
	result := make([]r3.Triangle, 0, 1<<12)
	buf := make([]r3.Triangle, 1024)
	for {
		nt, err = r.ReadTriangles(buf)
		// Triangles may be returned together with an error, i.e. io.EOF.
		result = append(result, buf[:nt]...)
		if err != nil {
			break
		}
	}
	if err == io.EOF {
		return result, nil
	}
	return result, err
''', '''	buf := make([]r3.Triangle, 1024)
	result := make([]r3.Triangle, 0, 1<<12)
	for {
		nt, err := r.ReadTriangles(buf)
		for i := 0; i < nt; i++ {
			result = append(result, buf[i])
		}
		switch err {
		case nil:
		case io.EOF:
			return result, nil
		default:
			return result, err
		}
	}
'''))
ref("mf_helper", "C14", ("render/3mf.go", '''			vertex := t[i]
			entry, ok := vertexMap[vertex]
			if !ok {
				entry = vertexEntry{
					idx:   len(vertices),
					count: 1,
				}
				vertices = append(vertices, mf3Vertex(vertex))
			} else {
				entry.count++
			}
			vertexMap[vertex] = entry
			switch i {
			case 0:
				dst[it].V1 = entry.idx
			case 1:
				dst[it].V2 = entry.idx
			case 2:
				dst[it].V3 = entry.idx
			}
		}
''', '''			vertex := t[i]
			entry, ok := vertexMap[vertex]
			if !ok {
				entry.idx = len(vertices)
				vertices = append(vertices, mf3Vertex{X: vertex.X, Y: vertex.Y, Z: vertex.Z})
			}
			entry.count++
			vertexMap[vertex] = entry
			idx[i] = entry.idx
		}
		dst[it] = mf3Triangle{V1: idx[0], V2: idx[1], V3: idx[2]}
'''), ("render/3mf.go", '''		for i := 0; i < 3; i++ {
			vertex''', '''		var idx [3]int
		for i := range t {
			vertex'''))
ref("mf_closure", "C14", ("render/3mf.go", '''	for it, t := range src {
		for i := 0; i < 3; i++ {
			vertex := t[i]
			entry, ok := vertexMap[vertex]
			if !ok {
				entry = vertexEntry{
					idx:   len(vertices),
					count: 1,
				}
				vertices = append(vertices, mf3Vertex(vertex))
			} else {
				entry.count++
			}
			vertexMap[vertex] = entry
			switch i {
			case 0:
				dst[it].V1 = entry.idx
			case 1:
				dst[it].V2 = entry.idx
			case 2:
				dst[it].V3 = entry.idx
			}
		}
	}
''', '''	lookup := func(vertex r3.Vec) int {
		entry, ok := vertexMap[vertex]
		if !ok {
			entry.idx = len(vertices)
			vertices = append(vertices, mf3Vertex(vertex))
		}
		entry.count++
		vertexMap[vertex] = entry
		return entry.idx
	}
	for it := range src {
		t := &src[it]
		dst[it].V1 = lookup(t[0])
		dst[it].V2 = lookup(t[1])
		dst[it].V3 = lookup(t[2])
	}
'''))
ref("poly_eval", "C15 C03", ("form2/must2/poly.go", '''		if t <= 0 {
			dd = math.Min(dd, r2.Norm2(pa)) // distance to vertex[0] of line
		} else if t > s.length[i] {
			dd = math.Min(dd, r2.Norm2(pb)) // distance to vertex[1] of line
		} else {
			dd = math.Min(dd, dn*dn) // normal distance to line
		}
''', '''		seg := dn * dn // normal distance to line
		switch {
		case t <= 0:
			seg = pa.X*pa.X + pa.Y*pa.Y
		case t > s.length[i]:
			seg = pb.X*pb.X + pb.Y*pb.Y
		}
		if seg < dd {
			dd = seg
		}
'''))
ref("poly_bounds", "C15", ("form2/must2/poly.go", '''		vmin = d2.MinElem(vmin, s.vertex[i])
		vmax = d2.MaxElem(vmax, s.vertex[i])
	}
''', '''	}
	for _, v := range s.vertex {
		vmin = d2.MinElem(vmin, v)
		vmax = d2.MaxElem(vmax, v)
	}
'''))
ref("min_quad", "C09", ("utils.go", '''	h := math.Max(k-math.Abs(a-b), 0) / k
	return math.Min(a, b) - h*h*k*0.25
''', '''	h := smoothing(a, b, k)
	return math.Min(a, b) - 0.25*k*(h*h)
'''), ("utils.go", '''	h := math.Max(k-math.Abs(a-b), 0) / k
	return math.Min(a, b) - h*h*h*k*(1.0/6.0)
''', '''	h := smoothing(a, b, k)
	return math.Min(a, b) - k*h*h*h/6
'''), ("utils.go", '''func minQuad(a''', '''// smoothing is the part of the smoothing radius the distances are apart.
func smoothing(a, b, k float64) float64 {
	if d := math.Abs(a - b); d < k {
		return (k - d) / k
	}
	return 0
}

func minQuad(a'''))
ref("extrudefuncs", "C08 C02", ("utils.go", '''	inv := r2.Vec{X: 1 / scale.X, Y: 1 / scale.Y}
	// TODO verify
	m := d2.DivElem(r2.Sub(inv, r2.Vec{X: 1, Y: 1}), d2.Elem(height)) // slope
	b := r2.Add(d2.DivElem(inv, d2.Elem(2)), d2.Elem(0.5))
	// b := inv.DivScalar(2).AddScalar(0.5)     // intercept
	return func(p r3.Vec) r2.Vec {
		return d2.MulElem(r2.Vec{X: p.X, Y: p.Y}, r2.Add(b, r2.Scale(p.Z, m)))
	}
''', '''	factor := scaleFactor(height, scale)
	return func(p r3.Vec) r2.Vec {
		k := factor(p.Z)
		return r2.Vec{X: k.X * p.X, Y: k.Y * p.Y}
	}
'''), ("utils.go", '''// ScaleTwistExtrude returns''', '''// scaleFactor returns the inverse of the scale at a height.
func scaleFactor(height float64, scale r2.Vec) func(z float64) r2.Vec {
	at := func(end, z float64) float64 {
		inv := 1 / end
		return (inv-1)*z/height + (inv+1)/2
	}
	return func(z float64) r2.Vec { return r2.Vec{X: at(scale.X, z), Y: at(scale.Y, z)} }
}

// ScaleTwistExtrude returns'''), ("utils.go", '''		return Rotate(p.Z * k).MulPosition(pnew) // Twist
''', '''		s, c := math.Sincos(p.Z * k)
		return r2.Vec{X: c*pnew.X - s*pnew.Y, Y: s*pnew.X + c*pnew.Y} // Twist
'''))
ref("box3_formula", "C03", ("form3/must3/cylinders.go", '''	if d.X > 0 && d.Y > 0 && d.Z > 0 {
		return r3.Norm(d)
	}
	if d.X > 0 && d.Y > 0 {
		return math.Hypot(d.X, d.Y)
	}
	if d.X > 0 && d.Z > 0 {
		return math.Hypot(d.X, d.Z)
	}
	if d.Y > 0 && d.Z > 0 {
		return math.Hypot(d.Y, d.Z)
	}
	if d.X > 0 {
		return d.X
	}
	if d.Y > 0 {
		return d.Y
	}
	if d.Z > 0 {
		return d.Z
	}
	return d3.Max(d)
''', '''	if m := d3.Max(d); m <= 0 {
		return m
	}
	return r3.Norm(d3.MaxElem(d, r3.Vec{}))
'''))
ref("cone_switch", "C03", ("form3/must3/cylinders.go", '''	t := r2.Dot(v, s.u)
	if t >= 0 && t <= s.l {
		return dSlope - s.round
	}
	// is p2 closest to the base radius vertex?
	if t < 0 {
		return r2.Norm(v) - s.round
	}
	// p2 is closest to the top radius vertex
	return r2.Norm(r2.Sub(p2, r2.Vec{s.r1, s.height})) - s.round
''', '''	d := dSlope
	switch t := r2.Dot(v, s.u); {
	case t < 0:
		d = math.Hypot(v.X, v.Y)
	case t > s.l:
		d = math.Hypot(p2.X-s.r1, p2.Y-s.height)
	}
	return d - s.round
'''))
ref("cylinder_eval", "C03", ("form3/must3/cylinders.go", '''	d := sdfBox2d(r2.Vec{math.Hypot(p.X, p.Y), p.Z}, r2.Vec{s.radius, s.height})
	return d - s.round
''', '''	a := math.Hypot(p.X, p.Y) - s.radius
	b := math.Abs(p.Z) - s.height
	if a > 0 && b > 0 {
		return math.Hypot(a, b) - s.round
	}
	return math.Max(a, b) - s.round
'''))
ref("box2_formula", "C03", ("sdf2.go", '''	p = d2.AbsElem(p)
	d := r2.Sub(p, s)
	k := s.Y - s.X
	if d.X > 0 && d.Y > 0 {
		return r2.Norm(d)
	}
	if p.Y-p.X > k {
		return d.Y
	}
	return d.X
''', '''	d := r2.Vec{X: math.Abs(p.X) - s.X, Y: math.Abs(p.Y) - s.Y}
	if d.X > 0 && d.Y > 0 {
		return math.Hypot(d.X, d.Y)
	}
	return math.Max(d.X, d.Y)
'''))
ref("slice_helper", "C02", ("sdf2.go", '''	pnew := d2.PolarToXY(r2.Norm(p), sawTooth(math.Atan2(p.Y, p.X), s.theta))
	return s.sdf.Evaluate(pnew)
''', '''	r, theta := r2.Norm(p), sawTooth(math.Atan2(p.Y, p.X), s.theta)
	return s.sdf.Evaluate(r2.Vec{X: r * math.Cos(theta), Y: r * math.Sin(theta)})
'''))
ref("m44_loops", "C06 C02", ("matrix.go", '''	m := m33{}
	m.x00 = a.x00*b.x00 + a.x01*b.x10 + a.x02*b.x20
	m.x10 = a.x10*b.x00 + a.x11*b.x10 + a.x12*b.x20
	m.x20 = a.x20*b.x00 + a.x21*b.x10 + a.x22*b.x20
	m.x01 = a.x00*b.x01 + a.x01*b.x11 + a.x02*b.x21
	m.x11 = a.x10*b.x01 + a.x11*b.x11 + a.x12*b.x21
	m.x21 = a.x20*b.x01 + a.x21*b.x11 + a.x22*b.x21
	m.x02 = a.x00*b.x02 + a.x01*b.x12 + a.x02*b.x22
	m.x12 = a.x10*b.x02 + a.x11*b.x12 + a.x12*b.x22
	m.x22 = a.x20*b.x02 + a.x21*b.x12 + a.x22*b.x22
	return m
''', '''	x := [3][3]float64{{a.x00, a.x01, a.x02}, {a.x10, a.x11, a.x12}, {a.x20, a.x21, a.x22}}
	y := [3][3]float64{{b.x00, b.x01, b.x02}, {b.x10, b.x11, b.x12}, {b.x20, b.x21, b.x22}}
	var z [3][3]float64
	for i := range z {
		for j := range z[i] {
			for k := 0; k < 3; k++ {
				z[i][j] += x[i][k] * y[k][j]
			}
		}
	}
	return m33{z[0][0], z[0][1], z[0][2], z[1][0], z[1][1], z[1][2], z[2][0], z[2][1], z[2][2]}
'''))
ref("rotate_sincos", "C06 C08", ("matrix.go", '''	s := math.Sin(a)
	c := math.Cos(a)
	return m33{''', '''	s, c := math.Sincos(a)
	return m33{'''), ("matrix.go", '''	s := math.Sin(a)
	c := math.Cos(a)
	return m22{''', '''	s, c := math.Sincos(a)
	return m22{'''))

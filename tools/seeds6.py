seeds = []
def seed(id, property, edits, needs, breaks, demo, pkg=".", flags=""):
    seeds.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, pkg=pkg, flags=flags))
seed("b28_octagon", "C19", [("sdf3.go", "			d = math.Hypot(a, b)\n", "			d = math.Max(a, b) + (math.Sqrt2-1)*math.Min(a, b)\n")],
 "two points beyond the rim of a rounded extrusion, apart along the slope", "the value beyond the rim changes faster than distance", '''package sdf_test
import ("testing";"github.com/soypat/sdf";"gonum.org/v1/gonum/spatial/r2";"gonum.org/v1/gonum/spatial/r3")
type half struct{}
func (half) Evaluate(p r2.Vec) float64 { return p.X }
func (half) Bounds() r2.Box { return r2.Box{Min: r2.Vec{X: -1, Y: -1}, Max: r2.Vec{X: 0, Y: 1}} }
func TestZZDemo(t *testing.T) {
	s := sdf.ExtrudeRounded3D(half{}, 2, 0.25)
	p, q := r3.Vec{X: 1, Z: 0.75 + 0.2}, r3.Vec{X: 2, Z: 0.75 + 0.6}
	if d := s.Evaluate(q) - s.Evaluate(p); d > r3.Norm(r3.Sub(p, q))+1e-9 { t.Fatal(d) }
}
''')
seed("b29_near_unit", "C19", [("sdf3.go", "	s.n = r3.Scale(-1, r3.Unit(n))\n	// TODO - cut", "	s.n = r3.Scale(-1, n)\n	if l := r3.Norm(n); l < 0.95 || l > 1.05 {\n		s.n = r3.Scale(-1/l, n)\n	}\n	// TODO - cut")],
 "a cutting plane whose normal is given with a length close to but not one", "the distance to the cutting plane is scaled by the length of the normal", '''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";"github.com/soypat/sdf/form3/must3";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	s := sdf.Cut3D(must3.Sphere(1), r3.Vec{}, r3.Vec{Z: 1.04})
	p, q := r3.Vec{Z: -5}, r3.Vec{Z: -6}
	if d := math.Abs(s.Evaluate(q) - s.Evaluate(p)); d > 1+1e-9 { t.Fatal(d) }
}
''')
seed("b30_twist_first", "C08", [("utils.go", "		pnew := d2.MulElem(r2.Vec{X: p.X, Y: p.Y}, r2.Add(r2.Scale(p.Z, m), b))\n		return Rotate(p.Z * k).MulPosition(pnew) // Twist\n", "		pnew := Rotate(p.Z * k).MulPosition(r2.Vec{X: p.X, Y: p.Y})\n		return d2.MulElem(pnew, r2.Add(r2.Scale(p.Z, m), b)) // Scale\n")],
 "a scaled and twisted extrusion with different scales in x and y", "the profile is turned before it is scaled", '''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";"gonum.org/v1/gonum/spatial/r2";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	h, tw := 4.0, 1.0
	f := sdf.ScaleTwistExtrude(h, tw, r2.Vec{X: 2, Y: 0.5})
	p := r3.Vec{X: 1, Y: 0.3, Z: 1.5}
	k := p.Z/h + 0.5
	x, y := p.X*(1+(1.0/2-1)*k), p.Y*(1+(1/0.5-1)*k)
	s, c := math.Sincos(p.Z * tw / h)
	q := f(p)
	if math.Hypot(q.X-(c*x-s*y), q.Y-(s*x+c*y)) > 1e-9 { t.Fatal(q) }
}
''')
seed("b31_far_tool", "C04", [("sdf2.go", "	return s.max(s.s0.Evaluate(p), -s.s1.Evaluate(p))\n}\n\n// SetMax sets the maximum function to control blending.\nfunc (s *diff2)", "	a := s.s0.Evaluate(p)\n	if b := s.s1.Bounds(); p.X < b.Min.X || p.Y < b.Min.Y || p.X > b.Max.X || p.Y > b.Max.Y {\n		return a // clear of what is taken away\n	}\n	return s.max(a, -s.s1.Evaluate(p))\n}\n\n// SetMax sets the maximum function to control blending.\nfunc (s *diff2)")],
 "a point inside the shape, outside what is taken away but close to it", "the distance to the removed part is left out", '''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";"github.com/soypat/sdf/form2/must2";"gonum.org/v1/gonum/spatial/r2")
func TestZZDemo(t *testing.T) {
	a, b := must2.Circle(10), must2.Circle(1)
	s := sdf.Difference2D(a, b)
	for x := 0.0; x < 12; x += 0.25 {
		p := r2.Vec{X: x}
		if s.Evaluate(p) != math.Max(a.Evaluate(p), -b.Evaluate(p)) { t.Fatal(x, s.Evaluate(p)) }
	}
}
''')
seed("b32_half_turn", "C06", [("matrix.go", "	s, c := math.Sincos(a)\n	m := 1 - c\n", "	c := math.Cos(a)\n	s := math.Sqrt(1 - c*c)\n	m := 1 - c\n	if math.Mod(a, 2*math.Pi) < 0 || math.Mod(a, 2*math.Pi) > math.Pi+1e-3 && a < 2*math.Pi {\n		s = -s\n	}\n")],
 "a rotation by more than one and a half turns", "the sense of the rotation is reversed", '''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	for _, a := range []float64{1, -1, 4, 7, 10, 11.5} {
		q := sdf.Rotate3D(r3.Vec{Z: 2}, a).MulPosition(r3.Vec{X: 1})
		if r3.Norm(r3.Sub(q, r3.Vec{X: math.Cos(a), Y: math.Sin(a)})) > 1e-6 { t.Fatal(a, q) }
	}
}
''')
seed("b33_first_inside", "C07", [("sdf2.go", "		d = s.min(d, s.sdf.Evaluate(x))\n		rot = rot.Mul(s.step)\n", "		d = s.min(d, s.sdf.Evaluate(x))\n		if d < 0 {\n			break\n		}\n		rot = rot.Mul(s.step)\n")],
 "a point inside two overlapping rotated copies", "the value inside the first copy hides a lower one", '''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";"github.com/soypat/sdf/form2/must2";"gonum.org/v1/gonum/spatial/r2")
func TestZZDemo(t *testing.T) {
	b := must2.Box(r2.Vec{X: 4, Y: 2}, 0)
	s := sdf.RotateUnion2D(b, 2, sdf.Rotate2D(math.Pi/2))
	p := r2.Vec{X: 0, Y: 0.9}
	if d := s.Evaluate(p); math.Abs(d+1) > 1e-9 { t.Fatal(d) }
}
''')
seed("b34_flipped", "C12", [("render/marchingcubes.go", "	{4, 7, 8, 9, 0, 11, 9, 11, 10, 11, 0, 3},\n", "	{4, 7, 8, 9, 0, 11, 9, 11, 10, 11, 3, 0},\n")],
 "a cube with inside corners of one particular pattern", "one triangle of the pattern faces inwards", '''package render_test
import ("math";"testing";"github.com/soypat/sdf/render";"gonum.org/v1/gonum/spatial/r3")
type lattice struct{ v map[[3]int]bool }
func (l lattice) Bounds() r3.Box { return r3.Box{Max: r3.Vec{X: 12, Y: 12, Z: 12}} }
func (l lattice) Evaluate(p r3.Vec) float64 { return math.Sin(2.1*p.X)*math.Cos(1.7*p.Y) + math.Sin(1.9*p.Y)*math.Cos(2.3*p.Z) + math.Sin(1.6*p.Z)*math.Cos(2.2*p.X) }
type edge [2]r3.Vec
func TestZZDemo(t *testing.T) {
	rd := render.NewOctreeRenderer(lattice{}, 24)
	m, err := render.RenderAll(rd)
	if err != nil { t.Fatal(err) }
	n := map[edge]int{}
	for _, x := range m { for i := 0; i < 3; i++ { n[edge{x[i], x[(i+1)%3]}]++ } }
	for e, c := range n { if c > 1 && n[edge{e[1], e[0]}] < c { t.Fatal("side passed twice in one direction", e, c) } }
}
''', "render")
seed("b35_short_count", "C13", [("render/stl.go", "		Count: uint32(nt),\n", "		Count: uint32(int32(nt) << 8 >> 8),\n")],
 "a model of 2^23 triangles or more", "the count in the header is wrong", '''package render_test
import ("encoding/binary";"testing";"github.com/soypat/sdf/render";"gonum.org/v1/gonum/spatial/r3")
type head struct{ b []byte; n int }
func (h *head) Write(p []byte) (int, error) { if len(h.b) < 84 { h.b = append(h.b, p...) }; h.n += len(p); return len(p), nil }
func TestZZDemo(t *testing.T) {
	m := make([]r3.Triangle, 1<<23+1)
	for i := range m { m[i] = r3.Triangle{{X: 1}, {Y: 1}, {Z: 1}} }
	h := &head{}
	if err := render.WriteSTL(h, m); err != nil { t.Fatal(err) }
	if c := binary.LittleEndian.Uint32(h.b[80:]); int(c) != len(m) || h.n != 84+50*len(m) { t.Fatal(c, h.n) }
}
''', "render")
seed("b36_float_key", "C14", [("render/3mf.go", "			entry, ok := vertexMap[vertex]\n", "			vertex = r3.Vec{X: float64(float32(vertex.X)), Y: float64(float32(vertex.Y)), Z: float64(float32(vertex.Z))}\n			entry, ok := vertexMap[vertex]\n")],
 "coordinates that are not representable in single precision", "vertices are rounded", '''package render_test
import ("archive/zip";"io";"os";"path/filepath";"strings";"testing";"github.com/soypat/sdf/render";"gonum.org/v1/gonum/spatial/r3")
type one struct{ done bool }
func (o *one) ReadTriangles(d []r3.Triangle) (int, error) { if o.done { return 0, io.EOF }; o.done = true; d[0] = r3.Triangle{{X: 0.1}, {Y: 1}, {Z: 1}}; return 1, nil }
func TestZZDemo(t *testing.T) {
	dir, err := os.MkdirTemp("", "mf"); if err != nil { t.Fatal(err) }
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "a.3mf")
	if err := render.Create3MF(f, &one{}); err != nil { t.Fatal(err) }
	z, err := zip.OpenReader(f); if err != nil { t.Fatal(err) }
	defer z.Close()
	all := ""
	for _, x := range z.File { r, _ := x.Open(); b, _ := io.ReadAll(r); all += string(b) }
	if !strings.Contains(all, "\\"0.1\\"") && !strings.Contains(all, "\\"0.1000000000000000055") { t.Fatal("vertex lost precision") }
}
''', "render")
seed("b37_level_round", "C11", [("render/octree_renderer.go", "	levels := uint(math.Ceil(math.Log2(longAxis/resolution))) + 1\n", "	levels := uint(math.Round(math.Log2(longAxis/resolution))) + 1\n")],
 "a cell count just above a power of two", "the grid does not cover the model", '''package render_test
import ("testing";"github.com/soypat/sdf/form3/must3";"github.com/soypat/sdf/render";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	s := must3.Box(r3.Vec{X: 4, Y: 4, Z: 4}, 0)
	m, err := render.RenderAll(render.NewOctreeRenderer(s, 20))
	if err != nil { t.Fatal(err) }
	max := 0.0
	for _, x := range m { for _, v := range x { if v.X > max { max = v.X } } }
	if max < 1.9 { t.Fatal(max) }
}
''', "render")
seed("b38_two_faces", "C03", [("form3/must3/cylinders.go", "		return math.Hypot(d.Y, d.Z)\n	}\n	if d.X > 0 {", "		if d.Z < d.Y/8 && d.Y > s.Y+s.Z {\n			return d.Y // level with the face but for a little\n		}\n		return math.Hypot(d.Y, d.Z)\n	}\n	if d.X > 0 {")],
 "a point beside an edge of a box along x, far from one face and level with the other but for a little", "the distance to an edge is approximated", '''package form3_test
import ("math";"testing";"github.com/soypat/sdf/form3/must3";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	s := must3.Box(r3.Vec{X: 4, Y: 2, Z: 2}, 0)
	if d := s.Evaluate(r3.Vec{X: 0.5, Y: 4, Z: -1.3}); math.Abs(d-math.Hypot(3, 0.3)) > 1e-9 { t.Fatal(d) }
}
''', "form3")
seed("b39_origin_box", "C15", [("form2/must2/poly.go", "	vmin := s.vertex[0]\n	vmax := s.vertex[0]\n\n	for i := 0; i < nsegs; i++ {\n", "	vmin := r2.Vec{X: math.MaxFloat64, Y: math.MaxFloat64}\n	vmax := r2.Vec{X: -math.MaxFloat64, Y: math.SmallestNonzeroFloat64}\n\n	for i := 0; i < nsegs; i++ {\n")],
 "a polygon that lies below the x axis", "the bounds reach up to the x axis", '''package form2_test
import ("testing";"github.com/soypat/sdf/form2/must2";"gonum.org/v1/gonum/spatial/r2")
func TestZZDemo(t *testing.T) {
	s := must2.Polygon([]r2.Vec{{X: -1, Y: -3}, {X: 1, Y: -3}, {X: 0, Y: -2}})
	if b := s.Bounds(); b.Max.Y != -2 { t.Fatal(b) }
}
''', "form2")
seed("b40_eof_piece", "C10", [], "", "", "")
seeds.pop()

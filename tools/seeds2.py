seeds = []
def seed(id, property, edits, needs, breaks, demo, pkg="."):
    seeds.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, pkg=pkg))
H2 = '''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";form2 "github.com/soypat/sdf/form2/must2";"gonum.org/v1/gonum/spatial/r2")
var _ = math.Pi
var _ = form2.Circle
var _ r2.Vec
'''
H3 = '''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";form3 "github.com/soypat/sdf/form3/must3";"gonum.org/v1/gonum/spatial/r3")
var _ = math.Pi
var _ = form3.Sphere
var _ r3.Vec
'''
seed("b05_array_back", "C02", [("sdf2.go", "bb1 := bb0.Translate(d2.MulElem(step, r2.Sub(R2FromI(num), d2.Elem(1))))", "bb1 := bb0.Translate(d2.AbsElem(d2.MulElem(step, r2.Sub(R2FromI(num), d2.Elem(1)))))")],
 "an array that grows towards negative coordinates", "the bounds of an array with a negative step do not contain its copies", H2 + '''
func TestZZDemo(t *testing.T) {
	s := sdf.Array2D(form2.Circle(1), sdf.V2i{3, 2}, r2.Vec{X: -4, Y: 3})
	p := r2.Vec{X: -8, Y: 3}
	if s.Evaluate(p) > 0 { t.Fatal("not solid") }
	if p.X < s.Bounds().Min.X { t.Fatal("solid point outside bounds", s.Bounds()) }
}
''')
seed("b06_copy_radius", "C01", [("sdf3.go", "	for _, v := range bb.Vertices() {\n		l := math.Hypot(v.X, v.Y)", "	for _, v := range []r3.Vec{bb.Min, bb.Max} {\n		l := math.Hypot(v.X, v.Y)")],
 "a circular copy of a shape in the second or fourth quadrant", "RotateCopy3D bounds use two corners of the box only", H3 + '''
func TestZZDemo(t *testing.T) {
	b := sdf.Transform3D(form3.Box(r3.Vec{X: 4, Y: 4, Z: 1}, 0), sdf.Translate3D(r3.Vec{X: 2.5, Y: -1.5}))
	s := sdf.RotateCopy3D(b, 1)
	p := r3.Vec{X: 4.45, Y: -3.45}
	if b.Evaluate(p) > 0 { t.Fatal("not solid") }
	s = sdf.RotateCopy3D(b, 2)
	q := r3.Vec{X: 4.45, Y: 0.4}
	_ = q
	bb := s.Bounds()
	r := math.Hypot(4.5, 3.5)
	if bb.Max.X < r-1e-9 { t.Fatal("bounds too small", bb) }
}
''')
seed("b07_slice_frame", "C08", [("sdf2.go", "s.u = r3.Vec{X: n.Y, Y: -n.X, Z: 0}", "s.u = r3.Vec{X: n.Y, Y: -n.X, Z: n.Z * (n.X - n.Y)}")],
 "a slice by a plane whose normal has three different nonzero components", "the frame of an oblique slice is not in the plane", '''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";form3 "github.com/soypat/sdf/form3/must3";"gonum.org/v1/gonum/spatial/r2";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	s := sdf.Slice2D(sdf.Transform3D(form3.Sphere(1), sdf.Translate3D(r3.Vec{X: 1, Y: 2, Z: 3})), r3.Vec{}, r3.Vec{X: 1, Y: 2, Z: 3})
	for i := 0; i < 40; i++ {
		x, y := math.Cos(float64(i)), math.Sin(float64(i))
		if d := s.Evaluate(r2.Vec{X: 2 * x, Y: 2 * y}); math.Abs(d-(math.Sqrt(18)-1)) > 1e-9 { t.Fatal(i, d) }
	}
}
''')
seed("b08_loft_clamp", "C08", [("sdf3.go", "k = clamp((0.5*p.Z/s.height)+0.5, 0, 1)", "k = math.Min((0.5*p.Z/s.height)+0.5, 1)")],
 "a rounded loft below the start of its rounding", "the mix of the profiles is extrapolated below the loft", '''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";form2 "github.com/soypat/sdf/form2/must2";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	s := sdf.Loft3D(form2.Circle(1), form2.Circle(5), 4, 1)
	// at z=-2 only the rounding around the bottom profile remains
	if d := s.Evaluate(r3.Vec{X: 2, Z: -1.5}); math.Abs(d-(math.Hypot(1, 0.5)-1)) > 1e-9 { t.Fatal(d) }
}
''')
seed("b09_cubic_tail", "C09", [("utils.go", "	h := math.Max(k-math.Abs(a-b), 0) / k\n	return math.Min(a, b) - h*h*h*k*(1.0/6.0)", "	h := math.Max(k-math.Abs(a-b), -k) / k\n	return math.Min(a, b) - h*h*h*k*(1.0/6.0)")],
 "cubic blending of values farther apart than k", "the cubic minimum exceeds the smaller argument", H2 + '''
func TestZZDemo(t *testing.T) {
	if d := sdf.MinPoly(3, 1)(0.5, 2.25); d > 0.5 { t.Fatal(d) }
}
''')
seed("b10_octree_room", "C10", [("render/octree_renderer.go", "			oc.mu.Unlock()\n			newCubes = append(newCubes, cubes...)\n			cubesProcessed++\n			break", "			oc.mu.Unlock()\n			if cubesProcessed++; tri > 0 || n > 0 {\n				newCubes = append(newCubes, cubes...)\n			}\n			break")],
 "a read of fewer than five triangles", "the renderer drops the parts of the model behind cubes processed for a small buffer", '''package render_test
import ("io";"testing";"github.com/soypat/sdf/render";form3 "github.com/soypat/sdf/form3/must3";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	r := render.NewOctreeRenderer(form3.Sphere(1), 6)
	want, _ := render.RenderAll(render.NewOctreeRenderer(form3.Sphere(1), 6))
	n := 0
	buf := make([]r3.Triangle, 3)
	for {
		k, err := r.ReadTriangles(buf)
		n += k
		if err == io.EOF { break }
		if err != nil { t.Fatal(err) }
	}
	if n != len(want) { t.Fatal(n, len(want)) }
}
''', "render")
seed("b11_overflow_lost", "C10", [("render/octree_renderer.go", "	if oc.unwritten.Len() > 0 {\n		n += oc.unwritten.Read(dst[n:])\n		if n == len(dst) {", "	if oc.unwritten.Len() > 0 {\n		n += oc.unwritten.Read(dst[n:])\n		if len(oc.todo) == 0 {\n			oc.unwritten = TriangleBuffer{}\n		}\n		if n == len(dst) {")],
 "the last cube leaves more triangles than the next read has room for", "triangles of the overflow are lost at the end", '''package render
import ("testing";"gonum.org/v1/gonum/spatial/r3")
type zzdummy struct{}
func TestZZDemo(t *testing.T) {
	oc := &octree{}
	oc.unwritten.Write(make([]r3.Triangle, 4))
	n := 0
	for i := 0; i < 10; i++ {
		k, err := oc.ReadTriangles(make([]r3.Triangle, 1))
		n += k
		if err != nil { break }
	}
	if n != 4 { t.Fatal(n) }
}
''', "render")
seed("b12_cube_skipped", "C11", [("render/octree_renderer.go", "dc.hdiag[i] = 0.5 * math.Sqrt(3.0*s*s)", "dc.hdiag[i] = 0.5 * math.Sqrt(3.0*s*s) * math.Min(1, 1.03-0.01*float64(i))")],
 "a cube of level 4 or more cut near a corner only", "large cubes that contain surface are skipped", '''package render
import ("math";"testing";"gonum.org/v1/gonum/spatial/r3")
type zzPlane struct{ d float64 }
func (p zzPlane) Evaluate(v r3.Vec) float64 { return (v.X+v.Y+v.Z)/math.Sqrt(3) - p.d }
func (p zzPlane) Bounds() r3.Box { return r3.Box{Min: r3.Vec{X: -1, Y: -1, Z: -1}, Max: r3.Vec{X: 1, Y: 1, Z: 1}} }
func TestZZDemo(t *testing.T) {
	for n := uint(1); n < 9; n++ {
		f := 0.995
		r := NewOctreeRenderer(zzPlane{}, 500)
		o, h := r.dc.origin, r.dc.resolution*float64(int(1)<<(n-1))
		c := (o.X+o.Y+o.Z+3*h)/math.Sqrt(3) // the plane value at the centre of the cube at the origin
		r.dc.s = zzPlane{c + f*h*math.Sqrt(3)}
		if r.dc.IsEmpty(&cube{n: n}) { t.Fatal("cut cube reported empty", n) }
	}
}
''', "render")
seed("b13_interpolate", "C12", [("render/marchingcubes.go", "	if closeToV2 && !closeToV1 {\n		return p2\n	}", "	if closeToV2 {\n		return p2\n	}")],
 "a cube edge whose two ends both lie on the surface within 1e-12", "the crossing depends on the direction the edge is passed", '''package render
import ("testing";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	p, q := r3.Vec{}, r3.Vec{X: 1}
	a, b := mcInterpolate(p, q, -1e-13, 1e-13, 0), mcInterpolate(q, p, 1e-13, -1e-13, 0)
	if a != b { t.Fatal(a, b) }
}
''', "render")
seed("b14_stl_error", "C13", [("render/stl.go", "	n, err := io.CopyBuffer(file, rd, make([]byte, 50*trianglesInBuffer))\n	// n, err := io.Copy(file, rd)\n	if err != nil {", "	n, err := io.CopyBuffer(file, rd, make([]byte, 50*trianglesInBuffer))\n	// n, err := io.Copy(file, rd)\n	if err != nil && n == 0 {")],
 "a renderer that fails after it has delivered triangles", "CreateSTL reports success for half a model", '''package render_test
import ("errors";"path/filepath";"testing";"github.com/soypat/sdf/render";"gonum.org/v1/gonum/spatial/r3")
type zz struct{ calls int }
func (z *zz) ReadTriangles(b []r3.Triangle) (int, error) {
	if z.calls++; z.calls > 2 { return 0, errors.New("lost") }
	for i := range b { b[i] = r3.Triangle{{}, {X: 1}, {Y: 1}} }
	return len(b), nil
}
func TestZZDemo(t *testing.T) {
	if err := render.CreateSTL(filepath.Join(t.TempDir(), "a.stl"), &zz{}); err == nil { t.Fatal("no error") }
}
''', "render")
seed("b15_3mf_share", "C14", [("render/3mf.go", "			if !ok {\n				entry", "			if ok && entry.count > 16 {\n				ok = false // limit sharing\n			}\n			if !ok {\n				entry")],
 "a vertex shared by more than sixteen triangle corners", "a vertex is listed twice", '''package render
import ("testing";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	var tr []r3.Triangle
	for i := 0; i < 24; i++ { tr = append(tr, r3.Triangle{{}, {X: 1, Y: float64(i)}, {X: 1, Y: float64(i + 1)}}) }
	var m model
	m.AddObject("m", tr)
	if n := len(m.Resources.Objects[0].Mesh.Vertices); n != 26 { t.Fatal(n) }
}
''', "render")
seed("b16_rotate_axis", "C06", [("matrix.go", "m*v.X*v.Y + v.Z*s, m*v.Y*v.Y + c, m*v.Y*v.Z - v.X*s, 0,", "m*v.X*v.Y + v.Z*s, m*v.Y*v.Y + c, m*v.Y*v.Z - math.Abs(v.X)*s, 0,")],
 "a rotation about an axis with a negative X component", "the rotation is not a rotation", H3 + '''
func TestZZDemo(t *testing.T) {
	m := sdf.Rotate3D(r3.Vec{X: -1, Y: 2, Z: 1}, 1)
	p := r3.Vec{X: 1, Y: 2, Z: 3}
	if d := r3.Norm(m.MulPosition(p)) - r3.Norm(p); math.Abs(d) > 1e-9 { t.Fatal(d) }
}
''')
seed("b17_last_row", "C07", [("sdf3.go", "			for l := 0; l < s.num[2]; l++ {", "			for l := 0; l < s.num[2] && (l < s.num[1] || j == 0 || k > 0); l++ {")],
 "a grid with more layers than rows", "copies of the first row are missing in upper layers", H3 + '''
func TestZZDemo(t *testing.T) {
	s := sdf.Array3D(form3.Sphere(1), sdf.V3i{2, 2, 3}, r3.Vec{X: 4, Y: 4, Z: 4})
	for j := 0; j < 2; j++ { for k := 0; k < 2; k++ { for l := 0; l < 3; l++ {
		if d := s.Evaluate(r3.Vec{X: float64(4 * j), Y: float64(4 * k), Z: float64(4 * l)}); math.Abs(d+1) > 1e-9 { t.Fatal(j, k, l, d) }
	}}}
}
''')

seeds = []
def seed(id, property, edits, needs, breaks, demo, pkg="."):
    seeds.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, pkg=pkg))

seed("b01_revolve_quadrant", "C01", [("sdf3.go", "if s.theta > 1.5*pi {", "if s.theta > 1.75*pi {")],
 "a partial revolution between 270 and 315 degrees",
 "Revolve3D bounds miss the part of the solid near -Y",
'''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";form2 "github.com/soypat/sdf/form2/must2";"gonum.org/v1/gonum/spatial/r2";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	s := sdf.Revolve3D(sdf.Transform2D(form2.Box(r2.Vec{X: 2, Y: 2}, 0), sdf.Translate2D(r2.Vec{X: 2})), 1.6*math.Pi)
	p := r3.Vec{X: 0, Y: -2.98, Z: 0}
	if s.Evaluate(p) > 0 { t.Fatal("demo point is not solid") }
	if p.Y < s.Bounds().Min.Y { t.Fatal("solid point outside bounds", s.Bounds()) }
}
''')
seed("b02_box_distance", "C04", [("internal/d2/box.go", '''		if withinY {
			d := math.Min(math.Abs(a.Max.X), math.Abs(a.Min.X))''', '''		if withinY && !withinX && a.Max.Y-a.Min.Y < a.Max.X-a.Min.X {
			d := math.Min(math.Abs(a.Max.X), math.Abs(a.Min.X))''')],
 "a point level with a tall box and close to its side, with a small shape a bit farther away",
 "a 2D union skips the closest operand",
'''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";form2 "github.com/soypat/sdf/form2/must2";"gonum.org/v1/gonum/spatial/r2")
func TestZZDemo(t *testing.T) {
	a := form2.Box(r2.Vec{X: 1, Y: 20}, 0)
	b := sdf.Transform2D(form2.Circle(0.5), sdf.Translate2D(r2.Vec{X: 5}))
	p := r2.Vec{X: 1.5}
	got, want := sdf.Union2D(a, b).Evaluate(p), math.Min(a.Evaluate(p), b.Evaluate(p))
	if math.Abs(got-want) > 1e-9 { t.Fatal(got, want) }
}
''')
seed("b03_flat_cylinder", "C03", [("form3/must3/util.go", "", "")],
 "", "", "")
seeds.pop()
seed("b03_cone_cap", "C03", [("form3/must3/cylinders.go", "if p2.Y <= -s.height && p2.X <= s.r0 {", "if p2.Y <= -s.height && p2.X <= math.Max(s.r0, s.r1) {")],
 "a cone wider at the top than at the base, and a point below it beyond the base radius",
 "distance below an upside-down cone is too small",
'''package must3
import ("math";"testing";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	s := Cone(2, 1, 3, 0)
	// nearest point is the base rim (1,0,-1)
	got, want := s.Evaluate(r3.Vec{X: 2, Z: -4}), math.Hypot(1, 3)
	if math.Abs(got-want) > 1e-9 { t.Fatal(got, want) }
}
''', "form3/must3")
seed("b04_inverse", "C05", [("matrix.go", "", "")], "", "", "")
seeds.pop()

seed("b04_mirror_inverse", "C05", [("matrix.go", """func (a m33) Inverse() m33 {
	m := m33{}
	d := 1 / a.Determinant()""", """func (a m33) Inverse() m33 {
	m := m33{}
	d := math.Abs(1 / a.Determinant())""")],
 "an orientation reversing 2D transform (a mirror)",
 "2D transforms that mirror are inverted with the wrong sign",
'''package sdf_test
import ("math";"testing";"github.com/soypat/sdf";form2 "github.com/soypat/sdf/form2/must2";"gonum.org/v1/gonum/spatial/r2")
func TestZZDemo(t *testing.T) {
	b := sdf.Transform2D(form2.Box(r2.Vec{X: 2, Y: 4}, 0), sdf.Translate2D(r2.Vec{X: 5, Y: 1}))
	m := sdf.Transform2D(b, sdf.MirrorX())
	p := r2.Vec{X: 5, Y: -1}
	if d := m.Evaluate(p); math.Abs(d+1) > 1e-9 { t.Fatal(d) }
	if p := m.Bounds(); math.Abs(p.Min.X-4) > 1e-9 { t.Fatal(p) }
}
''')

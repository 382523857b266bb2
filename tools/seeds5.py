seeds = []
def seed(id, property, edits, needs, breaks, demo, pkg=".", flags=""):
    seeds.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, pkg=pkg, flags=flags))
seed("b24_lenient_round", "C17", [("form3/basic.go", "	return must3.Cylinder(height, radius, round), err\n", "	return must3.Cylinder(height, radius, math.Min(round, height/2)), err\n")],
 "a rounding more than half the height", "no error for a cylinder whose rounding does not fit its height", '''package form3_test
import ("testing";"github.com/soypat/sdf/form3")
func TestZZDemo(t *testing.T) {
	if s, err := form3.Cylinder(1, 2, 0.75); err == nil || s != nil { t.Fatal(s, err) }
	if s, err := form3.Cylinder(1, 2, 0.5); err != nil || s == nil { t.Fatal(s, err) }
}
''', "form3")
seed("b25_cone_inset", "C17", [("form3/must3/cylinders.go", "	if height < 2.0*round {\n		panic(\"height < 2 * round\")\n	}\n	s := cone{}", "	if math.Min(height, 2*math.Max(r0, r1)) < 2.0*round {\n		panic(\"height < 2 * round\")\n	}\n	s := cone{}")],
 "a cone with a rounding more than both radii", "cones are rejected that were made", '''package form3_test
import ("testing";"github.com/soypat/sdf/form3")
func TestZZDemo(t *testing.T) {
	if s, err := form3.Cone(4, 0.5, 0.25, 1); err != nil || s == nil { t.Fatal(s, err) }
	if s, err := form3.Cone(4, 3, 2, 1); err != nil || s == nil { t.Fatal(s, err) }
}
''', "form3")

seed("b26_scratch", "C18", [("sdf2.go", "type union2 struct {\n	sdf []SDF2\n	min MinFunc\n	bb  r2.Box\n", "type union2 struct {\n	sdf []SDF2\n	min MinFunc\n	bb  r2.Box\n	vs  []r2.Vec\n"),
  ("sdf2.go", "	vs := make([]r2.Vec, len(s.sdf))\n	minDist2", "	if len(s.vs) < len(s.sdf) {\n		s.vs = make([]r2.Vec, len(s.sdf))\n	}\n	vs := s.vs\n	minDist2")],
 "two evaluations of one union at the same time", "the box distances of one evaluation are used by another", '''package sdf_test
import ("testing";"github.com/soypat/sdf";"gonum.org/v1/gonum/spatial/r2")
type leaf struct{ at r2.Vec; hook func(p r2.Vec) }
func (l *leaf) Evaluate(p r2.Vec) float64 { if l.hook != nil { l.hook(p) }; return r2.Norm(r2.Sub(p, l.at)) - 1 }
func (l *leaf) Bounds() r2.Box { o := r2.Vec{X: 1, Y: 1}; return r2.Box{Min: r2.Sub(l.at, o), Max: r2.Add(l.at, o)} }
func TestZZDemo(t *testing.T) {
	a, b := &leaf{}, &leaf{at: r2.Vec{X: 2.2}}
	u := sdf.Union2D(a, b)
	p := r2.Vec{X: 0.9, Y: 0.95}
	u.SetMin(func(a, b float64) float64 { return a + b })
	want := u.Evaluate(p)
	busy := false
	a.hook = func(q r2.Vec) { if !busy { busy = true; done := make(chan bool); go func() { u.Evaluate(r2.Vec{X: -20}); close(done) }(); <-done; busy = false } }
	if got := u.Evaluate(p); got != want { t.Fatal(got, want) }
}
''')
seed("b27_last_turn", "C18", [("utils.go", "	k := twist / height\n	return func(p r3.Vec) r2.Vec {\n		m := Rotate(p.Z * k)\n", "	k := twist / height\n	var z float64\n	m := Rotate(0)\n	return func(p r3.Vec) r2.Vec {\n		if p.Z != z {\n			z, m = p.Z, Rotate(p.Z*k)\n		}\n")],
 "a twisted extrusion evaluated in several goroutines", "two goroutines share the last rotation", '''package sdf_test
import ("testing";"sync";"github.com/soypat/sdf";"github.com/soypat/sdf/form2/must2";"gonum.org/v1/gonum/spatial/r2";"gonum.org/v1/gonum/spatial/r3")
func TestZZDemo(t *testing.T) {
	s := sdf.TwistExtrude3D(must2.Box(r2.Vec{X: 3, Y: 1}, 0), 10, 3)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 1000; i++ { s.Evaluate(r3.Vec{X: 1, Y: 0.3, Z: float64(g) + float64(i)/1000}) } }()
	}
	wg.Wait()
}
''', flags="-race")

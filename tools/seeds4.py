seeds = []
def seed(id, property, edits, needs, breaks, demo, pkg="."):
    seeds.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, pkg=pkg))
HT = '''package thread_test
import ("math";"testing";"github.com/soypat/sdf";"github.com/soypat/sdf/form3/obj3/thread";"gonum.org/v1/gonum/spatial/r2";"gonum.org/v1/gonum/spatial/r3")
type prof struct{}
func (prof) Evaluate(p r2.Vec) float64 { return p.Y - 3 - p.X/4 }
func (prof) Bounds() r2.Box { return r2.Box{Min: r2.Vec{X: -1}, Max: r2.Vec{X: 1, Y: 4}} }
type thr struct{ starts int; taper float64 }
func (thr) Thread() (sdf.SDF2, error) { return prof{}, nil }
func (t thr) ThreadParams() thread.Parameters { return thread.Parameters{Name: "t", Radius: 3, Pitch: 1, Starts: t.starts, Taper: t.taper, HexF2F: 10} }
var _ = math.Abs
'''
seed("b20_sawtooth", "C16", [("form3/obj3/thread/thread.go", "	return period*(t-math.Floor(t)) - period/2", "	_, t = math.Modf(t)\n	return period*t - period/2")],
 "points more than half a pitch below the middle of the screw", "the place along the thread is a pitch off below the middle", HT + '''
func TestZZDemo(t *testing.T) {
	s, _ := thread.Screw(10, thr{starts: 1})
	a, b := s.Evaluate(r3.Vec{X: 3, Z: 1.75}), s.Evaluate(r3.Vec{X: 3, Z: -2.25})
	if math.Abs(a-b) > 1e-9 { t.Fatal(a, b) }
}
''', "form3/obj3/thread")
seed("b22_bolt_joint", "C16", [("form3/obj3/thread/bolt.go", "	\"errors\"\n", "	\"errors\"\n	\"math\"\n"), ("form3/obj3/thread/bolt.go", "		threadOffset := threadLength/2 + shankLength\n", "		threadOffset := threadLength/2 + math.Min(shankLength, threadLength)\n")],
 "a bolt whose shank is longer than its thread", "the thread does not start where the shank ends", HT + '''
func TestZZDemo(t *testing.T) {
	b, err := thread.Bolt(thread.BoltParms{Thread: thr{starts: 1}, Style: thread.NutHex, TotalLength: 30, ShankLength: 20})
	if err != nil { t.Fatal(err) }
	hh := thr{}.ThreadParams().HexHeight()
	end := 20 + hh/2 + 10
	if d := b.Evaluate(r3.Vec{X: 0.5, Z: end}); math.Abs(d) > 1e-6 { t.Fatal(d) }
}
''', "form3/obj3/thread")
seed("b23_round_end", "C16", [("form3/obj3/thread/hexhead.go", "		if round == \"b\" || round == \"tb\" {\n			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(sphere3d, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: zOfs})))", "		if round == \"b\" || round == \"tb\" {\n			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(sphere3d, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: math.Max(zOfs, 0)})))")],
 "a head so tall that the sphere's centre lies on the other side", "the rounding of tall heads at the bottom", HT + '''
func TestZZDemo(t *testing.T) {
	s, err := thread.HexHead(1, 4, "tb")
	if err != nil { t.Fatal(err) }
	for i := -30; i < 30; i++ {
		p := r3.Vec{X: 0.5, Y: 0.3, Z: float64(i) * 0.1}
		q := r3.Vec{X: 0.5, Y: 0.3, Z: -p.Z}
		if d, e := s.Evaluate(p), s.Evaluate(q); math.Abs(d-e) > 1e-9 { t.Fatal(p, d, e) }
	}
}
''', "form3/obj3/thread")

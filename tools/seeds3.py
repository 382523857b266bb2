seeds = []
def seed(id, property, edits, needs, breaks, demo, pkg="."):
    seeds.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, pkg=pkg))
H2 = '''package must2_test
import ("math";"testing";"github.com/soypat/sdf/form2/must2";"gonum.org/v1/gonum/spatial/r2")
var _ = math.Abs
'''
seed("b18_level_vertex", "C15", [("form2/must2/poly.go", "			if b.Y <= p.Y { // downward crossing", "			if b.Y < p.Y { // downward crossing")],
 "a point level with a vertex where an edge ends going down", "the point is given the wrong sign", H2 + '''
func TestZZDemo(t *testing.T) {
	s := must2.Polygon([]r2.Vec{{X: 0, Y: -2}, {X: 2, Y: 0}, {X: 0, Y: 2}, {X: -2, Y: 0}})
	if d := s.Evaluate(r2.Vec{X: -5, Y: 0}); d < 0 { t.Fatal(d) }
	if d := s.Evaluate(r2.Vec{X: 0.5, Y: 0}); d > 0 { t.Fatal(d) }
}
''', "form2/must2")
seed("b19_reversed", "C15", [("form2/must2/poly.go", "			v[n-1-i] = pv.vertex", "			v[(n-i)%n] = pv.vertex")],
 "a reversed list of vertices", "the vertices are reversed but for the first", H2 + '''
func TestZZDemo(t *testing.T) {
	p := must2.NewPolygon()
	p.Add(0, 0)
	p.Add(1, 0).Rel()
	p.Add(0, 2).Rel()
	p.Reverse()
	v := p.Vertices()
	if len(v) != 3 || v[0] != (r2.Vec{X: 1, Y: 2}) || v[2] != (r2.Vec{}) { t.Fatal(v) }
}
''', "form2/must2")

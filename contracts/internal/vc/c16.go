//go:build verif

package vc

import (
	"errors"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3/thread"
	. "github.com/soypat/sdf/internal/vspec"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// a thread of any profile
type anyThread struct {
	profile sdf.SDF2
	params  thread.Parameters
	err     error
}

func (a anyThread) Thread() (sdf.SDF2, error) {
	if a.err != nil {
		return nil, a.err
	}
	return a.profile, nil
}
func (a anyThread) ThreadParams() thread.Parameters { return a.params }

func someThread(t *T, flags ...string) anyThread {
	return anyThread{profile: t.SDF2("profile", flags...), params: thread.Parameters{
		Name: "any", Radius: t.Pos("radius"), Pitch: t.Pos("pitch"), Starts: t.Int("starts", -9, 9),
		Taper: t.In("taper", -1.5, 1.5), HexF2F: t.Pos("f2f"),
	}}
}

// the profile wound up: distance from the axis and height give the point of the profile
func wound(t *T, th anyThread, length float64, p r3.Vec) float64 {
	lead := th.params.Pitch * float64(th.params.Starts)
	h := p.Z - lead*math.Atan2(p.Y, p.X)/(2*math.Pi)
	turns := (h + th.params.Pitch/2) / th.params.Pitch
	if f := turns - math.Floor(turns); t.Native() {
		t.Require(f > 1e-7 && f < 1-1e-7) // where a period ends rounding decides
	}
	q := r2.Vec{
		X: th.params.Pitch*(turns-math.Floor(turns)) - th.params.Pitch/2,
		Y: Sqrt(p.X*p.X+p.Y*p.Y) + p.Z*math.Tan(th.params.Taper),
	}
	return math.Max(th.profile.Evaluate(q), math.Abs(p.Z)-length/2)
}

func C16_Screw(t *T) {
	th := someThread(t)
	l := t.Pos("length")
	p := t.Vec3("p")
	s, err := thread.Screw(l, th)
	t.Ensure("made", err == nil && s != nil)
	t.Ensure("the profile wound along the axis", Eq(s.Evaluate(p), wound(t, th, l, p)))
}

func C16_ScrewBounds(t *T) {
	th := someThread(t, "sound")
	l := t.Pos("length")
	p := t.Vec3("p")
	s, _ := thread.Screw(l, th)
	p = t.Seek3(p, s)
	t.Require(s.Evaluate(p) <= 0)
	t.Ensure("solid inside bounds", InBox3(p, s.Bounds()))
}

func C16_ScrewErrors(t *T) {
	th := someThread(t)
	bad := t.Real("bad")
	t.Require(bad <= 0)
	s, err := thread.Screw(bad, th)
	t.Ensure("length", err != nil && s == nil)
	s, err = thread.Screw(t.Real("length"), nil)
	t.Ensure("no thread", err != nil && s == nil)
	th.err = errors.New("no profile")
	s, err = thread.Screw(t.Pos("l"), th)
	t.Ensure("no profile", err == th.err && s == nil)
}

// heads of any shape
func anyHeads(t *T, p thread.Parameters, round string) (hex, knurl sdf.SDF3) {
	if t.Native() {
		hex, _ = thread.HexHead(p.HexRadius(), p.HexHeight(), round)
		knurl, _ = thread.KnurledHead(p.HexRadius(), p.HexHeight(), p.HexRadius()*0.25)
		return hex, knurl
	}
	hex, knurl = t.SDF3("hex"), t.SDF3("knurl")
	t.Replace(thread.HexHead, func(radius, height float64, r string) (sdf.SDF3, error) {
		t.Have("hex head", And(r == round, And(radius == p.HexRadius(), height == p.HexHeight())))
		return hex, nil
	}, "C16_HexHead")
	t.Replace(thread.KnurledHead, func(radius, height, pitch float64) (sdf.SDF3, error) {
		t.Have("knurled head", And(pitch == p.HexRadius()*0.25, And(radius == p.HexRadius(), height == p.HexHeight())))
		return knurl, nil
	}, "C16_KnurledHead")
	return
}

func C16_HexSizes(t *T) {
	th := someThread(t)
	r := th.params.HexRadius()
	t.Ensure("radius of the circle around the hexagon", Eq(r*Sqrt(3), th.params.HexF2F))
	t.Ensure("height", Eq(th.params.HexHeight(), 2*r*(5.0/12.0)))
}

func C16_Nut(t *T) {
	th := someThread(t)
	p := t.Vec3("p")
	r, h := th.params.HexRadius(), th.params.HexHeight()
	hex, knurl := anyHeads(t, th.params, "tb")
	style := thread.NutStyle(t.Int("style", 1, 3))
	n, err := thread.Nut(thread.NutParms{Thread: th, Style: style})
	t.Ensure("made", err == nil && n != nil)
	var body sdf.SDF3
	switch style {
	case thread.NutCircular:
		body = must3.Cylinder(h, r*1.1, 0)
	case thread.NutHex:
		body = hex
	default:
		body = knurl
	}
	t.Ensure("the screw removed from the body", Eq(n.Evaluate(p), math.Max(body.Evaluate(p), -wound(t, th, h, p))))
}

func C16_NutErrors(t *T) {
	th := someThread(t)
	x := t.Real("x")
	t.Require(x < 0)
	anyHeads(t, th.params, "tb")
	try := func(name string, k thread.NutParms) {
		n, err := thread.Nut(k)
		t.Ensure(name, err != nil && n == nil)
	}
	try("no thread", thread.NutParms{Style: thread.NutHex})
	try("tolerance", thread.NutParms{Thread: th, Style: thread.NutHex, Tolerance: x})
	try("style", thread.NutParms{Thread: th, Style: thread.NutStyle(t.Int("high", 4, 1<<30))})
	try("no style", thread.NutParms{Thread: th, Style: thread.NutStyle(-t.Int("low", 0, 1<<30))})
	th.err = errors.New("no profile")
	try("no profile", thread.NutParms{Thread: th, Style: thread.NutHex})
	th.err, th.params.HexF2F = nil, x
	try("size of the head", thread.NutParms{Thread: th, Style: thread.NutHex})
}

func C16_Bolt(t *T) {
	th := someThread(t)
	p := t.Vec3("p")
	r, h := th.params.Radius, th.params.HexHeight()
	hex, knurl := anyHeads(t, th.params, "b")
	head := hex
	style := thread.NutHex
	if t.Bool("knurled") {
		head, style = knurl, thread.NutKnurl
	}
	shank, screw := t.NonNeg("shank"), t.Pos("screw")
	t.Require(0.08*h <= r)
	l := shank + h/2
	t.Require(0.16*h <= l)
	cc := t.SDF3("chamfer")
	t.Replace(must3.ChamferedCylinder, func(s sdf.SDF3, kb, kt float64) sdf.SDF3 {
		t.Have("chamfer at the end", And(kb == 0, kt == 0.5))
		return chamfered{s, cc}
	}, "C16_ChamferedEnds")
	b, err := thread.Bolt(thread.BoltParms{Thread: th, Style: style, TotalLength: shank + screw, ShankLength: shank})
	t.Ensure("made", err == nil && b != nil)
	// the head is centred on the origin, the shank starts there and the screw follows
	at := func(z float64) r3.Vec { return r3.Vec{X: p.X, Y: p.Y, Z: p.Z - z} }
	s, _ := thread.Screw(screw, th)
	s = must3.ChamferedCylinder(s, 0, 0.5)
	rod := must3.Cylinder(l, r, h*0.08)
	t.Ensure("head, shank and screw", Eq(b.Evaluate(p), math.Min(math.Min(head.Evaluate(p), rod.Evaluate(at(l/2))), s.Evaluate(at(l+screw/2)))))
}

// chamfered is s within a chamfered cylinder
type chamfered struct{ s, cc sdf.SDF3 }

func (c chamfered) Evaluate(p r3.Vec) float64 { return math.Max(c.s.Evaluate(p), c.cc.Evaluate(p)) }
func (c chamfered) Bounds() r3.Box            { return c.s.Bounds() }

func C16_BoltErrors(t *T) {
	th := someThread(t)
	x, total := t.Real("x"), t.Pos("total")
	t.Require(x < 0)
	anyHeads(t, th.params, "b")
	ok := thread.BoltParms{Thread: th, Style: thread.NutHex, TotalLength: total}
	try := func(name string, f func(k *thread.BoltParms)) {
		k := ok
		f(&k)
		b, err := thread.Bolt(k)
		t.Ensure(name, err != nil && b == nil)
	}
	try("no thread", func(k *thread.BoltParms) { k.Thread = nil })
	try("length", func(k *thread.BoltParms) { k.TotalLength = x })
	try("shank", func(k *thread.BoltParms) { k.ShankLength = x })
	try("only shank", func(k *thread.BoltParms) { k.ShankLength = total + t.NonNeg("more") })
	try("tolerance", func(k *thread.BoltParms) { k.Tolerance = x })
	try("style", func(k *thread.BoltParms) { k.Style = thread.NutStyle(t.Int("high", 4, 1<<30)) })
	try("no style", func(k *thread.BoltParms) { k.Style = thread.NutStyle(-t.Int("low", 0, 1<<30)) })
	try("size of the head", func(k *thread.BoltParms) { th.params.HexF2F = x; k.Thread = th })
}

// anyPolygonShape makes the next polygon an operand and reports its vertices.
func anyPolygonShape(t *T, name string) (shape *sdf.SDF2, vs *[]r2.Vec) {
	shape, vs = new(sdf.SDF2), new([]r2.Vec)
	if t.Native() {
		return
	}
	*shape = t.SDF2(name)
	t.Replace(must2.Polygon, func(v []r2.Vec) sdf.SDF2 {
		*vs = v
		return *shape
	}, "C15_PolygonEdges")
	return
}

// a hexagon extruded, its ends within spheres
func C16_HexHead(t *T) {
	r, h := t.Pos("radius"), t.Pos("height")
	p := t.Vec3("p")
	ends := []string{"", "t", "b", "tb"}[t.Int("ends", 0, 3)]
	shape, vs := anyPolygonShape(t, "hexagon")
	s, err := thread.HexHead(r, h, ends)
	t.Ensure("made", err == nil && s != nil)
	R := r - r*0.08
	if t.Native() {
		for i := 0; i < 6; i++ {
			*vs = append(*vs, r2.Vec{X: R * math.Cos(float64(i)*math.Pi/3), Y: R * math.Sin(float64(i)*math.Pi/3)})
		}
		*shape = must2.Polygon(*vs)
	} else {
		t.Ensure("six vertices", len(*vs) == 6)
		w := R * Sqrt(3) / 2
		for i, q := range []r2.Vec{{X: R}, {X: R / 2, Y: w}, {X: -R / 2, Y: w}, {X: -R}, {X: -R / 2, Y: -w}, {X: R / 2, Y: -w}} {
			t.Ensure("hexagon", EqV2((*vs)[i], q))
		}
	}
	e := math.Max((*shape).Evaluate(r2.Vec{X: p.X, Y: p.Y})-r*0.08, math.Abs(p.Z)-h/2)
	// the spheres pass through the middles of the hexagon's sides at the ends
	big := 1.6 * r
	off := Sqrt(big*big-r*r*3/4) - h/2
	if ends == "t" || ends == "tb" {
		e = math.Max(e, Sqrt(p.X*p.X+p.Y*p.Y+(p.Z+off)*(p.Z+off))-big)
	}
	if ends == "b" || ends == "tb" {
		e = math.Max(e, Sqrt(p.X*p.X+p.Y*p.Y+(p.Z-off)*(p.Z-off))-big)
	}
	t.Ensure("hexagon within spheres", Eq(s.Evaluate(p), e))
}

func C16_HexHeadErrors(t *T) {
	r := t.Real("radius")
	t.Require(r <= 0)
	ends := []string{"t", "b", "tb"}[t.Int("ends", 0, 2)]
	s, err := thread.HexHead(r, t.Pos("height"), ends)
	t.Ensure("radius", err != nil && s == nil)
}

// a left and a right hand screw of a triangular profile
func C16_Knurl(t *T) {
	k := thread.KnurlParams{Length: t.Pos("length"), Radius: t.Pos("radius"), Pitch: t.Pos("pitch"), Height: t.Pos("height"), Theta: t.In("theta", 0, 1.5)}
	p := t.Vec3("p")
	n := int(2 * math.Pi * k.Radius * math.Tan(k.Theta) / k.Pitch)
	v := []r2.Vec{{X: k.Pitch / 2}, {X: k.Pitch / 2, Y: k.Radius}, {Y: k.Radius + k.Height}, {X: -k.Pitch / 2, Y: k.Radius}, {X: -k.Pitch / 2}}
	screw := func(n int) thread.Threader {
		return anyThread{profile: must2.Polygon(v), params: thread.Parameters{Pitch: k.Pitch, Starts: n}}
	}
	shape, vs := anyPolygonShape(t, "ridge")
	s, err := thread.Knurl(k)
	t.Ensure("made", err == nil && s != nil)
	if !t.Native() {
		t.Ensure("five vertices", len(*vs) == 5)
		for i, q := range v {
			t.Ensure("ridge", EqV2((*vs)[i], q))
		}
		_ = shape
	}
	a, _ := thread.Screw(k.Length, screw(n))
	b, _ := thread.Screw(k.Length, screw(-n))
	t.Ensure("both hands", Eq(s.Evaluate(p), math.Max(a.Evaluate(p), b.Evaluate(p))))
}

// a cylinder and a whole number of knurls around it
func C16_KnurledHead(t *T) {
	r, h, pitch := t.Pos("radius"), t.Pos("height"), t.Pos("pitch")
	p := t.Vec3("p")
	t.Require(h-r*0.05 > pitch)
	t.Require(r*0.1 <= h)
	n := math.Floor((h - r*0.05) / pitch)
	if !t.Native() {
		knurl := t.SDF3("knurl")
		t.Replace(thread.Knurl, func(k thread.KnurlParams) (sdf.SDF3, error) {
			t.Have("length", Eq(k.Length, n*pitch))
			t.Have("ridges", And(And(k.Radius == r, k.Pitch == pitch), And(Eq(k.Height, 0.3*pitch), Eq(math.Tan(k.Theta), 1))))
			return knurl, nil
		}, "C16_Knurl")
	}
	s, err := thread.KnurledHead(r, h, pitch)
	t.Ensure("made", err == nil && s != nil)
	k, _ := thread.Knurl(thread.KnurlParams{Length: n * pitch, Radius: r, Pitch: pitch, Height: 0.3 * pitch, Theta: math.Pi / 4})
	t.Ensure("cylinder and knurl", Eq(s.Evaluate(p), math.Min(must3.Cylinder(h, r, r*0.05).Evaluate(p), k.Evaluate(p))))
}

// the box around a shape gives the cylinder whose corners are cut at 45 degrees
func C16_ChamferedEnds(t *T) {
	s := t.SDF3("s")
	p := t.Vec3("p")
	b := s.Bounds()
	r, l := b.Max.X, b.Max.Z
	kb, kt := 0.0, 0.0
	if t.Bool("bottom") {
		kb = t.Pos("kb")
	}
	if t.Bool("top") {
		kt = t.Pos("kt")
	}
	t.Require(And(r > 0, l > 0))
	cb, ct := r*kb*math.Sqrt2/2, r*kt*math.Sqrt2/2
	t.Require(And(cb < r, And(ct < r, And(cb < l, ct < l))))
	var shape sdf.SDF2
	if !t.Native() {
		// the smoothing of polygon vertices is only run
		shape = t.SDF2("outline")
		outline := []r2.Vec{t.Vec2("v0"), t.Vec2("v1"), t.Vec2("v2"), t.Vec2("v3")}
		t.Replace((*must2.PolygonBuilder).Vertices, func(b *must2.PolygonBuilder) []r2.Vec { return outline }, "smoothed polygon vertices, which are only run")
		t.Replace(must2.Polygon, func(v []r2.Vec) sdf.SDF2 {
			for i := range outline {
				t.Have("outline", EqV2(v[i], outline[i]))
			}
			return shape
		}, "C15_PolygonEdges")
	}
	var c sdf.SDF3
	if t.Bool("must") {
		c = must3.ChamferedCylinder(s, kb, kt)
	} else {
		var err error
		c, err = form3.ChamferedCylinder(s, kb, kt)
		t.Ensure("made", err == nil)
	}
	v := []r2.Vec{{Y: -l}}
	if kb > 0 {
		v = append(v, r2.Vec{X: r - cb, Y: -l}, r2.Vec{X: r, Y: cb - l})
	} else {
		v = append(v, r2.Vec{X: r, Y: -l})
	}
	if kt > 0 {
		v = append(v, r2.Vec{X: r, Y: l - ct}, r2.Vec{X: r - ct, Y: l})
	} else {
		v = append(v, r2.Vec{X: r, Y: l})
	}
	v = append(v, r2.Vec{Y: l})
	if t.Native() {
		shape = must2.Polygon(v)
	}
	t.Ensure("within the outline turned", Eq(c.Evaluate(p), math.Max(s.Evaluate(p), shape.Evaluate(r2.Vec{X: Sqrt(p.X*p.X + p.Y*p.Y), Y: p.Z}))))
}

// halfPlane is the profile of a smooth thread
type halfPlane struct{ r float64 }

func (h halfPlane) Evaluate(p r2.Vec) float64 { return p.Y - h.r }
func (h halfPlane) Bounds() r2.Box            { return r2.Box{Min: r2.Vec{X: -1}, Max: r2.Vec{X: 1, Y: h.r}} }

// the tolerance is added to the radius of a nut's thread
func C16_Tolerance(t *T) {
	th := someThread(t)
	th.params.Taper = 0
	th.profile = halfPlane{th.params.Radius}
	p, tol := t.Vec3("p"), t.Pos("tolerance")
	r, h := th.params.HexRadius(), th.params.HexHeight()
	n, err := thread.Nut(thread.NutParms{Thread: th, Style: thread.NutCircular, Tolerance: tol})
	t.Ensure("made", err == nil && n != nil)
	hole := math.Max(Sqrt(p.X*p.X+p.Y*p.Y)-th.params.Radius-tol, math.Abs(p.Z)-h/2)
	t.Ensure("clearance", Eq(n.Evaluate(p), math.Max(must3.Cylinder(h, r*1.1, 0).Evaluate(p), -hole)))
}

From 90bbd8aa4e83fe96c06e771785718b97a7c64570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:20 +0000
Subject: [PATCH 01/17] fix: Elongate2D elongates about the origin (negative
 half extent had the wrong sign)

---
 sdf2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf2.go b/sdf2.go
index 900ae78..16b2762 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -504,7 +504,7 @@ func Elongate2D(sdf SDF2, h r2.Vec) SDF2 {
 	s := elongate2{
 		sdf: sdf,
 		hp:  r2.Scale(0.5, h),
-		hn:  r2.Scale(0.5, h),
+		hn:  r2.Scale(-0.5, h),
 	}
 	// bounding box
 	bb := d2.Box(sdf.Bounds())
-- 
2.43.0


From b1875fe96ea1a991e6339e419b308cfe2d2c9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 02/17] fix: ScaleTwistExtrude interpolates the scale linearly
 (slope was inv-1/height)

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 7303faf..57d7fed 100644
--- a/utils.go
+++ b/utils.go
@@ -233,7 +233,7 @@ func ScaleExtrude(height float64, scale r2.Vec) ExtrudeFunc {
 func ScaleTwistExtrude(height, twist float64, scale r2.Vec) ExtrudeFunc {
 	k := twist / height
 	inv := r2.Vec{X: 1 / scale.X, Y: 1 / scale.Y}
-	m := r2.Sub(inv, d2.DivElem(r2.Vec{X: 1, Y: 1}, d2.Elem(height))) // slope
+	m := d2.DivElem(r2.Sub(inv, r2.Vec{X: 1, Y: 1}), d2.Elem(height)) // slope
 	// m := inv.Sub(r2.Vec{1, 1}).DivScalar(height) // slope
 	b := r2.Add(d2.DivElem(inv, d2.Elem(2)), d2.Elem(0.5))
 	// b := inv.DivScalar(2).AddScalar(0.5) // intercept
-- 
2.43.0


From c5fd9aa01051539dcfa3685a04dba971d7ba0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 03/17] fix: TwistExtrude3D bounds use the farthest corner of
 the profile, not its maximum corner

---
 sdf3.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdf3.go b/sdf3.go
index ac49676..537ec85 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -138,11 +138,16 @@ func TwistExtrude3D(sdf SDF2, height, twist float64) SDF3 {
 	s.extrude = TwistExtrude(height, twist)
 	// work out the bounding box
 	bb := sdf.Bounds()
-	l := r2.Norm(bb.Max)
+	l := maxRadius(bb)
 	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
 	return &s
 }
 
+// maxRadius returns the distance from the origin to the farthest corner of the box.
+func maxRadius(bb r2.Box) float64 {
+	return r2.Norm(d2.MaxElem(d2.AbsElem(bb.Min), d2.AbsElem(bb.Max)))
+}
+
 // ScaleExtrude3D extrudes an SDF2 and scales it over the height of the extrusion.
 func ScaleExtrude3D(sdf SDF2, height float64, scale r2.Vec) SDF3 {
 	s := extrude3{}
-- 
2.43.0


From e6cc18b4aa957493c464190b93e9960bce18d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 04/17] fix: ScaleTwistExtrude3D bounds contain the scaled and
 twisted profile

---
 sdf3.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sdf3.go b/sdf3.go
index 537ec85..0b8f94f 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -168,9 +168,8 @@ func ScaleTwistExtrude3D(sdf SDF2, height, twist float64, scale r2.Vec) SDF3 {
 	s.height = height / 2
 	s.extrude = ScaleTwistExtrude(height, twist, scale)
 	// work out the bounding box
-	bb := d2.Box(sdf.Bounds())
-	bb = bb.Extend(d2.Box{Min: d2.MulElem(bb.Min, scale), Max: d2.MulElem(bb.Max, scale)})
-	l := r2.Norm(bb.Max)
+	// the profile may point in any direction when it is scaled.
+	l := maxRadius(sdf.Bounds()) * math.Max(1, d2.Max(d2.AbsElem(scale)))
 	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
 	return &s
 }
-- 
2.43.0


From ff0e4c4aacd4740425253b6fd7dbb1792fd67c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:23 +0000
Subject: [PATCH 05/17] fix: Revolve3D bounds of whole multiples of a full
 revolution

---
 sdf3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf3.go b/sdf3.go
index 0b8f94f..67df39e 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -65,7 +65,7 @@ func Revolve3D(sdf SDF2, theta float64) SDF3 {
 	s.norm = r2.Vec{X: -sin, Y: cos}
 	// work out the bounding box
 	var vset d2.Set
-	if theta == 0 {
+	if s.theta == 0 {
 		vset = []r2.Vec{{X: 1, Y: 1}, {X: -1, Y: -1}}
 	} else {
 		vset = []r2.Vec{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: cos, Y: sin}}
-- 
2.43.0


From 4810798778faa271e8c816b18a436f56f98e8570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:06 +0000
Subject: [PATCH 06/17] fix: rotateToVec between opposite vectors is a half
 turn, not a point reflection

---
 matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/matrix.go b/matrix.go
index 3efb58a..e2707e9 100644
--- a/matrix.go
+++ b/matrix.go
@@ -515,12 +515,12 @@ func rotateToVec(a, b r3.Vec) m44 {
 
 	// are the vectors opposite (180 degrees apart)?
 	if d3.EqualWithin(r3.Scale(-1, a), b, epsilon) {
-		return m44{
-			-1, 0, 0, 0,
-			0, -1, 0, 0,
-			0, 0, -1, 0,
-			0, 0, 0, 1,
+		// half turn about an axis perpendicular to a
+		axis := r3.Vec{X: -a.Y, Y: a.X}
+		if math.Abs(a.Z) > 0.5 {
+			axis = r3.Vec{X: a.Z, Z: -a.X}
 		}
+		return Rotate3D(axis, pi)
 	}
 	// general case
 	// See:	https://math.stackexchange.com/questions/180418/calculate-rotation-matrix-to-align-vector-a-to-vector-b-in-3d
-- 
2.43.0


From fcd8dfae80d0c85bea52c63d9076412d7de3b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:10 +0000
Subject: [PATCH 07/17] fix: Multi2D, Multi3D, Orient3D, LineOf2D and LineOf3D
 of no or one object do not panic

---
 sdf2.go | 12 ++++++++++--
 sdf3.go | 15 +++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index 16b2762..d51df7e 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -564,7 +564,15 @@ func LineOf2D(s SDF2, p0, p1 r2.Vec, pattern string) SDF2 {
 			x = r2.Add(x, dx)
 		}
 	}
-	if len(objects) == 1 {
+	return union2Of(s, objects)
+}
+
+// union2Of returns the union of any number of copies of s, also none or one.
+func union2Of(s SDF2, objects []SDF2) SDF2 {
+	switch len(objects) {
+	case 0:
+		return empty2From(s)
+	case 1:
 		return objects[0]
 	}
 	return Union2D(objects...)
@@ -582,7 +590,7 @@ func Multi2D(s SDF2, positions d2.Set) SDF2 {
 	for i, p := range positions {
 		objects[i] = Transform2D(s, Translate2D(p))
 	}
-	return Union2D(objects...)
+	return union2Of(s, objects)
 }
 
 // offset2 offsets the distance function of an existing SDF2.
diff --git a/sdf3.go b/sdf3.go
index 67df39e..de43d9d 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -875,6 +875,17 @@ func LineOf3D(s SDF3, p0, p1 r3.Vec, pattern string) SDF3 {
 			x = r3.Add(x, dx)
 		}
 	}
+	return union3Of(s, objects)
+}
+
+// union3Of returns the union of any number of copies of s, also none or one.
+func union3Of(s SDF3, objects []SDF3) SDF3 {
+	switch len(objects) {
+	case 0:
+		return empty3From(s)
+	case 1:
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
@@ -890,7 +901,7 @@ func Multi3D(s SDF3, positions d3.Set) SDF3 {
 	for i, p := range positions {
 		objects[i] = Transform3D(s, Translate3D(p))
 	}
-	return Union3D(objects...)
+	return union3Of(s, objects)
 }
 
 // Orient3D creates a union of an SDF3 at oriented directions.
@@ -905,7 +916,7 @@ func Orient3D(s SDF3, base r3.Vec, directions d3.Set) SDF3 {
 	for i, d := range directions {
 		objects[i] = Transform3D(s, rotateToVec(base, d))
 	}
-	return Union3D(objects...)
+	return union3Of(s, objects)
 }
 
 func empty3From(s SDF3) empty3 {
-- 
2.43.0


From e07311ed1adb880b0f52d57f4cb05afacfc16fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:48 +0000
Subject: [PATCH 08/17] fix: Loft3D whose height is all rounding is not NaN at
 its middle plane

---
 sdf3.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdf3.go b/sdf3.go
index de43d9d..5170368 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -309,7 +309,10 @@ func Loft3D(sdf0, sdf1 SDF2, height, round float64) SDF3 {
 // Evaluate returns the minimum distance to a loft extrusion.
 func (s *loft3) Evaluate(p r3.Vec) float64 {
 	// work out the mix value as a function of height
-	k := clamp((0.5*p.Z/s.height)+0.5, 0, 1)
+	k := 0.5
+	if p.Z != 0 { // s.height is zero if the height is all rounding
+		k = clamp((0.5*p.Z/s.height)+0.5, 0, 1)
+	}
 	// mix the 2D SDFs
 	a0 := s.sdf0.Evaluate(r2.Vec{X: p.X, Y: p.Y})
 	a1 := s.sdf1.Evaluate(r2.Vec{X: p.X, Y: p.Y})
-- 
2.43.0


From 0399fbd744207ef8ff26501d5ed9961bf9c4eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:49 +0000
Subject: [PATCH 09/17] fix: MaxPoly of degree zero is a chamfer, not +Inf
 everywhere

---
 utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils.go b/utils.go
index 57d7fed..83a6484 100644
--- a/utils.go
+++ b/utils.go
@@ -187,6 +187,12 @@ func MaxPoly(n int, k float64) MaxFunc {
 			return -(-math.Min(a, b) - math.Max(k-math.Abs(b-a), 0))
 		}
 	}
+	if n == 0 {
+		// chamfer, as MinPoly (the polynomial has degree at least one).
+		return func(a, b float64) float64 {
+			return math.Max(math.Max(a, b), (a+k+b)*sqrtHalf)
+		}
+	}
 	return maxPoly(n, k)
 }
 
-- 
2.43.0


From e07df6d8d76a8e3febb2f8a7a5d6b6d15e251059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:40 +0000
Subject: [PATCH 10/17] fix: RenderAll dropped triangles returned together with
 io.EOF

---
 render/io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io.go b/render/io.go
index 57653ad..a897fb6 100644
--- a/render/io.go
+++ b/render/io.go
@@ -15,10 +15,11 @@ func RenderAll(r Renderer) ([]r3.Triangle, error) {
 	buf := make([]r3.Triangle, 1024)
 	for {
 		nt, err = r.ReadTriangles(buf)
+		// Triangles may be returned together with an error, i.e. io.EOF.
+		result = append(result, buf[:nt]...)
 		if err != nil {
 			break
 		}
-		result = append(result, buf[:nt]...)
 	}
 	if err == io.EOF {
 		return result, nil
-- 
2.43.0


From 324aeec35841aac945fd274e1f57f87466fd3a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:38 +0000
Subject: [PATCH 11/17] fix: Polygon kept and could overwrite the caller's
 vertices, and left a gap when the list closes within the tolerance

---
 form2/must2/poly.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 9d79db0..6642a3f 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -26,9 +26,12 @@ func Polygon(vertex []r2.Vec) sdf.SDF2 {
 		panic("number of vertices < 3")
 	}
 
-	// Close the loop (if necessary)
-	s.vertex = vertex
-	if !d2.EqualWithin(vertex[0], vertex[n-1], tolerance) {
+	// Close the loop (if necessary). The vertices are copied so as not to
+	// keep, or append to, the caller's slice.
+	s.vertex = append([]r2.Vec(nil), vertex...)
+	if d2.EqualWithin(vertex[0], vertex[n-1], tolerance) {
+		s.vertex[n-1] = vertex[0]
+	} else {
 		s.vertex = append(s.vertex, vertex[0])
 	}
 
-- 
2.43.0


From 106713437284e92c85473aea4d143732b8e3351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:38 +0000
Subject: [PATCH 12/17] fix: Polygon with a repeated vertex evaluated to NaN

---
 form2/must2/poly.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 6642a3f..44d0ed3 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -46,7 +46,10 @@ func Polygon(vertex []r2.Vec) sdf.SDF2 {
 	for i := 0; i < nsegs; i++ {
 		l := r2.Sub(s.vertex[i+1], s.vertex[i])
 		s.length[i] = r2.Norm(l)
-		s.vector[i] = r2.Unit(l)
+		if s.length[i] > 0 {
+			// A repeated vertex has no direction.
+			s.vector[i] = r2.Unit(l)
+		}
 		vmin = d2.MinElem(vmin, s.vertex[i])
 		vmax = d2.MaxElem(vmax, s.vertex[i])
 	}
@@ -75,7 +78,7 @@ func (s *polygon) Evaluate(p r2.Vec) float64 {
 		dn := r2.Dot(pa, r2.Vec{s.vector[i].Y, -s.vector[i].X}) // normal distance from p to line
 
 		// Distance to line segment
-		if t < 0 {
+		if t <= 0 {
 			dd = math.Min(dd, r2.Norm2(pa)) // distance to vertex[0] of line
 		} else if t > s.length[i] {
 			dd = math.Min(dd, r2.Norm2(pb)) // distance to vertex[1] of line
-- 
2.43.0


From a2a5a54c282a0dd57f33653492dcd1271cfab37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:58 +0000
Subject: [PATCH 13/17] fix: Bolt ignored invalid parameters and failed heads

---
 form3/obj3/thread/bolt.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/form3/obj3/thread/bolt.go b/form3/obj3/thread/bolt.go
index 38058a0..953923a 100644
--- a/form3/obj3/thread/bolt.go
+++ b/form3/obj3/thread/bolt.go
@@ -31,6 +31,9 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 	case k.Tolerance < 0:
 		err = errors.New("tolerance < 0")
 	}
+	if err != nil {
+		return nil, err
+	}
 	param := k.Thread.ThreadParams()
 	// head
 	var head sdf.SDF3
@@ -42,12 +45,15 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 	}
 	switch k.Style {
 	case NutHex:
-		head, _ = HexHead(hr, hh, "b")
+		head, err = HexHead(hr, hh, "b")
 	case NutKnurl:
-		head, _ = KnurledHead(hr, hh, hr*0.25)
+		head, err = KnurledHead(hr, hh, hr*0.25)
 	default:
 		return nil, errors.New("unknown style for bolt: " + k.Style.String())
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	// shank
 	shankLength := k.ShankLength + hh/2
-- 
2.43.0


From 04daf9e6ab8778798b74de740efea35a497bb2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:07 +0000
Subject: [PATCH 14/17] fix: Screw with a negative taper exceeded its bounds

---
 form3/obj3/thread/thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 61a7ae9..23830a1 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -71,7 +71,7 @@ func Screw(length float64, thread Threader) (sdf.SDF3, error) {
 	bb := s.thread.Bounds()
 	r := bb.Max.Y
 	// add the taper increment
-	r += s.length * math.Tan(s.taper)
+	r += s.length * math.Abs(math.Tan(s.taper))
 	s.bb = r3.Box{Min: r3.Vec{X: -r, Y: -r, Z: -s.length}, Max: r3.Vec{X: r, Y: r, Z: s.length}}
 	return &s, nil
 }
-- 
2.43.0


From a2a0574f054a5ca9e2e7464c200ae0102e516965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:07 +0000
Subject: [PATCH 15/17] fix: Screw taper used the arc tangent of its angle

---
 form3/obj3/thread/thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 23830a1..97ebecc 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -83,7 +83,7 @@ func (s *screw) Evaluate(p r3.Vec) float64 {
 	// the distance from the 3d z-axis maps to the 2d y-axis
 	p0.Y = math.Sqrt(p.X*p.X + p.Y*p.Y)
 	if s.taper != 0 {
-		p0.Y += p.Z * math.Atan(s.taper)
+		p0.Y += p.Z * math.Tan(s.taper)
 	}
 	// the x/y angle and the z-height map to the 2d x-axis
 	// ie: the position along thread pitch
-- 
2.43.0


From 28d09f9374b82683e21c98436e3257f500bf8211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:22 +0000
Subject: [PATCH 16/17] fix: form3.ChamferedCylinder panicked where other
 constructors return an error

---
 form3/basic.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/form3/basic.go b/form3/basic.go
index 6f7b901..bb783ce 100644
--- a/form3/basic.go
+++ b/form3/basic.go
@@ -78,7 +78,15 @@ func Cone(height, r0, r1, round float64) (s sdf.SDF3, err error) {
 }
 
 // ChamferedCylinder intersects a chamfered cylinder with an SDF3.
-func ChamferedCylinder(s sdf.SDF3, kb, kt float64) (sdf.SDF3, error) {
+func ChamferedCylinder(s sdf.SDF3, kb, kt float64) (chamfered sdf.SDF3, err error) {
+	defer func() {
+		if a := recover(); a != nil {
+			err = &shapeErr{
+				panicObj: a,
+				stack:    string(debug.Stack()),
+			}
+		}
+	}()
 	// get the length and radius from the bounding box
 	l := s.Bounds().Max.Z
 	r := s.Bounds().Max.X
@@ -89,5 +97,5 @@ func ChamferedCylinder(s sdf.SDF3, kb, kt float64) (sdf.SDF3, error) {
 	p.Add(0, l)
 	s0 := form2.Polygon(p.Vertices())
 	cc := sdf.Revolve3D(s0, 2*math.Pi)
-	return sdf.Intersect3D(s, cc), nil
+	return sdf.Intersect3D(s, cc), err
 }
-- 
2.43.0


From c64263a47a0c68f99104faf083b6b014a910a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:35 +0000
Subject: [PATCH 17/17] fix: unions changed when the slice of shapes they were
 made from did

---
 sdf2.go | 3 ++-
 sdf3.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index d51df7e..189d0b1 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -382,7 +382,8 @@ func Union2D(sdf ...SDF2) SDF2Union {
 	if len(sdf) <= 1 {
 		panic("union requires at least 2 sdfs")
 	}
-	s := union2{sdf: sdf}
+	// The list is copied so as not to keep the caller's slice.
+	s := union2{sdf: append([]SDF2(nil), sdf...)}
 	for _, x := range s.sdf {
 		if x == nil {
 			panic("nil argument found")
diff --git a/sdf3.go b/sdf3.go
index 5170368..f859226 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -428,7 +428,8 @@ func Union3D(sdf ...SDF3) SDF3Union {
 		panic("union require at least 2 sdfs")
 	}
 	s := union3{
-		sdf: sdf,
+		// Copied so as not to keep the caller's slice.
+		sdf: append([]SDF3(nil), sdf...),
 	}
 	for i, x := range s.sdf {
 		if x == nil {
-- 
2.43.0


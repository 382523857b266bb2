REAL = "Every obligation is discharged for all inputs over the real numbers; trusted: the govc generator and the SMT/ring back ends, float64 treated as exact reals (rounding is outside the proof; the same contracts are also executed on random float64 inputs), Go's semantics as given by go/ssa. "

prop("C01", "Bounds of a 3D operation contain its solid",
  "For every 3D operation of the library (union, difference, intersection, cut, elongation, offset, shell, arrays and rotated copies, transforms, uniform scale, extrusions of every kind, loft, revolution) whose operands report bounds that contain them, a point at which the result evaluates to zero or less lies inside the box the result's Bounds method returns. Offset and shell need operands whose value is at least the distance to their box; difference and cut need it of the first operand only.",
  [I, C], "all points, all parameters accepted by the constructors, all operands satisfying the stated assumption",
  "The tests compare a few rendered models; renderers sample only inside Bounds, so geometry outside it silently disappears and no test can see it.",
  ["sdf3.go", "utils.go", "matrix.go", "internal/d3/box.go"],
  [("bounds computed in each constructor", "sdf3.go"), ("Bounds/Evaluate of each operation", "sdf3.go"), ("box transform", "matrix.go MulBox")],
  ["SDF3.Evaluate", "SDF3.Bounds"], claim=REAL + "Smooth blend functions (SetMin) are outside the statement.")

prop("C02", "Bounds of a 2D operation contain its solid",
  "For every 2D operation of the library (union, difference, intersection, cut, elongation, non-negative offset, array, rotated copies, transform, uniform scale, centring) and for a planar slice of a 3D shape, whose operands report bounds that contain them, a point at which the result evaluates to zero or less lies inside the box the result's Bounds method returns. Offset needs an operand whose value is at least the distance to its box.",
  [I, C], "all points, all parameters accepted by the constructors, all operands satisfying the stated assumption",
  "No test evaluates a 2D operation outside the box it reports; extrusion and 2D rendering rely on the box.",
  ["sdf2.go", "utils.go", "matrix.go", "internal/d2/box.go"],
  [("bounds computed in each constructor", "sdf2.go"), ("box transform", "matrix.go MulBox")],
  ["SDF2.Evaluate", "SDF2.Bounds"], claim=REAL)

prop("C03", "Primitive shapes are exact distance functions with tight bounds",
  "Sphere, cylinder, box (also rounded), cone, circle, rectangle and line evaluate to the signed distance to the solid their parameters describe, centred on the origin, and their Bounds box is exactly the extent of that solid. This holds at every point, inside, outside, on edges and at corners.",
  [I, C], "all points and all parameters accepted by the constructors",
  "The tests render shapes on a grid; an error confined to an edge region, a corner or a degenerate parameter is not sampled.",
  ["form3/must3/cylinders.go", "form2/must2/basic.go", "form3/form3.go", "form2/form2.go"],
  [("Evaluate of each primitive", "form3/must3/cylinders.go"), ("Evaluate of each primitive", "form2/must2/basic.go")],
  ["Evaluate", "Bounds"], claim=REAL)

prop("C04", "Boolean operations, cuts and blends combine operand distances exactly",
  "At every point a union evaluates to the least of its operands, a difference to max(a,-b), an intersection to max(a,b), and a cut to the larger of the operand and the signed distance to the cutting plane or line; a blend function that was set is applied to the same operand values in order. A 2D union gives the least operand value for any number of operands that are exact distance functions contained in their boxes, although it skips operands whose box is far away; a missing (nil) operand, or fewer than two for a union, is rejected with a panic at construction.",
  [I, C], "all points, any number of operands, all operands (for the 2D union: exact operands)",
  "Tests use two or three operands at grid points; pruning errors in the 2D union need specific box arrangements.",
  ["sdf3.go", "sdf2.go", "internal/d2/box.go", "internal/d2/vector.go"],
  [("Evaluate of union/difference/intersection/cut", "sdf3.go, sdf2.go"), ("box pruning", "internal/d2/box.go MinMaxDist2, vector.go Overlap")],
  ["Evaluate"], claim=REAL)

prop("C05", "Matrix algebra is exact",
  "For all 2x2, 3x3 and 4x4 transform matrices the product, sum, scalar product, determinant and identity are those of linear algebra, applying a product to a point equals applying the factors one after the other, and inverting a nonsingular affine transform gives its two-sided inverse. Transforming a box by an affine transform gives a box that contains the image of every point of it, and transforming a set of vertices in place transforms every one of them.",
  [I], "all matrices (inverse: nonsingular affine), all boxes and points",
  "The matrix tests check a handful of random matrices up to a tolerance.",
  ["matrix.go", "utils.go"], [("Inverse, Determinant, MulBox, Mul", "matrix.go"), ("mulVertices", "utils.go")], ["Transform results"], claim=REAL)

prop("C06", "Transform constructors and transformed shapes are placed correctly",
  "Translations, scalings, mirrors and rotations move every point as documented (rotations counter-clockwise about their axis, which they keep fixed, preserving lengths and orientation), and the rotation taking one direction to another maps it exactly there and is a proper rotation, also for opposite directions. A transformed shape evaluates at a point to the value of the original at the point mapped back, and a uniformly scaled shape to k times the value of the original at p/k.",
  [I, C], "all points, angles, axes, directions (farther than 1e-3 from parallel or exactly parallel) and nonsingular affine transforms",
  "The tests try a few fixed angles; orientation errors for special directions are not sampled.",
  ["matrix.go", "sdf2.go", "sdf3.go"], [("Translate, Scale, Mirror, Rotate, rotateToVec", "matrix.go"), ("Transform2D/3D, ScaleUniform2D/3D Evaluate", "sdf2.go, sdf3.go")],
  ["Evaluate", "matrix constructors"], claim=REAL)

prop("C07", "Arrays and repeated copies are the union of their copies",
  "At every point a grid array, a union of rotated copies (any number of steps of any affine transform), a set of copies at listed positions or directions, and a line of copies given by a pattern evaluate to the least value over the copies, each being the operand at the point mapped back into it. A circular copy evaluates to the operand at the point turned about the origin (z axis) by a whole number of steps of 2*pi/n into the sector around the positive x axis. An array or rotated union with no copies, and an empty list or pattern, is empty.",
  [I, C], "all points, all steps, any number of copies (listed positions, directions and patterns: up to three copies, bounded; listed 2D copies: exact operands)",
  "Tests render two or three arrays; an error in the last row, a skipped or doubled copy or a wrong sector needs specific counts and points.",
  ["sdf3.go", "sdf2.go", "utils.go"], [("Array2D/3D, RotateUnion2D/3D, RotateCopy2D/3D Evaluate", "sdf2.go, sdf3.go"), ("Multi, LineOf, Orient3D", "sdf2.go, sdf3.go"), ("sawTooth", "utils.go")],
  ["Evaluate"], claim=REAL + "Positions, directions and patterns are unrolled up to three copies (bounded).")

prop("C08", "Extrusions, lofts, revolutions and slices follow their profile",
  "An extrusion of height h evaluates to the larger of |z|-h/2 and the profile at the point carried back to it: unchanged, turned by twist*z/h, scaled from 1 at the bottom to 1/scale at the top, or scaled and then turned. A rounded extrusion and a loft (profiles mixed linearly over the height) evaluate to the distance to the corner region of profile value and height, less the rounding; a revolution evaluates to the profile at (distance from the z axis, z), cut to the wedge from the positive x axis through the angle; a planar slice evaluates to the solid on the plane through the point with the given normal, in an orthonormal frame. Impossible sizes (negative height, rounding or angle, rounding more than half the height) give an empty shape.",
  [I, C], "all points, all profiles, all parameters accepted by the constructors",
  "The tests render a few extrusions; the profile scale, twist sense or mixing factor away from the sampled heights is not checked.",
  ["sdf3.go", "utils.go", "sdf2.go"], [("Evaluate of extrude3, extrudeRounded, loft3, revolution3", "sdf3.go"), ("extrusion functions", "utils.go"), ("Slice2D", "sdf2.go")],
  ["Evaluate", "ScaleExtrude", "TwistExtrude", "ScaleTwistExtrude"], claim=REAL)

prop("C09", "Blend functions are symmetric and bounded smoothings of min and max",
  "For k>0, the minimum functions MinPoly (degree 0 and 2 or more), MinRound and MinExp are symmetric and never exceed the smaller of their arguments; MinPoly of degree n>=2 is the plain minimum when the arguments differ by at least k and is at most k/(2n) below it everywhere, degree one is the plain minimum, degree zero the chamfer min(a,b,(a+b-k)/sqrt 2); MinRound joins the two by a circle of radius k. MaxPoly is the mirror image -MinPoly(-a,-b) for degree zero and two or more.",
  [I, C], "all arguments, all k>0, all degrees",
  "No test calls these functions except through rendered models.",
  ["utils.go"], [("MinPoly, MinRound, MinExp, MaxPoly", "utils.go")], ["MinFunc, MaxFunc results"], claim=REAL + "exp, log and pow enter by their monotonicity and special values only.")

prop("C10", "Reading triangles from a renderer loses, repeats and reorders none",
  "RenderAll returns exactly the triangles its renderer delivered, in order, whatever the sizes of the pieces and whether the end is reported with the last piece or alone, and returns an error only if the renderer did. The octree renderer delivers every triangle of every cube it processes exactly once, whatever the lengths of the buffers it is given, processes every queued cube exactly once, and reports io.EOF only when nothing is left; TriangleBuffer is first in, first out.",
  [I, H], "all sequences of reads, buffer lengths, piece sizes and meshes",
  "Tests use one buffer size; losing the overflow of a small buffer needs a mesh and buffer lengths that meet at the boundary.",
  ["render/io.go", "render/octree_renderer.go"], [("RenderAll, TriangleBuffer", "render/io.go"), ("ReadTriangles, readTriangles", "render/octree_renderer.go")],
  ["RenderAll", "ReadTriangles", "TriangleBuffer"], claim=REAL + "Each call of ReadTriangles is proved from an arbitrary queue and overflow state, so sequences of calls follow by induction; the unexported concurrent mode (never enabled by the API) is outside.")

prop("C11", "The octree renderer meshes every cell the surface passes through",
  "For a shape whose value is never more than the distance to its surface, the octree renderer meshes the same triangles as marching cubes over all cells of its grid: the grid covers the shape's bounds, has cells of 1.01 times the longest side divided by meshCells, a cube is skipped only if the shape has one sign throughout it, every other cube is split into its eight octants, and each smallest cube is meshed from the shape's values at its own corners. Caching distances changes no value.",
  [I, C], "all shapes with the stated property, meshCells from 2 to 2^20, all grid positions",
  "A wrongly skipped cube leaves a hole that depends on shape and resolution; tests compare a few models with tolerance.",
  ["render/octree_renderer.go"], [("NewOctreeRenderer", "render/octree_renderer.go"), ("processCube, IsEmpty, dc3", "render/octree_renderer.go")],
  ["ReadTriangles"], claim=REAL)

prop("C12", "Marching cubes meshes close up and face outwards",
  "For each of the 256 sign patterns of a cube's corners, every triangle has its vertices on cube edges whose ends lie on different sides of the surface, interpolated as the values are, the same from both ends. The sides of the triangles not shared within the cube are exactly those its faces dictate (each run of inside corners around a face cut off, inside on the left seen from outside), so that cubes sharing a face meet there with opposite directions; at most five triangles are made, and only triangles thinner than 1e-9 are left out.",
  [I], "all 256 patterns, all corner positions and values",
  "Tests render models that use some of the 256 table rows, comparing with tolerance; a hole or flipped triangle in a rare row goes unnoticed.",
  ["render/marchingcubes.go"], [("mcToTriangles, mcInterpolate and the tables", "render/marchingcubes.go")],
  ["ReadTriangles"], claim=REAL + "The table rows are checked by symbolic execution of the code that reads them.")

prop("C13", "STL output holds every triangle, correctly encoded",
  "For a model of one to 2^32-1 triangles of nonzero area, WriteSTL and CreateSTL write an 84-byte header with the number of triangles, little-endian, at byte 80, followed by exactly one 50-byte record per triangle in order: the unit normal, the three vertices in order as little-endian float32, and two zero bytes. CreateSTL writes the same records whatever the sizes of the pieces its renderer delivers and however the end is reported, and returns an error if the renderer fails; WriteSTL returns the error of its writer, and rejects an empty model without writing anything.",
  [I, F], "all models, all piece sizes and renderer errors",
  "The tests write and read back two models; a lost piece, a wrong byte or a swallowed error needs specific lengths or a failing writer or renderer.",
  ["render/stl.go"], [("WriteSTL, CreateSTL, stlReader, put", "render/stl.go")], ["WriteSTL", "CreateSTL"],
  claim=REAL + "The normal enters as the uninterpreted result of gonum's Unit and Cross; the operating system's file is a byte array.")

prop("C14", "3MF output holds every triangle over shared vertices",
  "Create3MF writes a package whose model file holds one object, built once, with exactly one triangle per triangle the renderer delivered, in order; each refers by index to its own three vertices, in order and with unrounded coordinates, and no vertex is listed twice. An error of the renderer is returned without creating a file, and an error of creating or writing any part of the package is returned.",
  [I, F], "all models, all errors of the renderer, the file and the package",
  "The only test writes one box and does not read it back; a wrong index or a merged vertex needs specific models.",
  ["render/3mf.go"], [("Create3MF, AddObject, Create", "render/3mf.go")], ["Create3MF"],
  claim=REAL + "encoding/xml and archive/zip are trusted (exercised natively, where the file written is read back).")

prop("C15", "Polygons are the region their vertices wind around",
  "The magnitude of a polygon's value is the exact distance to the nearest of the edges joining its neighbouring vertices and its last to its first; the value is negative where the winding number of the edges around the point is not zero, positive elsewhere off the edges, and the bounds are the least box containing the vertices. Repeated vertices and an explicitly repeated first vertex make no difference, and the list given is neither changed nor kept. Nagon's vertices start at (radius, 0) and each is the last turned by a full turn over their number; the polygon builder returns the vertices added to it, in order or reversed, each relative one offset from the vertex before.",
  [I], "all lists of at least three vertices, all points",
  "Tests render a few polygons; a wrong edge or crossing rule shows only at points near a particular vertex or level with one.",
  ["form2/must2/poly.go"], [("Polygon, polygon.Evaluate, polygon.Bounds", "form2/must2/poly.go"), ("Nagon, PolygonBuilder.Vertices, relToAbs", "form2/must2/poly.go")],
  ["Polygon", "Nagon", "PolygonBuilder"], claim=REAL + "Smoothed, chamfered and arc vertices of the builder are outside.")

prop("C16", "Screws follow their thread, and nuts and bolts are made of screws and heads",
  "A screw's value is the larger of its profile's value at (the point's place along one pitch of the thread, its distance from the axis changed by its height times the tangent of the taper) and its distance beyond either end, where the place along the thread turns with the angle by the lead (pitch times starts, negative for a left hand). Its solid lies inside its bounds when the profile's does. A nut is the screw removed from its head, a bolt the union of head, shank and chamfered screw end to end, a knurl the common part of a left and a right hand screw, a hex head a rounded hexagon within spheres, a knurled head a cylinder with a whole number of knurls, a chamfered cylinder the shape within its bounds' cylinder with the corners cut. Parameters out of range, unknown styles and threads that cannot be made give an error and no shape. A nut's tolerance is added to the radius of its thread.",
  [I], "all threads (any profile, pitch, starts, taper), all sizes and tolerances, all points",
  "Tests check the metric table only; a wrong hand, taper or offset shows only away from the plane where the thread starts.",
  ["form3/obj3/thread/thread.go", "form3/obj3/thread/nut.go", "form3/obj3/thread/bolt.go", "form3/obj3/thread/hexhead.go", "form3/obj3/thread/knurl.go", "form3/obj3/thread/parameters.go", "form3/must3/cylinders.go"],
  [("Screw, screw.Evaluate, screw.Bounds, sawTooth", "form3/obj3/thread/thread.go"), ("Nut", "form3/obj3/thread/nut.go"), ("Bolt", "form3/obj3/thread/bolt.go"), ("HexHead", "form3/obj3/thread/hexhead.go"), ("Knurl, KnurledHead, KnurlParams.Thread", "form3/obj3/thread/knurl.go"), ("HexRadius, HexHeight", "form3/obj3/thread/parameters.go"), ("ChamferedCylinder", "form3/must3/cylinders.go")],
  ["thread.Screw", "thread.Nut", "thread.Bolt", "thread.HexHead", "thread.Knurl", "thread.KnurledHead"], claim=REAL + "The chamfered vertices of the polygon builder are only run, not proved.")

prop("C17", "Checked constructors return an error exactly where the others panic",
  "The constructors of form2 and form3 (Circle, Box, Line, Polygon, Nagon; Box, Sphere, Cylinder, Capsule, Cone, ChamferedCylinder) never panic. Given what their counterparts in must2 and must3 accept they return a shape with the same values and bounds (for Nagon the same vertices) and no error; given what those panic on they return an error and a nil shape. Rejected are: a circle of negative radius; a 3D box with a side that is not positive or a negative rounding; a sphere or cylinder whose radius is not positive; a cylinder rounding that is negative, more than the radius or more than half the height; a cone whose height is not positive, or whose rounding is negative or more than half the height; a polygon of fewer than three vertices; chamfering no shape. Everything else is accepted; a regular polygon of fewer than three sides has no vertices.",
  [I], "all parameter values (finite reals) and all vertex lists",
  "Tests build a handful of valid shapes; a lost error or a check off by a factor shows only for parameters just past a limit.",
  ["form2/basic.go", "form2/poly.go", "form3/basic.go", "form2/must2/basic.go", "form2/must2/poly.go", "form3/must3/cylinders.go"],
  [("Circle, Box, Line", "form2/basic.go"), ("Polygon, Nagon", "form2/poly.go"), ("Box, Sphere, Cylinder, Capsule, Cone, ChamferedCylinder", "form3/basic.go"), ("checks of the arguments", "form3/must3/cylinders.go")],
  ["form2.Circle", "form2.Polygon", "form3.Box", "form3.Cylinder", "form3.Cone"], claim=REAL)

prop("C18", "Shapes are values: evaluating them changes nothing",
  "Making a shape, evaluating it and asking for its bounds write no memory that existed before, so that a shape gives the same value at the same point every time, whatever was evaluated before or is being evaluated in other goroutines, and making one shape changes no other (operands included). A shape's operands are those it was made of: changing the slice given to a union or the vertices given to a polygon afterwards does not change the shape. Only SetMin and SetMax change a shape.",
  [I, C], "all shapes made by the operations of sdf, the primitives of must2 and must3, polygons and screws, over operands that keep the same rule; all parameters, points and schedules (the frame condition excludes every interference)",
  "Tests evaluate one shape at a time in one goroutine; a cache or scratch buffer shared between evaluations goes wrong only when two of them overlap.",
  ["sdf2.go", "sdf3.go", "utils.go", "form2/must2/basic.go", "form2/must2/poly.go", "form3/must3/cylinders.go", "form3/obj3/thread/thread.go"],
  [("constructors, Evaluate and Bounds of every 3D operation", "sdf3.go"), ("constructors, Evaluate and Bounds of every 2D operation", "sdf2.go"), ("blends and extrusion functions", "utils.go"), ("primitives", "form3/must3/cylinders.go"), ("Polygon", "form2/must2/poly.go"), ("Screw", "form3/obj3/thread/thread.go")],
  ["Evaluate", "Bounds", "Union3D", "Union2D"], claim=REAL + "sdfexp's imported shapes, which cache while evaluating, are outside.")

prop("C19", "A shape's value never changes faster than distance",
  "The values of a shape at two points never differ by more than the distance between the points (so that a value is never more than the distance to the surface, which the octree renderer relies on). This holds of sphere, box, cylinder (must3), circle, box and line (must2), with any rounding of zero or more that they accept, and is kept, with the default minimum and maximum, by Union, Difference, Intersect, Cut, Offset, ScaleUniform, Elongate, Array and RotateUnion with a rigid step (2D and 3D), Transform by any rotation, mirror, translation or product of them, Shell3D, Extrude3D, ExtrudeRounded3D, Revolve3D (whole, and part from 0.1 up to 2 pi - 0.1), and Slice2D, whatever operand has it. For Union2D the operands must also be the distance to shapes within their bounds.",
  [I], "all operands with the property, all parameters, all pairs of points, any number of operands and copies (values as real numbers)",
  "A slope above one shows only between particular points of a particular shape, and then as holes in an octree mesh or a ray that steps through a wall.",
  ["sdf2.go", "sdf3.go", "matrix.go", "form2/must2/basic.go", "form3/must3/basic.go", "form3/must3/cylinders.go"],
  [("3D operations", "sdf3.go"), ("2D operations", "sdf2.go"), ("rigid transformations", "matrix.go"), ("Circle, Box, Line", "form2/must2/basic.go"), ("Sphere, Box", "form3/must3/basic.go"), ("Cylinder", "form3/must3/cylinders.go")],
  ["Evaluate"], claim=REAL + "Array, RotateUnion and Union2D are proved in two steps (copies, then what is below all copies), joined by instantiation.")

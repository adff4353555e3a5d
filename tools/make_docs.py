#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "planegeometry/geometry.py"
I = "planegeometry/internal.py"
DOM = (" Domain: ordinary floating-point figures (coordinates and lengths about 1e-2 to 1e4, any position, orientation and scale),"
       " either exactly special (tangent, aligned, perpendicular, coincident...) or clearly generic; equalities up to rounding.")
P = []


def prop(id, title, statement, text, why, mech, files=(G,), over=("inputs",), tech=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, mech=mech, files=list(files), tech=tech, note=note))


prop("C01", "Line predicates: equality, parallelism, perpendicularity, inclusion, offset",
     "For every two lines, is_equal, is_parallel and is_perpendicular hold exactly when the point sets are equal, the directions parallel, or orthogonal, whatever the points and the order used to define the lines."
     " includes(M) holds exactly for the points of the line, half-line or segment selected by extendA/extendB (all points of the full line when strict is not set, the selected part only when strict=True), and checkCollinear=False only skips the collinearity test."
     " direction_offset gives the unique (theta, offset >= 0) with x cos(theta) + y sin(theta) = offset on the line.",
     "all pairs of lines (equal, parallel, perpendicular, generic; all four extend combinations) and all points on, beside and beyond the ends of a line",
     "No test calls these predicates at all.",
     ["Line.is_equal", "Line.is_parallel", "Line.is_perpendicular", "Line.includes", "Line.direction_offset"])
prop("C02", "Line constructions: projection, reflection, perpendicular, intersection, motions",
     "For every line and point, projection(M) is the foot of the perpendicular, distance(M) its distance to M, reflection(M) the point with the same foot on the other side, and perpendicular(M) the orthogonal line through M with the requested extend flags, its two points being the foot and M (a full line when M is already on the line)."
     " rotate and translate move both defining points by the rigid motion and keep the flags; intersection of two lines is their unique common point, None when parallel or (strict) when that point is off one of the two segments or half-lines, and the line itself when they are equal.",
     "all lines, all points on and off them, all angles in degrees and radians, all pairs of segments/half-lines/lines",
     "No test calls them directly; they are reached through a few fixed examples.",
     ["Line.projection", "Line.distance", "Line.reflection", "Line.perpendicular", "Line.rotate", "Line.translate", "intersection_line_line", "line_line_intersection_ (internal.py)"], files=(G, I))
prop("C03", "Circle predicates and metrics",
     "For every circle and point: power(M) = |M-O|^2 - r^2, contains(M) iff |M-O| <= r, includes(M) iff |M-O| = r, point_from_angle(a) is the point at angle a, circleAB / circleOA are the circles with the given diameter / centre and point, as_ellipse is the same point set, and is_equal compares centre and radius."
     " For every two circles is_orthogonal holds iff d^2 = r1^2 + r2^2, and angle returns arccos((d^2-r1^2-r2^2)/(2 r1 r2)) when they meet (tangency included) and None otherwise.",
     "all circles, all points inside, on and outside, all pairs of circles in every relative position",
     "Tests call a few of these on one configuration and never vary the relative position.",
     ["Circle.power", "Circle.contains", "Circle.includes", "Circle.point_from_angle", "Circle.is_orthogonal", "Circle.angle", "circleAB", "circleOA", "Circle.as_ellipse"])
prop("C04", "Radical axis and radical centre",
     "For every two non-concentric circles the radical axis is exactly the set of points with equal powers, perpendicular to the line of centres, and the radical centre of two circles is its intersection with that line; for three circles with non-aligned centres the radical centre has the same power with respect to all three."
     " Concentric circles have no radical axis/centre, and for three circles with aligned centres the answer is None (no common point) or a point/line of equal powers.",
     "all pairs and triples of circles: disjoint, secant, nested, tangent, concentric, of equal radii, aligned centres",
     "No test computes a radical axis or centre.",
     ["Circle.radical_axis", "Circle.radical_center", "radical_center"])
prop("C05", "Intersections of circles and ellipses are exact and complete",
     "For every circle or ellipse and line, and for every two circles, the returned points lie on both curves and all common points are returned: None when there is none, a single point for tangency, a list of two points otherwise, and the circle itself for equal circles."
     " The line is taken as infinite, whatever its extend flags.",
     "all pairs in every relative position (disjoint, tangent inside and outside, secant, nested, equal, through the centre)",
     "One test covers a single pair of circles; lines and ellipses are never intersected in the tests.",
     ["intersection_circle_circle", "intersection_circle_line", "intersection_ellipse_line", "Line.intersection_with_circle/ellipse"], files=(G, I))
prop("C06", "Inversion of points",
     "For every inversion of pole O and power k (of either sign) and every point M != O, invert(M) is the point O + k (M-O)/|M-O|^2, so that inverting twice gives M back; the pole and infinity are exchanged.",
     "all poles, positive and negative powers, all points including the pole and infinity",
     "No test inverts points of arbitrary position or with a negative power.",
     ["Inversion.invert"])
prop("C07", "Inversion of circles, lines and generalized circles",
     "For every inversion and every circle or line, the returned generalized circle is exactly the image of the point set: a line exactly when the object passes through the pole (the line itself for lines through the pole), a circle otherwise, and inverting again gives the object back."
     " This holds along any chain of inversions, and invert_gcircle, invert_circle, invert_line and Line.invert agree.",
     "all inversions, all circles and lines (through the pole or not, centred at the pole or not), chains of up to several inversions",
     "One test inverts one circle.",
     ["Inversion.invert_circle", "Inversion.invert_line", "Inversion.invert_gcircle", "Line.invert"], over=("inputs", "histories"))
prop("C08", "Inversion constructors deliver the advertised inversion",
     "from_swapping_two_circles returns an inversion exchanging the two given circles, with power of the requested sign when it exists (positive only for circles that meet; only one sign exists for congruent circles) and otherwise of the other sign; for congruent tangent circles it returns the reflection exchanging them; from_fixing_two_circles and from_fixing_three_circles return inversions leaving each given circle globally unchanged; on_circle inverts with respect to the circle (its points are fixed).",
     "all pairs/triples of circles in every relative position (disjoint, secant, tangent, nested; equal radii excepted where no inversion exists)",
     "The tests use one pair of circles and one triple.",
     ["Inversion.from_swapping_two_circles", "Inversion.from_fixing_two_circles", "Inversion.from_fixing_three_circles", "Inversion.on_circle"])
prop("C09", "Composition of two inversions is the corresponding Mobius map",
     "For every two inversions iota1 and iota2, the Mobius transformation returned by compose sends each point to iota2(iota1(M)) or, according to `left`, iota1(iota2(M)), including the pole and infinity.",
     "all pairs of inversions of either sign, same or different poles, both orders, all points",
     "One test composes one pair and checks it on one point.",
     ["Inversion.compose"])
prop("C10", "Mid-circles invert one circle into the other",
     "For every two circles, mid_circles returns the mid-circle(s) - one circle, one line, or a pair according to the relative position - and the inversion on (or reflection in) each of them exchanges the two circles.",
     "all pairs of circles: disjoint, secant, tangent inside/outside, nested, concentric, congruent, equal",
     "One test per two positions, at one size each.",
     ["mid_circles"])
prop("C11", "Orthogonal circles and arcs through two points",
     "For every circle and two distinct points strictly inside it, orthogonal_through_two_points_in_circle returns the circle through both points orthogonal to it, or a line when they are aligned with the centre; with arc=True, the arc (or segment) between the points inside the circle; points not inside are refused."
     " For two points of the circle given by their angles, orthogonal_through_two_points_on_circle returns likewise the orthogonal circle or its arc inside the disk, and the diameter for opposite points.",
     "all circles, all pairs of inner points and all pairs of angles, generic or diametrically aligned, both values of arc",
     "One test checks one pair of points, without arc.",
     ["Circle.orthogonal_through_two_points_in_circle", "Circle.orthogonal_through_two_points_on_circle"])
prop("C12", "Steiner chains",
     "SteinerChain(c0, n, phi, shift) returns n circles followed by the inner base circle: consecutive circles of the closed chain are externally tangent, and each is internally tangent to c0 and externally tangent to the inner circle; the returned ellipse passes through the n centres. Shifting by a whole number k renumbers the same chain by k positions, and phi=0 gives equal circles around the centre.",
     "all base circles, n >= 3, 0 <= |phi| < 1, all shifts",
     "No test builds a Steiner chain.",
     ["SteinerChain", "SteinerChain_phi0_"])
prop("C13", "Elementary elements of triangles",
     "For every triangle, the side lengths, edges, angles (summing to pi, obeying the law of sines and cosines), orientation (1 counterclockwise, -1 clockwise, 0 aligned), is_acute and flatness (squared cosine of the angle at A, 1 when aligned) are those of Euclidean geometry, and contains(M) holds for every point strictly inside and for no point strictly outside, whatever the order of the vertices (whether the border counts is left open).",
     "all triangles (right, acute, obtuse, isosceles, equilateral, flat, both orientations) and all points",
     "The tests check contains for one triangle.",
     ["Triangle.a/b/c/edges", "Triangle.angleA/B/C", "Triangle.orientation", "Triangle.is_acute", "Triangle.flatness", "Triangle.contains"])
prop("C14", "Circumcircle, incircle, excircles and orthic triangle",
     "For every non-flat triangle, the circumcircle passes through the vertices, the incircle is inside and tangent to the three sides, each excircle (A, B, C) is tangent to the side opposite its vertex and to the prolongations of the others, and the orthic triangle's vertices are the feet of the corresponding altitudes.",
     "all triangles of every shape and orientation",
     "One test checks the excircles of one triangle.",
     ["Triangle.circumcircle", "Triangle.incircle", "Triangle.excircles", "Triangle.orthic_triangle"])
prop("C15", "Malfatti circles and equal detour point",
     "For every non-flat triangle, the three Malfatti circles are pairwise externally tangent at the returned tangency points, lie inside the triangle, and each is tangent to the two sides at its vertex; the equal detour point and detour satisfy |PA|+|PB|-c = |PB|+|PC|-a = |PC|+|PA|-b = detour.",
     "all triangles of every shape and orientation",
     "One test checks tangency of the Malfatti circles of one triangle.",
     ["Triangle.malfatti_circles", "Triangle.equal_detour_point"])
prop("C16", "Steiner circumellipse and inellipse",
     "For every non-flat triangle, the Steiner ellipse passes through the three vertices and the Steiner inellipse is tangent to the three sides at their midpoints; both are centred at the centroid.",
     "all triangles, equilateral and isosceles ones included",
     "No test computes a Steiner ellipse.",
     ["Triangle.steiner_ellipse", "Triangle.steiner_inellipse", "ellipse_from_center_and_eigen_ (internal.py)"], files=(G, I))
prop("C17", "Ellipse representations are equivalent",
     "For every ellipse, equation() vanishes exactly on its points and from_equation recovers the same ellipse from any positive or negative multiple of it; shape_matrix and from_center_and_matrix are mutually inverse; from_five_points recovers the ellipse from any five of its points; axes lengths, angle and centre come out right for circles and axis-aligned ellipses too."
     " Coefficients, matrices or points that do not define an ellipse (hyperbola, parabola, imaginary, degenerate, not positive definite, aligned or repeated points) are rejected with an error.",
     "all ellipses, all multiples of their equations, all non-elliptic conics, all sets of five points",
     "The tests check one ellipse per conversion and never the rejections.",
     ["Ellipse.equation", "Ellipse.from_equation", "Ellipse.equation_from_five_points", "Ellipse.from_five_points", "Ellipse.shape_matrix", "Ellipse.from_center_and_matrix"], files=(G, I))
prop("C18", "Ellipse points, directions and predicates",
     "For every ellipse: path(n) gives n points of the ellipse at equally spaced eccentric angles; point_from_angle(t) is the point whose direction from the centre makes the angle t with the major axis, scalar or vectorised; theta2t converts that direction angle to the eccentric angle; normal(t) is the outward unit-direction normal at eccentric angle t; diameter(t) joins opposite points, with its conjugate diameter parallel to the tangents at its ends."
     " contains/includes hold exactly for points inside or on / on the ellipse, and is_equal exactly for equal point sets.",
     "all ellipses (any axes ratio, angle in degrees or radians, circles included), all angles, all points",
     "Tests cover one diameter and no point/direction function or predicate.",
     ["Ellipse.path", "Ellipse.point_from_angle", "Ellipse.theta2t", "Ellipse.normal", "Ellipse.diameter", "Ellipse.contains", "Ellipse.includes", "Ellipse.is_equal"], files=(G, I))
prop("C19", "Lowner-John ellipse encloses all points with minimum area",
     "For every finite set of at least three non-aligned distinct points, LownerJohnEllipse returns the minimum-area ellipse containing them all: every point is in it, and no enclosing ellipse is smaller, whatever the random state; there is no ellipse (None) when the points are all aligned."
     " The three- and four-point constructors return the minimum-area ellipse through the given points in convex position.",
     "all point sets (in convex position or not, with symmetric, trapezoidal, collinear subsets, duplicates, large sets)",
     "No test calls it.",
     ["Ellipse.LownerJohnEllipse", "Ellipse.from_boundary3", "Ellipse.from_boundary4"], files=(G, I))
prop("C20", "Affine transformations: algebra and constructors",
     "For every affine maps f and g: transform(m) = A m + b for one point or a matrix of points, get3x3matrix represents it, compose (left and right) is the composition of functions, inverse composes to the identity, and singular matrices are refused."
     " from_mapping_three_points maps the three given points as asked (None when no such invertible map exists, i.e. aligned points), and from_ellipse_to_ellipse maps the first ellipse onto the second.",
     "all invertible and singular affine maps, both orders, all triples of points, all pairs of ellipses",
     "Tests check one map from three points and one 3x3 matrix.",
     ["Affine.transform", "Affine.compose", "Affine.inverse", "Affine.get3x3matrix", "Affine.from_mapping_three_points", "Affine.from_ellipse_to_ellipse"])
prop("C21", "Affine images of lines and ellipses",
     "For every affine map, transform_line is the line through the images of the defining points with its extend flags, and transform_ellipse (of an ellipse or a circle) is exactly the image point set.",
     "all affine maps (reflections, shears, near-similarities), all lines, all ellipses, circles included",
     "One test transforms one ellipse.",
     ["Affine.transform_line", "Affine.transform_ellipse"])
prop("C22", "Each named transformation is the map its definition says",
     "For all parameters and points: Reflection is the orthogonal symmetry in its line; Projection sends a point to its line along the directrix (orthogonally by default); Rotation turns about its centre by theta (degrees or radians); Homothety is O + s(M-O); Scaling multiplies by s the component along its direction, ScalingXY the two coordinates about its centre; Shear fixes the line through its vertex along its axis direction and moves other points parallel to it by tan(angle)/ratio as its matrix states."
     " Fixed points (centre, axis, projection line) are fixed; the classes that document it (Rotation, Homothety, Scaling, ScalingXY, Shear) also map a matrix of points, row by row.",
     "all transformations of the seven classes, all points (on the axis, at the centre, generic)",
     "Tests compare transform with the 3x3 matrix at one point, so an error made in both is invisible; Reflection, Projection and Scaling have no such test.",
     ["Reflection.reflect", "Projection.project", "Rotation.rotate", "Homothety.transform", "Scaling.transform", "ScalingXY.transform", "Shear.transform"])
prop("C23", "All representations of a transformation agree",
     "For every transformation, transforming points one at a time, as a matrix of points, by get3x3matrix, and via as_affine give the same result, and its transform/rotate/reflect/scale methods on circles, lines and ellipses return exactly the image of the point set (extend flags kept), the alias methods agreeing with each other.",
     "all transformations of every class, all points, circles, lines and ellipses",
     "Tests check a single point against the 3x3 matrix for some classes.",
     ["*.get3x3matrix", "*.as_affine", "*.transform", "Reflection/Rotation/Homothety.transform_circle", "Reflection/Rotation.transform_line", "Rotation.transform_ellipse", "Scaling.scale_circle"])
prop("C24", "Mobius transformations: evaluation and group structure",
     "For every invertible complex matrix, transform(z) = (az+b)/(cz+d) for points and infinity, the pole going to infinity; compose (both orders), inverse, integer power (negative too) and real gpower agree with the group of Mobius maps (power(m) repeated composition, gpower(1/n) an n-th root, gpower(s) then gpower(t) = gpower(s+t)); fixed_points are exactly the fixed points (one or two finite ones, infinity for translations, none reported for the identity).",
     "all Mobius maps (elliptic, parabolic, loxodromic, hyperbolic, affine, identity; any matrix scale), all points, all exponents",
     "One test checks one generalised power.",
     ["Mobius.transform", "Mobius.compose", "Mobius.inverse", "Mobius.power", "Mobius.gpower", "Mobius.fixed_points"])
prop("C25", "Mobius images of circles and lines",
     "For every Mobius map and every circle or line, transform_circle / transform_line return exactly the image generalized circle: a line exactly when the object passes through the pole, a circle otherwise, independently of the scale of the matrix and of the points defining the line.",
     "all Mobius maps, all circles and lines, through the pole or not",
     "One test each, for one circle and one line not through the pole.",
     ["Mobius.transform_circle", "Mobius.transform_line"])
prop("C26", "Mobius maps from three points or one circle",
     "from_mapping_three_points returns the Mobius map sending P1, P2, P3 to Q1, Q2, Q3 for every two triples of distinct points, infinity allowed among them, and returns None for repeated points; from_mapping_one_circle returns a Mobius map sending the first circle onto the second.",
     "all triples of distinct points with or without infinity, all pairs of circles",
     "One test each, for one choice of points.",
     ["Mobius.from_mapping_three_points", "Mobius.from_mapping_one_circle"])
prop("C27", "Cross ratio",
     "cross_ratio(A,B,C,D) equals (A-D)(C-B)/((A-B)(C-D)) for all points as complex numbers; it is invariant under every Mobius map and real exactly when the four points are concyclic or aligned; repeated points are refused.",
     "all quadruples of points, concyclic, aligned or generic; all Mobius maps",
     "Tests check invariance and realness for one quadruple.",
     ["cross_ratio"])
prop("C28", "Unimodular matrices are enumerated completely",
     "unimodular_matrices(n) is, for n >= 2, the list, without repetition, of the identity and all integer matrices [[a,b],[c,d]] of determinant 1 with 0 <= c <= a <= n and 0 <= d <= b <= n, and [identity] for n=1; other arguments are refused.",
     "all n (exhaustively for small n, by brute force)",
     "No test calls it.",
     ["unimodular_matrices"])
prop("C29", "Random points: shape, support and distribution",
     "random_points(n, where) of circles, ellipses and triangles returns an n x 2 array of points in (where='in') or on (where='on') the figure, uniformly distributed over the disc/ellipse/triangle or, for 'on', over the circle, over the edges in proportion to their lengths, or over the eccentric angles of the ellipse; successive points and calls are independent; bad n or where is refused.",
     "all circles, ellipses and triangles, all n, both places, all seeds",
     "Tests check that a few points of one ellipse are inside/on it; the distribution is not tested.",
     ["Circle.random_points", "Ellipse.random_points", "Triangle.random_points", "runif_* (internal.py)"], files=(G, I))
prop("C30", "Calls are pure: no argument or object is modified, results repeat",
     "No call of the public API modifies its arguments (arrays, lists, figures) or the object it is made on, nor does it change the result of later calls: over any sequence of calls, each repeated call gives the same result, objects keep their state, and results do not alias the caller's arrays in a way that later calls change them; this holds for calls that are refused with an error too. Modifying a list, dictionary or array that was returned does not change later results, and no call changes numpy's global settings or resets its global random stream.",
     "all sequences of public calls on shared objects and arrays",
     "Tests never look at arguments after a call nor repeat calls.",
     ["every public function and method"], files=(G, I), over=("histories", "inputs"))
prop("C31", "Invalid arguments are refused with ValueError",
     "Every constructor and method that validates an argument (points of two numbers, positive radii and counts, numbers, types of figures, Booleans, distinct line points, bounded parameters) raises ValueError for an argument of a wrong kind or value, instead of returning a result or failing otherwise.",
     "every validated parameter of every public call x every wrong kind of value",
     "No test passes an invalid argument.",
     ["error_if_not_* (internal.py) and their call sites"], files=(G, I))
prop("C32", "Constructions are equivariant under similarities",
     "For every public construction or measure whose definition does not depend on the coordinate system, moving all arguments by a translation, quarter-turn and scaling moves the result by the same similarity (lengths scaled, powers scaled by the square, angles and predicates unchanged).",
     "all such calls x all configurations x all similarities",
     "Tests use one position, orientation and scale for each function.",
     ["all of geometry.py; ellipse/eigen helpers of internal.py"], files=(G, I))
prop("C33", "Arc paths and end points",
     "For every arc, path(n) consists of n points of the circle, equally spaced in angle, going counterclockwise from the starting point to the ending point (angles in degrees or radians, any values and order), and starting_point / ending_point are the points at angles alpha1 and alpha2.",
     "all centres, radii, angles of any sign and magnitude, degrees and radians, n >= 1",
     "No test touches Arc.",
     ["Arc.path", "Arc.starting_point", "Arc.ending_point"])
prop("C34", "show and str work for every object",
     "For every valid object of every class, show() and str() succeed, show() prints the values that define the object and says the right thing about it (kind of line, unit of an angle, orthogonal projection, flat triangle), and neither changes it.",
     "all objects of all classes, all parameter forms",
     "No test calls show or str.",
     ["*.show", "*.__str__"])
prop("C35", "Results do not depend on the container of the points",
     "Every public call accepts points and vectors as tuples, lists or numpy arrays, of integers or floats, and gives the same result for the same values.",
     "all public calls x all argument containers and number types",
     "Tests always use tuples or one kind of container.",
     ["np.asarray conversions throughout geometry.py"], files=(G, I))
prop("C36", "Results do not depend on labels: argument order symmetries",
     "For every construction symmetric in its arguments - which of two circles/lines comes first, the order of three circles or of a triangle's vertices or of point sets, which two points define a line - permuting them gives the same figure (with vertex labels permuted accordingly). Likewise for every object that can be given by other parameters: other points of a line, the sign and length of the direction of a Scaling or Shear, whole turns and units of angles, a multiple of the matrix of a Mobius map.",
     "all such calls x all configurations x all permutations",
     "Tests call each function with one order.",
     ["all of geometry.py"], files=(G, I))

NOTE = ("Generated-input search: evidence for the inputs explored only. Cases are generated by Hypothesis from VERIF_SEED and judged by an independent oracle "
        "written in the harness (own complex-number geometry), in the project's own interpreter (PyPy 3.9, numpy 1.24). Tolerances and excluded near-degenerate cases are listed in DESIGN.md.")
TECH = {
    "C19": "property-based testing against optimality conditions (John's theorem) and an independent Khachiyan reference",
    "C28": "property-based testing against brute-force enumeration",
    "C29": "property-based testing: support invariants and seeded goodness-of-fit tests",
    "C30": "stateful property-based testing over generated call histories (deep snapshots of all live objects)",
    "C31": "grammar-based fuzzing of argument positions with wrong kinds/values, oracle ValueError",
    "C32": "metamorphic property-based testing (similarity equivariance) over a table of all calls",
    "C35": "metamorphic property-based testing (container change) over a table of all calls",
    "C36": "metamorphic property-based testing (argument permutations, equivalent parameters) over a table of symmetric calls",
}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        st = p["statement"]
        json.dump(dict(id=p["id"], title=p["title"], statement=st,
                       quantifier=dict(over=p["over"], text=p["text"] + "." + (DOM if p["id"] not in ("C28", "C31", "C34") else "")),
                       why_tests_cant="The property quantifies over every input; " + p["why"],
                       anchors=dict(files=p["files"], mechanism=[dict(name=m, where="%s: %s" % (I if "internal" in m else G, m)) for m in p["mech"]],
                                    observe_at=["return values (and exceptions) of the public API"], hook_needed=None)), f)
        f.write("\n")
json.dump(dict(
    version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                 evidence_file="evidence/%s.json" % p["id"],
                 technique=TECH.get(p["id"], "property-based testing (Hypothesis) against an independent geometric oracle"),
                 level="exploration", level_note=NOTE) for p in P],
    not_applicable=[],
    notes="No hooks: the checks use the public API of /repo's working tree only. ./check PROP TIER; replay a violation with: python3-vt harness/run.py --replay FILE"),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


# DESIGN.md: the list of checks, from their docstrings
import glob, re
src = "".join(open(f).read() for f in sorted(glob.glob(V + "/harness/props/p_*.py")))
docs = {}
for m in re.finditer(r'@check\("(C\d\d)",.*?\n(?:    .*\n|\s+.*\n)*?def (\w+)\(case\):\n\s+"""(.*?)"""', src):
    docs.setdefault(m.group(1), []).append((m.group(2), " ".join(m.group(3).split())))
d = open(V + "/DESIGN.md").read()
out = ["<!-- checks: generated by tools/make_docs.py from the docstrings -->", ""]
for p in P:
    out += ["### %s %s" % (p["id"], p["title"]), ""]
    out += ["* `%s`: %s." % (n, t.rstrip(".")) for n, t in docs[p["id"]]] + [""]
out.append("<!-- end of checks -->")
a, b = d.index("<!-- checks:"), d.index("<!-- end of checks -->") + len("<!-- end of checks -->")
d = d[:a] + "\n".join(out) + d[b:]

# DESIGN.md: the planted changes
meta = {i: json.load(open("%s/seeded/%s/meta.json" % (V, i))) for i in sorted(os.listdir(V + "/seeded"))}
res = json.load(open(V + "/tools/planted.json"))
out = ["<!-- planted: generated by tools/make_docs.py from seeded/*/meta.json and tools/planted.json -->", "",
       "| change | what it breaks | needs | caught by (quick, seed 1) |", "|---|---|---|---|"]
out += ["| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], ", ".join("%s `%s`" % (m["property"], n) for n in res.get(i, [])) or "missed") for i, m in meta.items()]
out.append("<!-- end of planted -->")
a, b = d.index("<!-- planted:"), d.index("<!-- end of planted -->") + len("<!-- end of planted -->")
open(V + "/DESIGN.md", "w").write(d[:a] + "\n".join(out) + d[b:])

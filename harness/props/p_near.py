"""Near misses and coincidences: figures that are almost, but not, in a special
position (far beyond the library's own tolerances of about 1e-8, and well
within what a user can tell apart), and figures on a tiny integer grid, where
every special position occurs exactly and the oracle is exact."""
from fractions import Fraction as Fr
from h import *
from shapes import *


def eps(G, *extra):
    return G.one(*([s * e for e in (1e-2, 1e-3, 3e-4, 1e-4, 3e-5, 1e-5, 5e-6) + extra for s in (1, -1)]))


def coord(G):
    return G.integer(-3, 3)


def ip(G):
    return G.tup(coord(G), coord(G))


# ------------------------------------------------------------------ C01
def base_line(G, **kw):
    return G.obj(A=G.pt(3), d=G.angle360(), L=G.grid(1, 6, 16), ea=G.boolean, eb=G.boolean, f=G.form, e=eps(G), **kw)


def mkbase(case):
    a = C(case["A"])
    u = unit(case["d"]) * case["L"]
    return a, u, g.Line(form(gpt(a), case["f"]), gpt(a + u), case["ea"], case["eb"])


@check("C01", lambda G: base_line(G, k=G.integer(0, 3), p=G.pt(3), L2=G.grid(1, 6, 16)), n=1200)
def nearly_parallel(case):
    """lines whose angle is nearly, but not, 0 or 90 degrees are neither parallel nor perpendicular nor equal"""
    a, u, L = mkbase(case)
    v = unit(case["d"]) * cmath.exp(1j * case["e"]) * [1, 1j, -1, -1j][case["k"]] * case["L2"]
    # a common point, or any
    p = a if case["k"] % 2 else C(case["p"])
    M = g.Line(gpt(p), gpt(p + v))
    label("nearly parallel" if case["k"] in (0, 2) else "nearly perpendicular", "1e%d" % round(math.log10(abs(case["e"]))))
    for x, y in ((L, M), (M, L)):
        for n in ("is_parallel", "is_perpendicular", "is_equal"):
            require(boolean(getattr(x, n)(y), n) is False, "%s is True for lines at %g radians of it: %s / %s", n, case["e"], show(L), show(M))
    if case["k"] == 1:
        M = g.Line(gpt(a), gpt(a + u * cmath.exp(1j * case["e"])))
        require(not boolean(L.is_equal(M)) and not boolean(L.is_parallel(M)), "is_equal or is_parallel is True for lines through one point at %g radians", case["e"])


@check("C01", lambda G: base_line(G, t=G.one(-2, -1.5, -0.5, 0.25, 0.5, 0.75, 1.5, 2, 3), strict=G.boolean, end=G.boolean, which=G.one(0, 1), fm=G.form), n=1500)
def nearly_included(case):
    """a point beside the line is not on it; a point of the line just before or just after an end of a segment or half-line is judged exactly"""
    a, u, L = mkbase(case)
    e, s = case["e"], case["strict"]
    if not case["end"]:
        z = a + u * (case["t"] + 1j * e)
        label("beside")
        require(boolean(L.includes(form(gpt(z), case["fm"]), s), "includes") is False,
                "includes is True for a point at %g lengths beside the line", e)
        return
    if abs(u) < 0.3 * abs(a):
        skip("far from the origin")
    t = case["which"] + e
    z = a + u * t
    if abs(e) < 1e-4 and abs(e) * abs(u) < 3e-5 * (abs(a) + abs(u)):
        skip("point equal to the end for the library")
    exp = True
    if s and t < 0 and not case["ea"] or s and t > 1 and not case["eb"]:
        exp = False
    label("end", "in" if exp else "out", "strict" if s else "")
    got = boolean(L.includes(form(gpt(z), case["fm"]), s, False) if s else L.includes(form(gpt(z), case["fm"])), "includes")
    require(got is exp, "includes is %s at %g lengths from an end (extendA=%s extendB=%s strict=%s)", got, e, case["ea"], case["eb"], s)


@check("C01", lambda G: G.obj(A=ip(G), B=ip(G), M=ip(G), D=ip(G), ea=G.boolean, eb=G.boolean, f=G.form, fm=G.form), n=2500)
def integer_grid(case):
    """includes, is_parallel, is_perpendicular, is_equal and the offset, decided exactly on a small integer grid"""
    A, B, M, D = case["A"], case["B"], case["M"], case["D"]
    if A == B:
        skip("equal points")
    ux, uy = B[0] - A[0], B[1] - A[1]
    L = g.Line(form(A, case["f"]), form(B, case["f"]), case["ea"], case["eb"])
    det = ux * (M[1] - A[1]) - uy * (M[0] - A[0])
    t = Fr(ux * (M[0] - A[0]) + uy * (M[1] - A[1]), ux * ux + uy * uy)
    on = det == 0
    require(boolean(L.includes(form(M, case["fm"]))) is on, "includes(%s) is %s for A=%s B=%s", M, not on, A, B)
    st = on and (case["ea"] or t >= 0) and (case["eb"] or t <= 1)
    require(boolean(L.includes(form(M, case["fm"]), strict=True)) is st, "includes(%s, strict=True) is %s for A=%s B=%s extendA=%s extendB=%s", M, not st, A, B, case["ea"], case["eb"])
    label("on" if on else "off", "strictly" if st else "")
    do = L.direction_offset()
    c0 = abs(A[0] * uy - A[1] * ux) / sqrt(ux * ux + uy * uy)
    near(num(do["offset"]), c0, 1e-12, "offset")
    for P in (A, B):
        near(cos(do["direction"]) * P[0] + sin(do["direction"]) * P[1], do["offset"], 1e-12, "x cos + y sin")
    if M == D:
        return
    vx, vy = D[0] - M[0], D[1] - M[1]
    K = g.Line(form(M, case["fm"]), form(D, case["fm"]), not case["ea"], case["eb"])
    par, per = ux * vy == uy * vx, ux * vx + uy * vy == 0
    for x, y in ((L, K), (K, L)):
        require(boolean(x.is_parallel(y)) is par, "is_parallel is %s for %s-%s and %s-%s", not par, A, B, M, D)
        require(boolean(x.is_perpendicular(y)) is per, "is_perpendicular is %s for %s-%s and %s-%s", not per, A, B, M, D)
        require(boolean(x.is_equal(y)) is (par and on), "is_equal is %s for %s-%s and %s-%s", not (par and on), A, B, M, D)
    label("parallel" if par else "perpendicular" if per else "")


# ------------------------------------------------------------------ C02
@check("C02", lambda G: G.obj(A=ip(G), B=ip(G), M=ip(G), D=ip(G), ea=G.boolean, eb=G.boolean, ec=G.boolean, ed=G.boolean, eh=G.boolean, em=G.boolean, f=G.form, fm=G.form), n=2500)
def integer_grid_lines(case):
    """projection, distance, reflection, perpendicular and intersections (strict too), exactly, on a small integer grid"""
    A, B, M, D = case["A"], case["B"], case["M"], case["D"]
    if A == B:
        skip("equal points")
    ux, uy = B[0] - A[0], B[1] - A[1]
    n2 = ux * ux + uy * uy
    L = g.Line(form(A, case["f"]), form(B, case["f"]), case["ea"], case["eb"])
    t = Fr(ux * (M[0] - A[0]) + uy * (M[1] - A[1]), n2)
    H = complex(A[0] + t * ux, A[1] + t * uy)
    m = C(M)
    near(pt(L.projection(form(M, case["fm"]))), H, 1e-12, "projection")
    near(num(L.distance(form(M, case["fm"]))), abs(H - m), 1e-12, "distance")
    near(pt(L.reflection(form(M, case["fm"]))), 2 * H - m, 1e-12, "reflection")
    on = ux * (M[1] - A[1]) == uy * (M[0] - A[0])
    P = L.perpendicular(form(M, case["fm"]), case["eh"], case["em"])
    p, q = line(P, "perpendicular")
    near(dot((q - p) / abs(q - p), complex(ux, uy)), 0, 1e-12, "angle of the perpendicular")
    near(line_dist(p, q, m), 0, 1e-12, "distance from M to the perpendicular")
    if on:
        require(P.extendA is True and P.extendB is True, "the perpendicular at a point of the line is not a whole line")
    else:
        near(p, H, 1e-12, "first point of the perpendicular")
        near(q, m, 1e-12, "second point of the perpendicular")
        require((P.extendA, P.extendB) == (case["eh"], case["em"]), "flags of the perpendicular")
    label("on the line" if on else "")
    if M == D:
        return
    vx, vy = D[0] - M[0], D[1] - M[1]
    K = g.Line(form(M, case["fm"]), form(D, case["fm"]), case["ec"], case["ed"])
    det = ux * vy - uy * vx
    if det == 0:
        I = L.intersection_with_line(K)
        if on:
            x, y = line(I, "intersection of equal lines")
            for z in (x, y):
                near(line_dist(C(A), C(B), z), 0, 1e-9, "intersection of equal lines")
        else:
            require(I is None and L.intersection_with_line(K, strict=True) is None, "intersection of distinct parallel lines is %s", show(I))
        label("parallel")
        return
    wx, wy = M[0] - A[0], M[1] - A[1]
    r, s = Fr(wx * vy - wy * vx, det), Fr(wx * uy - wy * ux, det)
    Z = complex(A[0] + r * ux, A[1] + r * uy)
    near(pt(L.intersection_with_line(K)), Z, 1e-11, "intersection")
    near(pt(g.intersection_line_line(K, L)), Z, 1e-11, "intersection")
    inn = (case["ea"] or r >= 0) and (case["eb"] or r <= 1) and (case["ec"] or s >= 0) and (case["ed"] or s <= 1)
    # at an end exactly, rounding decides unless the coordinates of the common point are exact
    edge = (r in (0, 1) or s in (0, 1)) and not (Z.real == int(Z.real) and Z.imag == int(Z.imag) and det in (1, -1, 2, -2, 4, -4))
    if not edge:
        for X, Y in ((L, K), (K, L)):
            I = X.intersection_with_line(Y, strict=True)
            if inn:
                near(pt(I, "strict intersection"), Z, 1e-11, "strict intersection")
            else:
                require(I is None, "strict intersection is %s", show(I))
        label("strict, on both" if inn else "strict, None")


@check("C02", lambda G: base_line(G, t=G.grid(-2, 3, 16), s=G.one(0.5, 0.25, 2, -1), L2=G.grid(1, 6, 16), perp=G.boolean), n=800)
def nearly_parallel_intersection(case):
    """nearly parallel lines still meet at their common point; a point beside the line has its foot, distance and perpendicular"""
    a, u, L = mkbase(case)
    e = case["e"]
    z = a + case["t"] * u
    v = unit(case["d"]) * cmath.exp(1j * e) * case["L2"]
    p = z - case["s"] * v
    M = g.Line(gpt(p), gpt(p + v))
    sz = abs(a) + abs(u) + abs(z) + abs(v) * 3
    for x, y in ((L, M), (M, L)):
        near(pt(x.intersection_with_line(y), "intersection"), z, 1e-13 * sz * sz / abs(e), "intersection of nearly parallel lines")
    w = z + 1j * e * u
    near(pt(L.projection(gpt(w))), z, 1e-12 * sz, "projection of a point beside the line")
    near(num(L.distance(gpt(w))), abs(e) * abs(u), 1e-12 * sz, "distance of a point beside the line")
    near(pt(L.reflection(gpt(w))), z - 1j * e * u, 1e-12 * sz, "reflection of a point beside the line")
    if min(abs(case["t"]), abs(case["t"] - 1)) > 0.1:
        P = L.perpendicular(gpt(w), extendH=case["perp"])
        h, m = line(P, "perpendicular")
        near(h, z, 1e-12 * sz, "foot of the perpendicular from a point beside the line")
        near(m, w, 1e-12 * sz, "second point of the perpendicular")
        require((P.extendA, P.extendB) == (case["perp"], True), "flags of the perpendicular from a point beside the line")


# ------------------------------------------------------------------ C03
def base_circle(G, **kw):
    return G.obj(c=G.pt(3), r=G.grid(0.5, 4, 16), d=G.angle360(), f=G.form, e=eps(G), **kw)


@check("C03", lambda G: base_circle(G, r2=G.grid(0.5, 4, 16)), n=1200)
def near_misses(case):
    """a slightly different radius or centre is another circle; a point beside the circle is not on it and is inside or outside; nearly orthogonal is not orthogonal; nearly tangent circles have their angle or none"""
    c, r, e, u = C(case["c"]), case["r"], case["e"], unit(case["d"])
    K = g.Circle(form(gpt(c), case["f"]), r)
    for o in (g.Circle(gpt(c), r * (1 + e)), g.Circle(gpt(c), r * (1 + e / 20)), g.Circle(gpt(c + e * r * u), r)):
        require(boolean(K.is_equal(o)) is False and boolean(o.is_equal(K)) is False, "is_equal is True for %s / %s", show(K), show(o))
    M = gpt(c + r * (1 + e) * u)
    require(boolean(K.includes(M)) is False, "includes is True at %g radii", 1 + e)
    require(boolean(K.contains(M)) is (e < 0), "contains is %s at %g radii", e > 0, 1 + e)
    near(num(K.power(M)), r * r * e * (2 + e), 1e-12 * (r + abs(c)) ** 2, "power of a point beside the circle")
    r2 = case["r2"]
    o = g.Circle(gpt(c + sqrt(r * r + r2 * r2) * (1 + e) * u), r2)
    require(boolean(K.is_orthogonal(o)) is False and boolean(o.is_orthogonal(K)) is False, "is_orthogonal is True for %s / %s", show(K), show(o))
    d = (r + r2) * (1 + e)
    kinds = [(d, e > 0)]
    if abs(r - r2) > 0.1:
        d2 = abs(r - r2) * (1 + e)
        kinds.append((d2, e < 0))
    for d, none in kinds:
        o = g.Circle(gpt(c + d * u), r2)
        for x, y in ((K, o), (o, K)):
            th = x.angle(y)
            if none:
                require(th is None, "angle of circles that do not meet is %s", show(th))
            else:
                near(cos(num(th, "angle")), (d * d - r * r - r2 * r2) / (2 * r * r2), 1e-12 * (1 + (abs(c) + d) ** 2 / (r * r2)), "cosine of the angle of nearly tangent circles")


@check("C03", lambda G: G.obj(O=ip(G), P=ip(G), Q=ip(G), r=G.integer(1, 5), s=G.integer(1, 5), f=G.form, fm=G.form), n=1500)
def integer_grid_circles(case):
    """power, contains, includes, is_equal, is_orthogonal and angle, decided exactly on a small integer grid"""
    O, P, r, s = case["O"], case["P"], case["r"], case["s"]
    K = g.Circle(form(O, case["f"]), r)
    d2 = (P[0] - O[0]) ** 2 + (P[1] - O[1]) ** 2
    near(num(K.power(form(P, case["fm"]))), d2 - r * r, 1e-12, "power")
    require(boolean(K.contains(form(P, case["fm"]))) is (d2 <= r * r), "contains(%s) is %s", P, d2 > r * r)
    require(boolean(K.includes(form(P, case["fm"]))) is (d2 == r * r), "includes(%s) is %s", P, d2 != r * r)
    o = g.Circle(form(P, case["fm"]), s)
    label("on" if d2 == r * r else "", "orthogonal" if d2 == r * r + s * s else "")
    for x, y in ((K, o), (o, K)):
        require(boolean(x.is_equal(y)) is (d2 == 0 and r == s), "is_equal of %s and %s", show(K), show(o))
        require(boolean(x.is_orthogonal(y)) is (d2 == r * r + s * s), "is_orthogonal of %s and %s", show(K), show(o))
        if d2:
            th = x.angle(y)
            if d2 > (r + s) ** 2 or d2 < (r - s) ** 2:
                require(th is None, "angle of circles that do not meet is %s", show(th))
            else:
                near(num(th, "angle"), math.acos((d2 - r * r - s * s) / (2.0 * r * s)), 1e-7, "angle")
    if d2:
        near(pt(K.radical_center(o)) if d2 else 0, C(O) + (C(P) - C(O)) * (d2 + r * r - s * s) / (2.0 * d2), 1e-11, "radical center")
    if P != case["Q"]:
        ab = g.circleAB(form(P, case["f"]), form(case["Q"], case["fm"]))
        same_circle(ab, (C(P) + C(case["Q"])) / 2, abs(C(P) - C(case["Q"])) / 2, 1e-12, "circleAB")
        same_circle(g.circleOA(form(P, case["f"]), form(case["Q"], case["fm"])), C(P), abs(C(P) - C(case["Q"])), 1e-12, "circleOA")


# ------------------------------------------------------------------ C04
@check("C04", lambda G: base_circle(G, r2=G.grid(0.5, 4, 16), p=G.grid(0.3, 3, 16), q=G.grid(1, 4, 16), r3=G.grid(0.5, 4, 16)), n=1000)
def nearly_concentric(case):
    """nearly concentric circles still have their radical centre and axis; three circles with nearly aligned centres their radical centre"""
    c, r, r2, e, u = C(case["c"]), case["r"], case["r2"], case["e"], unit(case["d"])
    K, o = g.Circle(form(gpt(c), case["f"]), r), g.Circle(gpt(c + e * u), r2)
    R = c + u * (e * e + r * r - r2 * r2) / (2 * e)
    sz = abs(c) + abs(R - c) + 1
    for x, y in ((K, o), (o, K)):
        near(pt(x.radical_center(y)), R, 1e-13 * sz * sz / abs(e), "radical center of nearly concentric circles")
        a, b = line(x.radical_axis(y), "radical axis")
        near(line_dist(a, b, R), 0, 1e-13 * sz * sz / abs(e), "radical axis of nearly concentric circles")
        near(dot((b - a) / abs(b - a), u), 0, 1e-7, "cosine of the angle of the radical axis and the line of centers")
    # nearly aligned centers
    p, q, r3 = case["p"], case["q"], case["r3"]
    z = [c, c + p * u, c + (p + q) * u * cmath.exp(1j * e)]
    rr = [r, r2, r3]
    cs = [g.Circle(gpt(w), s) for w, s in zip(z, rr)]
    # the point with equal powers: solve relative to c
    f2 = (abs(z[1] - c) ** 2 + r * r - r2 * r2) / 2
    f3 = (abs(z[2] - c) ** 2 + r * r - r3 * r3) / 2
    v, w = z[1] - c, z[2] - c
    D = cross(v, w)
    X = complex((f2 * w.imag - f3 * v.imag) / D, (f3 * v.real - f2 * w.real) / D)
    big = abs(X) + abs(c) + 10
    for k in range(3):
        near(pt(g.radical_center(cs[k], cs[(k + 1) % 3], cs[(k + 2) % 3]), "radical center"), c + X, 1e-12 * big * big / abs(e), "radical center for nearly aligned centers")


# ------------------------------------------------------------------ C05
@check("C05", lambda G: base_circle(G, r2=G.grid(0.5, 4, 16), which=G.one("line", "ext", "int", "concentric", "equal", "ellipse"), t=G.grid(-2, 2, 16), L=G.grid(1, 5, 16), al=G.angle360(), th=G.angle360()), n=2000)
def nearly_tangent(case):
    """a line or circle nearly tangent meets the curve in no point or in two distinct points; nearly equal circles are not equal"""
    c, r, r2, e, u, w = C(case["c"]), case["r"], case["r2"], case["e"], unit(case["d"]), case["which"]
    K = g.Circle(form(gpt(c), case["f"]), r)
    label(w, "two" if e < 0 else "none")
    sz = abs(c) + r + r2 + 6

    def two(res, curves, apart, what):
        require(isinstance(res, (list, tuple)) and len(res) == 2, "%s: expected two points, got %s", what, show(res))
        P = [pt(x) for x in res]
        for z in P:
            for f in curves:
                near(f(z), 0, 1e-11 * sz, what)
        near(abs(P[0] - P[1]), apart, 1e-9 * sz + 1e-14 * sz * sz / apart, what + ": distance of the two points")

    if w in ("line", "ellipse"):
        h = c + r * (1 + e) * u
        a = h + case["t"] * 1j * u
        b = a + case["L"] * 1j * u
        if w == "line":
            L = g.Line(gpt(a), gpt(b))
            for f in (lambda: K.intersection_with_line(L), lambda: L.intersection_with_circle(K), lambda: g.intersection_circle_line(K, L), lambda: g.intersection_ellipse_line(K, L)):
                if e > 0:
                    require(f() is None, "line at %g radii: intersection %s", 1 + e, show(f()))
                else:
                    two(f(), [lambda z: abs(z - c) - r, lambda z: line_dist(a, b, z)], 2 * r * sqrt(-e * (2 + e)), "nearly tangent line")
            return
        # the ellipse image of the unit circle by an affine map
        A, B, al = max(r, r2), min(r, r2), math.radians(case["al"])
        rot = cmath.exp(1j * al)
        f = lambda z: c + rot * complex(A * z.real, B * z.imag)
        v = unit(case["th"])
        a, b = f((1 + e) * v - case["L"] * 1j * v), f((1 + e) * v + 1j * v)
        E = g.Ellipse(gpt(c), A, B, case["al"])
        L = g.Line(gpt(a), gpt(b))
        for k in (lambda: E.intersection_with_line(L), lambda: L.intersection_with_ellipse(E), lambda: g.intersection_ellipse_line(E, L)):
            if e > 0:
                require(k() is None, "line nearly tangent to an ellipse: intersection %s", show(k()))
            else:
                hc = sqrt(-e * (2 + e))
                p, q = f((1 + e) * v + hc * 1j * v), f((1 + e) * v - hc * 1j * v)
                two(k(), [lambda z: line_dist(a, b, z), lambda z: min(abs(z - p), abs(z - q)) * hc], abs(p - q), "line nearly tangent to an ellipse")
        return
    if w == "concentric":
        o = g.Circle(gpt(c), r * (1 + e))
        for x, y in ((K, o), (o, K)):
            require(x.intersection_with_circle(y) is None and g.intersection_circle_circle(x, y) is None, "concentric circles of nearly equal radii: intersection %s", show(x.intersection_with_circle(y)))
        return
    if w == "equal":
        e = max(abs(e), 1e-5)
        o = g.Circle(gpt(c + e * r * u), r)
        for x, y in ((K, o), (o, K)):
            two(x.intersection_with_circle(y), [lambda z: abs(z - c) - r, lambda z: abs(z - (c + e * r * u)) - r], 2 * r * sqrt(1 - e * e / 4), "nearly equal circles")
        return
    if w == "int" and abs(r - r2) < 0.1:
        skip("nearly equal radii")
    d = (r + r2) * (1 + e) if w == "ext" else abs(r - r2) * (1 - e)
    c2 = c + d * u
    o = g.Circle(gpt(c2), r2)
    for x, y in ((K, o), (o, K)):
        for res in (x.intersection_with_circle(y), g.intersection_circle_circle(x, y)):
            if e > 0:
                require(res is None, "nearly tangent circles that do not meet: %s", show(res))
            else:
                hh = r * r - ((d * d + r * r - r2 * r2) / (2 * d)) ** 2
                two(res, [lambda z: abs(z - c) - r, lambda z: abs(z - c2) - r2], 2 * sqrt(max(hh, 1e-300)), "nearly tangent circles")


# ------------------------------------------------------------------ C06
@check("C06", lambda G: G.obj(p=G.pt(3), far=G.one(0, 100, -1000, 10000), d=G.angle360(), th=G.angle360(), q=G.one(2e-3, 1e-2, 0.1, 0.5), k=G.signed(0.25, 4), f=G.form), n=800)
def close_to_a_far_pole(case):
    """points at a small distance from a pole with large coordinates"""
    p = C(gpt(C(case["p"]) + case["far"] * unit(case["d"])))
    q = case["q"]
    m = C(gpt(p + q * unit(case["th"])))
    e = inv_pt(p, case["k"], m)
    tol = 1e-14 * (abs(p) + q) / q * abs(e - p) * 4 + 1e-14 * abs(e)
    near(pt(g.Inversion(form(gpt(p), case["f"]), case["k"]).invert(gpt(m)), "inverse"), e, tol, "inverse of a point near the pole")


# ------------------------------------------------------------------ C07
@check("C07", lambda G: base_circle(G, k=G.signed(0.5, 4), t=G.one("c", "l"), u=G.grid(0.25, 0.75, 16), L=G.grid(1, 3, 16)), n=1200)
def pole_beside(case):
    """a line or circle passing beside the pole (down to 5e-6) goes to the large circle that is its image, not to a line"""
    p, r, e, u, k = C(case["c"]), case["r"], case["e"], unit(case["d"]), case["k"]
    I = g.Inversion(form(gpt(p), case["f"]), k)
    if case["t"] == "c":
        c = p + r * (1 + e) * u
        exp = inv_circle(p, k, c, r)
        obj = g.Circle(gpt(c), r)
        res = (I.invert_gcircle(obj), I.invert_circle(obj))
    else:
        h = p + e * 1j * u
        a, b = h - case["u"] * case["L"] * u, h + (1 - case["u"]) * case["L"] * u
        z = inv_pt(p, k, h)
        exp = (p + z) / 2, abs(z - p) / 2
        obj = g.Line(gpt(a), gpt(b))
        res = (I.invert_gcircle(obj), I.invert_line(obj), obj.invert(I))
    label(case["t"], "1e%d" % round(math.log10(abs(e))))
    for x in res:
        require(isinstance(x, g.Circle), "image of a figure at %g from the pole is %s", e, show(x))
        same_circle(x, exp[0], exp[1], (1e-6 + 1e-10 / abs(e)) * exp[1], "image of a figure beside the pole")
        # it passes as near the images of its points
        ct, rd = circ(x)
        for m in gc_points(gcirc(obj), 5):
            if abs(m - p) > 0.3:
                z = inv_pt(p, k, m)
                near(abs(z - ct), rd, 1e-12 * rd + 1e-8 + 1e-12 / e ** 2, "image of a point")


# ------------------------------------------------------------------ C08, C10
def almost(G):
    return G.obj(c=G.pt(3), r=G.grid(0.5, 3, 16), d=G.angle360(), e=eps(G), f=G.form, gap=G.grid(0.25, 3, 16),
                 which=G.one("radii sep", "radii two", "ext=", "ext", "int"), r2=G.grid(0.5, 3, 16), pos=G.boolean)


def mkalmost(case):
    c, r, e, u, w = C(case["c"]), case["r"], case["e"], unit(case["d"]), case["which"]
    if w == "radii sep":
        r2 = r * (1 + e)
        d = r + r2 + case["gap"]
        meet = False
    elif w == "radii two":
        r2 = r * (1 + e)
        d = (r + r2) * (0.2 + case["gap"] / 5)
        meet = True
    elif w == "ext=":
        r2 = r
        d = 2 * r * (1 + e)
        meet = e < 0
    else:
        r2 = case["r2"]
        if abs(r - r2) < 0.1:
            skip("nearly equal radii")
        d = (r + r2) * (1 + e) if w == "ext" else abs(r - r2) * (1 + e)
        meet = (e < 0) == (w == "ext")
    c2 = c + d * u
    label(w, "meet" if meet else "do not meet")
    return c, r, c2, r2, d, meet, g.Circle(form(gpt(c), case["f"]), r), g.Circle(gpt(c2), r2)


def check_swap(p, k, c, r, c2, r2, what):
    far = abs(p) + abs(c) + abs(c2) + r + r2
    D = min(abs(abs(c - p) ** 2 - r * r), abs(abs(c2 - p) ** 2 - r2 * r2))
    s = max(r, r2) / min(r, r2)
    x, y = inv_circle(p, k, c, r)
    tol = 1e-14 * far * s * (8 + far * far / D)
    if tol > 1e-6:
        skip("ill-conditioned")
    near(x, c2, tol + 1e-11, what + ": center of the image of the first circle")
    near(y, r2, tol + 1e-11, what + ": radius of the image of the first circle")


@check("C08", almost, n=1500)
def swapping_near(case):
    """from_swapping_two_circles for nearly congruent or nearly tangent circles"""
    c, r, c2, r2, d, meet, k1, k2 = mkalmost(case)
    inv = g.Inversion.from_swapping_two_circles(k1, k2, case["pos"])
    instance(inv, g.Inversion, "swapping inversion for %s" % case["which"])
    k = num(inv.power)
    check_swap(pt(inv.pole), k, c, r, c2, r2, "swapping inversion")
    if case["which"] == "ext=":
        require((k > 0) == meet, "power %r for nearly tangent congruent circles", k)
    elif meet:
        require(k > 0, "power %r for circles that meet", k)
    else:
        require((k > 0) == case["pos"], "power %r with positive=%s", k, case["pos"])


@check("C10", almost, n=1500)
def mid_near(case):
    """mid_circles for nearly congruent or nearly tangent circles"""
    c, r, c2, r2, d, meet, k1, k2 = mkalmost(case)
    for X, Y in ((k1, k2), (k2, k1)):
        m = g.mid_circles(X, Y)
        if meet:
            require(isinstance(m, (list, tuple)) and len(m) == 2, "expected two mid-circles, got %s", show(m))
            m = list(m)
        else:
            require(isinstance(m, (g.Circle, g.Line)), "expected one mid-circle, got %s", show(m))
            m = [m]
        lines = 0
        for o in m:
            if isinstance(o, g.Line):
                lines += 1
                a, b = line(o)
                near(2 * foot(a, b, c) - c, c2, 1e-9, "reflection of the first center")
            else:
                x, y = circ(o, "mid-circle")
                check_swap(x, y * y, c, r, c2, r2, "mid-circle")
        require(lines == (1 if case["which"] == "ext=" else 0), "%d lines among the mid-circles of circles of radii %r, %r", lines, r, r2)


# ------------------------------------------------------------------ C11
@check("C11", lambda G: G.obj(c=G.pt(3), r=G.grid(0.5, 4, 16), a=G.angle360(), e=eps(G), half=G.boolean, arc=G.boolean, f=G.form), n=800)
def nearly_opposite(case):
    """orthogonal circle through two nearly opposite, or close, points of the circle"""
    c, r, e = C(case["c"]), case["r"], case["e"]
    K = g.Circle(form(gpt(c), case["f"]), r)
    a = math.radians(case["a"])
    b = a + (pi if case["half"] else 0) + e
    p, q = c + r * cmath.exp(1j * a), c + r * cmath.exp(1j * b)
    X = K.orthogonal_through_two_points_on_circle(a, b, arc=case["arc"])
    if case["arc"]:
        instance(X, g.Arc, "result")
        ct, rd = pt(X.center), num(X.radius)
    else:
        ct, rd = circ(X, "result")
    tol = 1e-9 * (rd + abs(c) + r)
    near(abs(p - ct), rd, tol, "first point")
    near(abs(q - ct), rd, tol, "second point")
    near((abs(ct - c) ** 2 - rd * rd) / (r * r), 1, 1e-13 * (abs(ct) + rd) ** 2 / (r * r) + 1e-9, "orthogonality")
    near(rd, r * abs(math.tan((b - a) / 2)), 1e-9 * rd + 1e-15 * rd * rd / r, "radius")
    if case["arc"]:
        s, t = pt(X.starting_point()), pt(X.ending_point())
        near(min(max(abs(s - p), abs(t - q)), max(abs(s - q), abs(t - p))), 0, 1e-8 * r + 1e-14 * rd, "end points of the arc")
        P = [C(z) for z in matrix(X.path(5), 5, 2)]
        for z in P:
            require(abs(z - c) <= r * (1 + 1e-7) + 1e-14 * rd, "the arc leaves the disk: %s", z)


# ------------------------------------------------------------------ C13
@check("C13", lambda G: G.obj(A=ip(G), B=ip(G), D=ip(G), M=ip(G), f=G.form, fm=G.form), n=2000)
def integer_grid_triangles(case):
    """sides, orientation, flatness, is_acute, contains (off the border) and angles, exactly, on a small integer grid"""
    A, B, D, M = case["A"], case["B"], case["D"], case["M"]
    if A == B or B == D or A == D:
        skip("equal vertices")
    T = g.Triangle(form(A, case["f"]), form(B, case["f"]), form(D, case["f"]))
    x = lambda P, Q, R: (Q[0] - P[0]) * (R[1] - P[1]) - (Q[1] - P[1]) * (R[0] - P[0])
    d2 = lambda P, Q: (P[0] - Q[0]) ** 2 + (P[1] - Q[1]) ** 2
    S = x(A, B, D)
    a2, b2, c2 = d2(B, D), d2(A, D), d2(A, B)
    for n, v in (("a", a2), ("b", b2), ("c", c2)):
        near(num(getattr(T, n)), sqrt(v), 1e-12, "side " + n)
        near(num(T.edges[n]), sqrt(v), 1e-12, "edges[%s]" % n)
    require(num(T.orientation) == (S > 0) - (S < 0), "orientation is %s", show(T.orientation))
    near(num(T.flatness), float(Fr((b2 + c2 - a2) ** 2, 4 * b2 * c2)), 1e-12, "flatness")
    label("flat" if S == 0 else "right" if 2 * max(a2, b2, c2) == a2 + b2 + c2 else "")
    if S == 0:
        require(num(T.flatness) == 1, "flatness of a flat triangle is %r", T.flatness)
        return
    m = 2 * max(a2, b2, c2) - (a2 + b2 + c2)
    if m != 0:
        require(boolean(T.is_acute) is (m < 0), "is_acute is %s for squared sides %s", m > 0, (a2, b2, c2))
    for n, (u, v, w) in (("angleA", (a2, b2, c2)), ("angleB", (b2, c2, a2)), ("angleC", (c2, a2, b2))):
        near(num(getattr(T, n)), math.acos((v + w - u) / (2 * sqrt(v * w))), 1e-12, n)
    s = [x(A, B, M), x(B, D, M), x(D, A, M)]
    if 0 not in s or min(s) < 0 < max(s):
        inn = min(s) > 0 or max(s) < 0
        require(boolean(T.contains(form(M, case["fm"]))) is inn, "contains(%s) is %s in %s %s %s", M, not inn, A, B, D)
        label("inside" if inn else "outside")


# ------------------------------------------------------------------ C17, C18
@check("C17", lambda G: G.obj(c=G.pt(3), b=G.grid(0.5, 3, 16), e=G.one(1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 3e-5), al=G.angle360(), f=G.form, k=G.one(1, -1, 3, -0.5)), n=800)
def nearly_circular(case):
    """the equation and the shape matrix of a nearly circular ellipse give it back, axes and angle included"""
    c, b, al = C(case["c"]), case["b"], case["al"] % 180
    a = b * (1 + case["e"])
    E = g.Ellipse(form(gpt(c), case["f"]), a, b, al)
    co = [num(x) * case["k"] for x in E.equation().values()]
    R = g.Ellipse.from_equation(*co)
    ct, x, y, th = ell(R)
    sz = abs(c) + a
    near(ct, c, 1e-10 * sz, "center")
    near(x, a, 1e-11 * (sz / b) ** 2 * a, "major radius")
    near(y, b, 1e-11 * (sz / b) ** 2 * a, "minor radius")
    near(sin(th - math.radians(al)), 0, 1e-11 * (sz / b) ** 2 / case["e"], "sine of the difference of the angles")
    R = g.Ellipse.from_center_and_matrix(gpt(c), E.shape_matrix())
    ct, x, y, th = ell(R)
    tol = 1e-11 * (sz / b) ** 4
    near(x, a, tol * a, "major radius from the matrix")
    near(y, b, tol * a, "minor radius from the matrix")
    near(sin(th - math.radians(al)), 0, tol / case["e"], "sine of the difference of the angles from the matrix")


@check("C18", lambda G: G.obj(c=G.pt(3), a=G.grid(1, 4, 16), q=G.grid(0.3, 0.9, 16), al=G.angle360(), t=G.angle360(), e=G.one(*[s * x for x in (1e-2, 1e-3, 3e-4, 1e-4) for s in (1, -1)]), f=G.form, deg=G.boolean), n=1000)
def ellipse_near_misses(case):
    """an ellipse with a slightly different axis, centre or angle is another one; a point beside the ellipse is not on it, and inside or outside"""
    c, a, e = C(case["c"]), case["a"], case["e"]
    b = a * case["q"]
    al = math.radians(case["al"])
    E = g.Ellipse(form(gpt(c), case["f"]), a, b, case["al"]) if case["deg"] else g.Ellipse(form(gpt(c), case["f"]), a, b, al, False)
    u = unit(case["t"])
    for what, o in (("major radius", g.Ellipse(gpt(c), a * (1 + e), b, case["al"])), ("minor radius", g.Ellipse(gpt(c), a, b * (1 + e), case["al"])),
                    ("center", g.Ellipse(gpt(c + 2 * e * a * u), a, b, case["al"])), ("angle", g.Ellipse(gpt(c), a, b, case["al"] + math.degrees(e))),
                    ("angle", g.Ellipse(gpt(c), a, b, al + e, False))):
        require(boolean(E.is_equal(o)) is False and boolean(o.is_equal(E)) is False, "is_equal is True for ellipses with another %s (by %g): %s / %s", what, e, show(E), show(o))
    for x in (e, e / 10, e / 100):
        m = ell_point(c, a * (1 + x), b * (1 + x), al, math.radians(case["t"]))
        require(boolean(E.includes(gpt(m))) is False, "includes is True at %g radii", 1 + x)
        require(boolean(E.contains(gpt(m))) is (x < 0), "contains is %s at %g radii", x > 0, 1 + x)


# ------------------------------------------------------------------ C20, C21
@check("C20", lambda G: G.obj(P=G.triangle(), A=G.pt(3), d=G.angle360(), p=G.grid(0.5, 3, 16), q=G.grid(0.5, 3, 16), e=eps(G), rev=G.boolean, M=G.pt(3)), n=800)
def nearly_aligned(case):
    """from_mapping_three_points from or to three nearly aligned points"""
    P = [C(x) for x in case["P"]]
    a, u, e = C(case["A"]), unit(case["d"]), case["e"]
    Q = [a, a + case["p"] * u, a + (case["p"] + case["q"]) * u * cmath.exp(1j * e)]
    if case["rev"]:
        P, Q = Q, P
    f = g.Affine.from_mapping_three_points(*[gpt(z) for z in P + Q])
    instance(f, g.Affine, "affine map of three points to three points")
    label("from" if case["rev"] else "to")
    sz = max(abs(z) for z in P + Q) + 1
    for x, y in zip(P, Q):
        near(pt(f.transform(gpt(x))), y, 1e-13 * sz ** 3 / (abs(e) if case["rev"] else 0.05) * 20, "image of a point")


@check("C21", lambda G: G.obj(c=G.pt(3), a=G.grid(0.5, 3, 16), e=eps(G), e2=eps(G), sh=G.one(0, 0, 1, -1), rot=G.angle360(), al=G.angle360(), s=G.grid(0.5, 3, 16), b=G.pt(3), circ=G.boolean, det=G.one(1, -1)), n=1000)
def nearly_a_circle(case):
    """affine image that is nearly a circle: axes and direction"""
    c, a, e = C(case["c"]), case["a"], case["e"]
    b = a if case["circ"] else a / (1 + abs(case["e2"]))
    w = unit(case["rot"]) * case["s"]
    # rotation-scaling times a small strain
    S = [[1 + e, case["sh"] * e], [0, case["det"]]]
    R = [[w.real, -w.imag], [w.imag, w.real]]
    A = [[R[i][0] * S[0][j] + R[i][1] * S[1][j] for j in (0, 1)] for i in (0, 1)]
    f = g.Affine(A, case["b"])
    E = g.Circle(gpt(c), a) if case["circ"] else g.Ellipse(gpt(c), a, b, case["al"])
    X = f.transform_ellipse(E)
    ct, p, q, th = ell(X)
    al = math.radians(case["al"])
    # exact semi-axes: singular values of A.rot(al).diag(a, b)
    ca, sa = (1.0, 0.0) if case["circ"] else (cos(al), sin(al))
    M = [[A[i][0] * ca * a + A[i][1] * sa * a, (-A[i][0] * sa + A[i][1] * ca) * b] for i in (0, 1)]
    u, v = complex(M[0][0], M[1][0]), complex(M[0][1], M[1][1])
    z1, z2 = (u - 1j * v) / 2, (u + 1j * v) / 2          # z -> z1 e^{it} + z2 e^{-it}
    mx, mn = abs(z1) + abs(z2), abs(abs(z1) - abs(z2))
    near(ct, complex(A[0][0] * c.real + A[0][1] * c.imag + case["b"][0], A[1][0] * c.real + A[1][1] * c.imag + case["b"][1]), 1e-12 * (abs(c) + 1) * 20, "center")
    near(p, mx, 1e-11 * mx, "major radius of a nearly circular image")
    near(q, mn, 1e-11 * mx, "minor radius of a nearly circular image")
    if mx / mn > 1 + 1e-5:
        near(sin(th - (cmath.phase(z1) + cmath.phase(z2)) / 2), 0, 1e-12 / (mx / mn - 1) + 3e-8 / sqrt(mx / mn - 1), "sine of the difference of the directions")


# ------------------------------------------------------------------ C24
@check("C24", lambda G: G.obj(v=G.lst(G.cplx(1), 4, 4), e=G.one(1e-2, 1e-3, 1e-4, 1e-5), k=G.cplx(2), z=G.pt(3), zero=G.one("none", "none", "b", "c", "bc", "abc", "diag")), n=1200)
def nearly_identity(case):
    """maps close to, but not, the identity: fixed points, inverse and images"""
    e, k = case["e"], complex(*case["k"])
    if abs(k) < 0.1:
        skip("scale nearly 0")
    v = [complex(*x) for x in case["v"]]
    zz = case["zero"]
    if zz in ("b", "bc", "abc"):
        v[1] = 0j
    if zz in ("c", "bc", "abc"):
        v[2] = 0j
    if zz == "diag":
        v[0] = v[3] = 0j
    if zz == "abc":
        v[0] = 0j
    a, b, c, d = 1 + e * v[0], e * v[1], e * v[2], 1 + e * v[3]
    A, B, Cc = v[0] - v[3], v[1], v[2]                 # fixed points: Cc z^2 - A z - B = 0
    M = g.Mobius([[k * a, k * b], [k * c, k * d]])
    z = C(case["z"])
    near(pt(M.transform(gpt(z))), (a * z + b) / (c * z + d), 1e-12 * (abs(z) + 1) ** 2, "image")
    near(pt(M.compose(M.inverse()).transform(gpt(z))), z, 1e-11 * (abs(z) + 1) ** 2, "map and its inverse")
    big = max(abs(A), abs(B), abs(Cc))
    if big < 0.1:
        skip("nearly the identity by chance")
    got = M.fixed_points()
    label(zz)
    if Cc == 0:
        if A == 0 or abs(A) < 1e-2:
            if A == 0 and a == d:
                require(is_infinite_result(got), "fixed points of a translation: %s", show(got))
            return
        near(pt(got, "fixed point"), -B / A, 1e-14 * (1 + abs(B / A)) / abs(A) / e * 50, "fixed point of a nearly trivial map")
        return
    if abs(Cc) < 0.05:
        skip("fixed point nearly infinite")
    D = A * A + 4 * B * Cc
    if abs(D) < 1e-2:
        skip("nearly parabolic")
    require(isinstance(got, (list, tuple)) and len(got) == 2, "expected two fixed points, got %s", show(got))
    exp = [(A + cmath.sqrt(D)) / (2 * Cc), (A - cmath.sqrt(D)) / (2 * Cc)]
    P = [pt(x) for x in got]
    err = min(max(abs(P[0] - exp[0]), abs(P[1] - exp[1])), max(abs(P[0] - exp[1]), abs(P[1] - exp[0])))
    near(err, 0, 1e-13 / e / abs(Cc) ** 2 / abs(D) * 50, "fixed points of a nearly trivial map")


@check("C24", lambda G: G.obj(rho=G.grid(0.6, 1.6, 16), th=G.angle360(), k=G.cplx(2), p=G.cplx(2), q=G.cplx(2), n=G.integer(-24, 24), m=G.integer(-24, 24), z=G.pt(3)), n=800)
def large_powers(case):
    """integer powers up to +-24: closed form by the fixed points, and agreement with gpower and with products of powers"""
    p, q, k = complex(*case["p"]), complex(*case["q"]), complex(*case["k"])
    lam = case["rho"] * unit(case["th"])
    n = case["n"]
    if abs(p - q) < 0.3 or abs(k) < 0.3 or abs(lam - 1) < 0.1:
        skip("nearly the identity or singular")
    # w = (z-p)/(z-q);  w -> lam w
    def mat(l):
        return [[p - l * q, (l - 1) * p * q], [1 - l, l * p - q]]
    M = g.Mobius([[k * x for x in row] for row in mat(lam)])
    z = C(case["z"])
    if min(abs(z - p), abs(z - q)) < 0.2:
        skip("point near a fixed point")
    w = (z - p) / (z - q) * lam ** n
    if abs(w - 1) < 0.1:
        skip("image nearly infinite")
    exp = (p - q * w) / (1 - w)
    cond = (1 + abs(p) + abs(q)) ** 2 / abs(p - q) ** 2 / abs(lam - 1) * max(abs(lam), 1 / abs(lam)) * (1 + abs(exp)) ** 2 * (1 + abs(w)) / abs(w - 1)
    tol = 1e-14 * (abs(n) + 2) * cond * (1 + abs(exp)) * max(abs(lam), 1 / abs(lam)) ** 2
    if tol > 1e-5:
        skip("ill-conditioned")
    label("n<0" if n < 0 else "n>=0", "large" if abs(n) > 8 else "")
    near(pt(M.power(n).transform(gpt(z)), "image by a power"), exp, tol * 10, "image by power(%d)" % n)
    near(pt(M.gpower(float(n)).transform(gpt(z)), "image by a power"), exp, tol * 100, "image by gpower(%d)" % n)


# ------------------------------------------------------------------ C25
@check("C25", lambda G: base_circle(G, v=G.lst(G.cplx(2), 3, 3), k=G.one(1, 0.01, 100, -1), t=G.one("c", "l"), u=G.grid(0.25, 0.75, 16), L=G.grid(1, 3, 16)), n=1200)
def mobius_pole_beside(case):
    """a line or circle passing beside the pole of a Mobius map (down to 5e-6) goes to the large circle that is its image"""
    p, r, e, u = C(case["c"]), case["r"], case["e"], unit(case["d"])
    a, c, b = [complex(*x) for x in case["v"]]
    if abs(c) < 0.3 or abs(b - (-a * p)) < 0.3:
        skip("no pole, or nearly singular")
    d = -c * p
    k = case["k"]
    if abs(a * d - b * c) < 0.3:
        skip("nearly singular")
    M = g.Mobius([[k * a, k * b], [k * c, k * d]])
    # M z = a/c + w/(z-p),  w = (bc-ad)/c^2
    w = (b * c - a * d) / (c * c)
    if case["t"] == "c":
        ct = p + r * (1 + e) * u
        D = abs(ct - p) ** 2 - r * r
        cc, rr = a / c + w * (ct - p).conjugate() / D, abs(w) * r / abs(D)
        obj = g.Circle(gpt(ct), r)
        X = M.transform_circle(obj)
    else:
        h = e * 1j * u
        x, y = p + h - case["u"] * case["L"] * u, p + h + (1 - case["u"]) * case["L"] * u
        cc, rr = a / c + w / h / 2, abs(w / h) / 2
        X = M.transform_line(g.Line(gpt(x), gpt(y)))
    label(case["t"], "1e%d" % round(math.log10(abs(e))))
    require(isinstance(X, g.Circle), "image of a figure at %g from the pole is %s", e, show(X))
    same_circle(X, cc, rr, (1e-7 + 1e-11 / abs(e) * (1 + abs(p)) ** 2) * (rr + abs(cc)), "image of a figure beside the pole")


# ------------------------------------------------------------------ C33
@check("C33", lambda G: G.obj(c=G.pt(3), r=G.grid(0.5, 4, 16), a=G.angle(), e=eps(G), full=G.one(0, 1, -1, 2), n=G.integer(2, 6), deg=G.boolean), n=600)
def tiny_or_nearly_full(case):
    """an arc of a very small angle, or of nearly a whole turn"""
    c, r = C(case["c"]), case["r"]
    a, e = math.radians(case["a"]), case["e"]
    b = a + e + 2 * pi * case["full"]
    A = g.Arc(gpt(c), r, math.degrees(a), math.degrees(b)) if case["deg"] else g.Arc(gpt(c), r, a, b, False)
    sweep = e if e > 0 else 2 * pi + e
    n = case["n"]
    P = [C(x) for x in matrix(A.path(n), n, 2, "path")]
    label("tiny" if e > 0 else "nearly full")
    for i in range(n):
        near(P[i], c + r * cmath.exp(1j * (a + sweep * i / (n - 1))), 1e-11 * (abs(c) + r) * 4, "point %d of the path" % i)


# ------------------------------------------------------------------ C13-C16: thin triangles
class Thin(object):
    """a thin triangle and its elements, computed with 60 digits from the coordinates given to the library"""

    def __init__(self, P):
        from decimal import Decimal as D, getcontext
        getcontext().prec = 60
        A, B, K = [(D(x), D(y)) for x, y in P]
        comb = lambda *wp: tuple(sum(w * p[i] for w, p in wp) / sum(w for w, p in wp) for i in (0, 1))
        dist = lambda p, q: ((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2).sqrt()
        fl = lambda p: complex(float(p[0]), float(p[1]))
        a, b, c = dist(B, K), dist(A, K), dist(A, B)
        cr = (B[0] - A[0]) * (K[1] - A[1]) - (B[1] - A[1]) * (K[0] - A[0])
        area = abs(cr) / 2
        s = (a + b + c) / 2
        r = area / s
        I = comb((a, A), (b, B), (c, K))
        self.sides = [float(x) for x in (a, b, c)]
        self.o = 1 if cr > 0 else -1
        self.L = max(self.sides)
        self.h = float(2 * area / max(a, b, c))
        self.S = self.L + max(abs(complex(*p)) for p in P)
        self.k = self.L / self.h
        self.inc = fl(I), float(r)
        x, y, z = a * a * (b * b + c * c - a * a), b * b * (c * c + a * a - b * b), c * c * (a * a + b * b - c * c)
        self.circ = fl(comb((x, A), (y, B), (z, K))), float(a * b * c / (4 * area))
        self.ex = [(fl(comb((-a, A), (b, B), (c, K))), float(area / (s - a))), (fl(comb((a, A), (-b, B), (c, K))), float(area / (s - b))),
                   (fl(comb((a, A), (b, B), (-c, K))), float(area / (s - c)))]
        proj = lambda m, p, q: comb((q[0] * 0 + (q[0] - m[0]) * (q[0] - p[0]) + (q[1] - m[1]) * (q[1] - p[1]), p),
                                    ((m[0] - p[0]) * (q[0] - p[0]) + (m[1] - p[1]) * (q[1] - p[1]), q))
        self.feet = [fl(proj(A, B, K)), fl(proj(B, A, K)), fl(proj(K, A, B))]
        # flatness and cosines
        dt = (B[0] - A[0]) * (K[0] - A[0]) + (B[1] - A[1]) * (K[1] - A[1])
        self.one_minus_flatness = float(cr * cr / (b * b * c * c))
        self.ang = [math.atan2(float(2 * area), float((u * u + v * v - w * w) / 2)) for u, v, w in ((b, c, a), (a, c, b), (a, b, c))]
        # Malfatti
        IA, IB, IC = dist(I, A), dist(I, B), dist(I, K)
        rr = [r / 2 * (s - r - (IB + IC - IA)) / (s - a), r / 2 * (s - r - (IC + IA - IB)) / (s - b), r / 2 * (s - r - (IA + IB - IC)) / (s - c)]
        cc = [tuple(V[i] + (I[i] - V[i]) * q / r for i in (0, 1)) for V, q in zip((A, B, K), rr)]
        for i in range(3):
            j = (i + 1) % 3
            assert abs(dist(cc[i], cc[j]) - rr[i] - rr[j]) < D("1e-35") * s, "wrong reference for the Malfatti circles"
        self.malf = [(fl(cc[i]), float(rr[i])) for i in range(3)]
        self.tp = [fl(comb((rr[(i + 2) % 3], cc[(i + 1) % 3]), (rr[(i + 1) % 3], cc[(i + 2) % 3]))) for i in range(3)]
        # equal detour point
        q = comb((a + area / (s - a), A), (b + area / (s - b), B), (c + area / (s - c), K))
        dd = [dist(q, A) + dist(q, B) - c, dist(q, B) + dist(q, K) - a, dist(q, K) + dist(q, A) - b]
        assert max(dd) - min(dd) < D("1e-35") * s, "wrong reference for the equal detour point"
        self.detour = fl(q), float(dd[0])
        # Steiner inellipse
        Z = (a ** 4 + b ** 4 + c ** 4 - (a * b) ** 2 - (b * c) ** 2 - (c * a) ** 2).sqrt()
        rx = (a * a + b * b + c * c + 2 * Z).sqrt() / 6
        G_ = comb((1, A), (1, B), (1, K))
        w = 0j
        for V in (A, B, K):
            w += complex(float(V[0] - G_[0]), float(V[1] - G_[1])) ** 2
        self.inell = fl(G_), float(rx), float(area / (3 * D(3).sqrt()) / rx), cmath.phase(w) / 2


def thin(G):
    return G.obj(t=G.one("flat", "flat", "out", "needle"), u=G.grid(0.1, 0.9, 64), h=G.one(0.1, 0.05, 0.03, 0.01, 5e-3, 3e-3, 1e-3), L=G.grid(1, 6, 16), o=G.pt(3), d=G.angle360(), turn=G.integer(0, 5), f=G.form)


def mkthin(case):
    h, u = case["h"], case["u"]
    P = {"flat": [0, 1, complex(u, h)], "out": [0, 1, complex(1 + 2 * u, h)], "needle": [0, h, complex(u * h, 1)]}[case["t"]]
    z = [C(case["o"]) + case["L"] * unit(case["d"]) * p for p in P]
    k = case["turn"]
    z = z[k % 3:] + z[:k % 3]
    if k >= 3:
        z = [z[1], z[0], z[2]]
    P = [gpt(x) for x in z]
    label(case["t"], "h/L=%g" % h, "counterclockwise" if k < 3 else "clockwise")
    return z, Thin(P), g.Triangle(*[form(p, case["f"]) for p in P])


def rel(got, want, tol, what):
    near(got / want, 1, tol, what + " / expected value")


@check("C13", thin, n=800)
def thin_elements(case):
    """sides, angles, orientation and flatness of triangles down to 1/1000 thin; points well inside and outside"""
    z, R, T = mkthin(case)
    for n, v in zip("abc", R.sides):
        rel(num(getattr(T, n)), v, 1e-13 * (R.S / v), "side " + n)
    for n, v in zip("ABC", R.ang):
        near(num(getattr(T, "angle" + n)), v, 1e-13 * R.k * (R.S / R.L), "angle " + n)
    require(num(T.orientation) == R.o, "orientation is %s", show(T.orientation))
    f = num(T.flatness)
    near(1 - f, R.one_minus_flatness, 1e-13 * (R.S / R.L) ** 2, "1 - flatness")
    require(f < 1, "flatness of a triangle that is not flat")
    require(boolean(T.is_acute) is (max(R.ang) < pi / 2) or abs(max(R.ang) - pi / 2) < 1e-4, "is_acute is %s", T.is_acute)
    for w in ((1, 1, 1), (4, 1, 1), (1, 1, 6), (1, 5, 1)):
        p = sum(x * q for x, q in zip(w, z)) / sum(w)
        require(boolean(T.contains(gpt(p))) is True, "contains is False at the barycenter %s", w)
    for w in ((-1, 3, 3), (3, -1, 3), (3, 3, -1), (-1, -1, 5)):
        p = sum(x * q for x, q in zip(w, z)) / sum(w)
        require(boolean(T.contains(gpt(p))) is False, "contains is True at the barycenter %s", w)


@check("C14", thin, n=800)
def thin_circles(case):
    """circumcircle, incircle, excircles and orthic triangle of triangles down to 1/1000 thin"""
    z, R, T = mkthin(case)
    m = R.S / R.L
    c, r = circ(T.incircle())
    near(c, R.inc[0], 1e-13 * R.S * m, "incenter")
    rel(r, R.inc[1], 1e-13 * R.k ** 2, "inradius")
    c, r = circ(T.circumcircle())
    near(c, R.circ[0], 1e-13 * R.circ[1] * R.k * m ** 2, "circumcenter")
    rel(r, R.circ[1], 1e-13 * R.k * m ** 2, "circumradius")
    ex = T.excircles()
    for n, (q, v) in zip("ABC", R.ex):
        c, r = circ(ex[n])
        near(c, q, 1e-13 * R.k ** 2 * (R.S + abs(q)), "excenter " + n)
        rel(r, v, 1e-13 * R.k ** 2, "exradius " + n)
    t = T.orthic_triangle()
    for n, q in zip("ABC", R.feet):
        near(pt(getattr(t, n)), q, 1e-12 * (R.S + abs(q)) * (R.S / min(R.sides)), "foot of the altitude from " + n)


@check("C15", thin, n=800)
def thin_malfatti_detour(case):
    """Malfatti circles and equal detour point of thin triangles"""
    z, R, T = mkthin(case)
    p, d = T.equal_detour_point()
    near(pt(p), R.detour[0], 1e-13 * R.S * R.k, "equal detour point")
    near(num(d), R.detour[1], 1e-13 * R.S * R.k, "detour")
    tol = 1e-12 * R.k ** 2 if case["t"] == "needle" else 1e-14 * R.k ** 4
    if tol > 1e-3:
        return
    label("Malfatti circles compared")
    m = T.malfatti_circles()
    for n, (q, v), t in zip("ABC", R.malf, R.tp):
        c, r = circ(m["circles"]["c" + n])
        near(c, q, tol * R.S, "center of c" + n)
        rel(r, v, tol, "radius of c" + n)
        near(pt(m["tangency_points"]["T" + n]), t, tol * R.S, "T" + n)


@check("C16", thin, n=800)
def thin_steiner(case):
    """Steiner ellipses of thin triangles: centre, both radii, direction of the foci"""
    z, R, T = mkthin(case)
    for n, e, q in (("inellipse", T.steiner_inellipse(), 1), ("circumellipse", T.steiner_ellipse(), 2)):
        c, a, b, al = ell(e)
        near(c, R.inell[0], 1e-12 * R.S, "center of the Steiner " + n)
        rel(a, q * R.inell[1], 1e-13 * R.k ** 2, "major radius of the Steiner " + n)
        rel(b, q * R.inell[2], 1e-13 * R.k ** 2, "minor radius of the Steiner " + n)
        near(sin(al - R.inell[3]), 0, 1e-12 * R.k, "direction of the Steiner %s (sine)" % n)


# ------------------------------------------------------------------ C18, C19: elongated ellipses
@check("C18", lambda G: G.obj(c=G.pt(3), a=G.grid(1, 4, 16), q=G.one(0.3, 0.1, 0.03, 0.01, 3e-3, 1e-3), al=G.mix(G.angle360(), G.one(0, 90, 180, 270)), t=G.mix(G.angle360(), G.one(0, 90, 180, 270, 1, -1, 89, 179, 45)),
                              e=G.one(*[s * x for x in (0.1, 1e-2, 1e-3, 1e-4) for s in (1, -1)]), f=G.form, deg=G.boolean), n=1200)
def elongated(case):
    """normals, conjugate diameters, angles and membership on ellipses down to 1/1000 thin, also at the ends of the axes"""
    c, a, t = C(case["c"]), case["a"], math.radians(case["t"])
    b = a * case["q"]
    al = math.radians(case["al"])
    E = g.Ellipse(form(gpt(c), case["f"]), a, b, case["al"]) if case["deg"] else g.Ellipse(form(gpt(c), case["f"]), a, b, al, False)
    w = cmath.exp(1j * al)
    label("b/a=%g" % case["q"])
    m = (abs(c) + a) / a
    v = w * complex(b * cos(t), a * sin(t))
    near(pt(E.normal(t)), v / abs(v), 1e-12 * a / b, "normal at %g" % t)
    d, k = E.diameter(t, True)
    for nm, l, z in (("diameter", d, complex(a * cos(t), b * sin(t))), ("conjugate diameter", k, complex(-a * sin(t), b * cos(t)))):
        p, q = line(l, nm)
        if abs(p - c - w * z) > abs(q - c - w * z):
            p, q = q, p
        near(p, c + w * z, 1e-13 * m * a, "end of the " + nm)
        near(q, c - w * z, 1e-13 * m * a, "end of the " + nm)
    r = 1 / sqrt((cos(t) / a) ** 2 + (sin(t) / b) ** 2)
    near(pt(E.point_from_angle(case["t"])), c + w * r * cmath.exp(1j * t), 1e-12 * m * a * a / b, "point_from_angle")
    u = num(E.theta2t(case["t"]))
    near(complex(a * cos(u), b * sin(u)), r * cmath.exp(1j * t), 1e-12 * a * a / b, "point of eccentric angle theta2t(theta)")
    if abs(case["e"]) * b * b < 1e-11 * (m * a) ** 2:
        return
    e = 1 + case["e"]
    z = ell_point(c, a * e, b * e, al, t)
    label("membership")
    require(boolean(E.includes(gpt(z))) is False, "includes is True at %g radii", e)
    require(boolean(E.contains(gpt(z))) is (e < 1), "contains is %s at %g radii", e > 1, e)


@check("C19", lambda G: G.obj(t=G.lst(G.angle360(), 0, 6), n=G.integer(3, 8), q=G.one(0.3, 0.1, 0.05, 0.03, 0.02), al=G.angle360(), c=G.pt(3), o=G.integer(0, 7), s=G.one(1, 0.01, 100)), n=250)
def elongated_clouds(case):
    """points on an ellipse of any elongation, a regular polygon of eccentric angles among them (so that it is the minimal ellipse): the ellipse is found"""
    c, q, al, n = C(case["c"]) * case["s"], case["q"], math.radians(case["al"]), case["n"]
    ts = [360.0 * i / n + case["o"] * 10 for i in range(n)]
    for t in case["t"]:
        if all(abs((t - x + 180) % 360 - 180) > 4 for x in ts):
            ts.append(t)
    a, b = 2.0 * case["s"], 2.0 * q * case["s"]
    P = [ell_point(c, a, b, al, math.radians(t)) for t in ts]
    label("q=%g" % q, "%d points" % len(P))
    X = g.Ellipse.LownerJohnEllipse(np.array([gpt(p) for p in P]))
    ct, x, y, th = ell(X)
    k = (abs(c) + a) / b
    tol = 1e-11 * k ** 2
    near(ct, c, tol * a, "center")
    near(x / a, 1, tol * 10, "major radius / expected value")
    near(y / b, 1, tol * 10, "minor radius / expected value")
    near(sin(th - al), 0, tol * 10, "direction (sine)")


# ------------------------------------------------------------------ C25: pole close to the centre
@check("C25", lambda G: base_circle(G, v=G.lst(G.cplx(2), 3, 3), k=G.one(1, 0.01, 100, -1), zero=G.boolean), n=800)
def pole_near_center(case):
    """a circle whose centre is close to the pole (relative distance down to 5e-6, or 0) goes to the right circle"""
    p, r, e, u = C(case["c"]), case["r"], case["e"], unit(case["d"])
    a, c, b = [complex(*x) for x in case["v"]]
    d = -c * p
    k = case["k"]
    if abs(c) < 0.3 or abs(a * d - b * c) < 0.3:
        skip("no pole, or nearly singular")
    M = g.Mobius([[k * a, k * b], [k * c, k * d]])
    w = (b * c - a * d) / (c * c)
    ct = p + (0 if case["zero"] else e * r * u)
    D = abs(ct - p) ** 2 - r * r
    X = M.transform_circle(g.Circle(gpt(ct), r))
    label("1e%d" % round(math.log10(abs(e))))
    rr = abs(w) * r / abs(D)
    same_circle(X, a / c + w * (ct - p).conjugate() / D, rr, 1e-10 * (rr + abs(a / c)) * (1 + abs(p) / r) ** 2, "image of a circle centred near the pole")


# ------------------------------------------------------------------ C22: scale 0
@check("C22", lambda G: G.obj(o=G.pt(5), w=G.pt(4), P=G.lst(G.pt(5), 1, 4), s=G.one(0, 0, 1, -1, 0.0, 1e-9), k=G.one("scaling", "xy", "x", "y", "homothety"), m=G.boolean), n=800)
def null_scale(case):
    """factors 0, 1 and -1 are factors like any other: projections, identity, reflections"""
    o, w, s, k = C(case["o"]), C(case["w"]), case["s"], case["k"]
    if abs(w) < 0.05:
        skip("no direction")
    n = w / abs(w)
    if k == "scaling":
        T, fn = g.Scaling(case["o"], case["w"], s), lambda z: o + s * dot(z - o, n) * n + (z - o - dot(z - o, n) * n)
    elif k == "homothety":
        T, fn = g.Homothety(case["o"], s), lambda z: o + s * (z - o)
    else:
        sx, sy = (s, s) if k == "xy" else (s, 2) if k == "x" else (2, s)
        T, fn = g.ScalingXY(case["o"], sx, sy), lambda z: o + complex(sx * (z - o).real, sy * (z - o).imag)
    label(k, "scale %g" % s)
    Z = [C(p) for p in case["P"]]
    tol = 1e-13 * (abs(o) + 20)
    M = T.as_affine()
    if case["m"]:
        got = [complex(*r) for r in matrix(T.transform(np.array(case["P"], dtype=float)), len(Z), 2, "transform")]
    else:
        got = [pt(T.transform(p)) for p in case["P"]]
    for z, y in zip(Z, got):
        near(y, fn(z), tol, "image by a %s of factor %g" % (k, s))
        near(pt(M.transform(gpt(z))), fn(z), tol * 10, "image by the affine map of a %s of factor %g" % (k, s))

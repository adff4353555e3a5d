from shapes import *

KINDS = ["separate", "ext", "two", "two", "int", "inside", "concentric"]


def s_circle(G):
    return G.obj(c=G.pt(6), r=G.mix(G.integer(1, 5), G.grid(0.5, 5, 64)), frame=G.frame, f=G.form)


def mkcircle(d):
    fr = Frame(d["frame"])
    p, r = fr.pt(d["c"]), fr.len(d["r"])
    return fr, p, C(p), r, g.Circle(form(p, d["f"]), r)


# ------------------------------------------------------------------ C03
@check("C03", lambda G: G.obj(k=s_circle(G), th=G.angle(), q=G.mix(G.one(1), G.grid(0.02, 0.98, 64), G.grid(1.02, 4, 64), G.one(0.995, 1.005, 0.999, 1.001)),
                              fm=G.form), n=2500)
def membership(case):
    """includes() iff on the circle, contains() iff in the disk, power() = squared distance minus squared radius"""
    fr, p, c, r, K = mkcircle(case["k"])
    m = c + r * case["q"] * unit(case["th"])
    M = form(gpt(m), case["fm"])
    q = case["q"]
    label("on" if q == 1 else "in" if q < 1 else "out", "near" if 0 < abs(q - 1) < 0.01 else "")
    inc = boolean(K.includes(M), "includes")
    require(inc == (q == 1), "includes is %s for a point at %s radii from the center of %s", inc, q, show(K))
    if q != 1:
        con = boolean(K.contains(M), "contains")
        require(con == (q < 1), "contains is %s for a point at %s radii from the center of %s", con, q, show(K))
    size = abs(c) + r
    near(num(K.power(M), "power"), r * r * (q * q - 1), 1e-11 * size * max(size, r * q), "power")


@check("C03", lambda G: G.obj(c=G.ipt(40), k=G.integer(1, 30), t=G.one([3, 4, 5], [5, 12, 13], [8, 15, 17], [1, 0, 1], [0, 1, 1], [0, -1, 1], [20, 21, 29], [-4, 3, 5]),
                              f=G.form), n=400)
def boundary_exact(case):
    """a point exactly on the circle (integer coordinates) is included and contained, and has power 0"""
    c, k, (x, y, r) = case["c"], case["k"], case["t"]
    K = g.Circle(form(c, case["f"]), k * r)
    M = form([c[0] + k * x, c[1] + k * y], case["f"])
    require(boolean(K.includes(M)), "includes(%s) is False on %s", show(M), show(K))
    require(boolean(K.contains(M)), "contains(%s) is False on %s", show(M), show(K))
    require(num(K.power(M)) == 0, "power of %s is not 0 for %s", show(M), show(K))


@check("C03", lambda G: G.obj(a=G.pt(6), d=G.angle360(), L=G.mix(G.integer(1, 6), G.grid(0.3, 8, 64)), frame=G.frame, f=G.form, f2=G.form), n=800)
def from_points(case):
    """circleAB has diameter AB; circleOA has center O and passes through A"""
    fr = Frame(case["frame"])
    a = case["a"]
    v = case["L"] * unit(case["d"])
    A, B = fr.pt(a), fr.pt([a[0] + v.real, a[1] + v.imag])
    size = abs(C(A)) + abs(C(B))
    if abs(C(A) - C(B)) < 1e-4 * size:
        skip("points nearly coincide relative to their coordinates")
    r = abs(C(A) - C(B))
    same_circle(g.circleAB(form(A, case["f"]), form(B, case["f2"])), (C(A) + C(B)) / 2, r / 2, 1e-12 * size, "circleAB")
    same_circle(g.circleAB(form(B, case["f"]), form(A, case["f2"])), (C(A) + C(B)) / 2, r / 2, 1e-12 * size, "circleAB")
    same_circle(g.circleOA(form(A, case["f"]), form(B, case["f2"])), C(A), r, 1e-12 * size, "circleOA")


@check("C03", lambda G: G.obj(k=s_circle(G), th=G.angle(2000), deg=G.boolean), n=800)
def point_from_angle(case):
    """point_from_angle(): the point of the circle with that polar angle, degrees or radians, any number of turns"""
    fr, p, c, r, K = mkcircle(case["k"])
    th = case["th"]
    z = pt(K.point_from_angle(th) if case["deg"] else K.point_from_angle(math.radians(th), degrees=False))
    near(z, c + r * unit(th), 1e-11 * (abs(c) + r), "point_from_angle")


@check("C03", lambda G: G.obj(p=G.circle_pair(KINDS + ["ortho", "ortho"]), eq=G.one(False, False, False, True)), n=2500)
def angle_orthogonal(case):
    """angle(): None iff disjoint, otherwise cos = (d^2-r1^2-r2^2)/(2 r1 r2); is_orthogonal() iff d^2 = r1^2+r2^2; both symmetric"""
    P = mkpair(case["p"], case["eq"] and case["p"]["kind"] not in ("int", "inside", "concentric"))
    for x, y in ((P.k1, P.k2), (P.k2, P.k1)):
        o = boolean(x.is_orthogonal(y), "is_orthogonal")
        co = (P.d ** 2 - P.r1 ** 2 - P.r2 ** 2) / (2 * P.r1 * P.r2)
        if P.kind == "ortho":
            require(o, "orthogonal circles %s %s are not recognised", show(x), show(y))
        elif abs(co) > 1e-3:
            require(not o, "%s and %s are not orthogonal (cosine %.4g)", show(x), show(y), co)
        a = x.angle(y)
        if P.kind in ("separate", "inside", "concentric"):
            require(a is None, "angle of disjoint circles is %s", show(a))
        else:
            a = num(a, "angle")
            require(-1e-15 <= a <= pi + 1e-15, "angle %r outside [0, pi]", a)
            tol = 1e-12 * (P.size / min(P.r1, P.r2)) ** 2 + 1e-12
            near(cos(a), max(-1.0, min(1.0, co)), tol, "cosine of the angle")


@check("C03", lambda G: G.obj(k=s_circle(G), f2=G.form, rel=G.one("same", "same", "center", "radius", "both"), d=G.angle360(),
                              e=G.one(1e-3, 0.01, 0.1, 1.0, 3.0), q=G.one(0.5, 0.999, 1.001, 2)), n=800)
def equality_and_ellipse(case):
    """is_equal() iff same center and radius; as_ellipse() is the same point set"""
    fr, p, c, r, K = mkcircle(case["k"])
    rel = case["rel"]
    c2, r2 = c, r
    if rel in ("center", "both"):
        c2 = c + max(case["e"] * r, 1e-3 * abs(c)) * unit(case["d"])
    if rel in ("radius", "both"):
        r2 = r * case["q"]
    K2 = g.Circle(form(gpt(c2), case["f2"]), r2)
    label(rel)
    for x, y in ((K, K2), (K2, K)):
        e = boolean(x.is_equal(y), "is_equal")
        require(e == (rel == "same"), "is_equal is %s for %s and %s", e, show(x), show(y))
    require(boolean(K.is_equal(K)), "a circle is not equal to itself")
    same_ellipse(K.as_ellipse(), c, r, r, 0, 1e-12, "as_ellipse")


# ------------------------------------------------------------------ C04
@check("C04", lambda G: G.obj(p=G.circle_pair(KINDS), eq=G.one(False, False, True)), n=2000)
def radical_two(case):
    """radical center/axis of two circles: the points of equal power; none for concentric circles"""
    P = mkpair(case["p"], case["eq"] and case["p"]["kind"] in ("separate", "ext", "two"))
    if P.kind == "concentric":
        R = P.k1.radical_center(P.k2)
        require(is_none(P.k1.radical_axis(P.k2)), "radical axis of concentric circles")
        require(not is_pt(R), "radical center of concentric circles is %s", show(R))
        return
    if P.d < 1e-3 * P.size:
        skip("centers close together relative to the coordinates")
    w1 = lambda z: abs(z - P.c1) ** 2 - P.r1 ** 2
    w2 = lambda z: abs(z - P.c2) ** 2 - P.r2 ** 2
    u = (P.c2 - P.c1) / P.d
    far = abs(P.r1 ** 2 - P.r2 ** 2) / P.d + P.d
    for x, y in ((P.k1, P.k2), (P.k2, P.k1)):
        R = pt(x.radical_center(y), "radical center")
        tol = 1e-11 * (P.size + far) * (P.size + far) * max(1, P.size / P.d)
        near(w1(R), w2(R), tol, "powers of the radical center")
        near(cross(R - P.c1, u), 0, 1e-10 * (P.size + far) * max(1, P.size / P.d), "distance of the radical center from the line of centers")
        ax = x.radical_axis(y)
        a, b = line(ax, "radical axis")
        require(ax.extendA and ax.extendB, "the radical axis is not a full line")
        for z in (a, b, 2 * a - b, (a + b) / 2):
            near(w1(z), w2(z), 4 * tol + 1e-10 * abs(z) * (P.size + far), "powers of a point of the radical axis")


@check("C04", lambda G: G.obj(t=G.triangle(), frame=G.frame, r=G.lst(G.mix(G.integer(1, 6), G.grid(0.2, 8, 64)), 3, 3), f=G.form), n=1500)
def radical_three(case):
    """radical center of three circles with non-aligned centers: equal powers; order does not matter"""
    fr, P, z, _ = mktri(case["t"], case["frame"])
    r = [fr.len(x) for x in case["r"]]
    K = [g.Circle(form(P[i], case["f"]), r[i]) for i in range(3)]
    size = max(abs(x) for x in z) + max(r)
    side = min(abs(z[0] - z[1]), abs(z[1] - z[2]), abs(z[2] - z[0]))
    if side < 1e-2 * size * 0.1:
        skip("centers close together relative to the coordinates")
    ar = abs(cross(z[1] - z[0], z[2] - z[0]))
    L = max(abs(z[0] - z[1]), abs(z[1] - z[2]), abs(z[2] - z[0]))
    cond = L * L / ar * size / side
    ref = None
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 1, 0), (0, 2, 1)):
        R = pt(g.radical_center(K[i], K[j], K[k]), "radical center of three circles")
        w = [abs(R - z[n]) ** 2 - r[n] ** 2 for n in range(3)]
        sz = size + abs(R)
        tol = 1e-11 * sz * sz * cond
        near(w[0], w[1], tol, "powers of the radical center")
        near(w[1], w[2], tol, "powers of the radical center")
        if ref is None:
            ref = R
        near(R, ref, 1e-11 * sz * sz / side * cond * 10, "radical center with the circles in another order")


@check("C04", lambda G: G.obj(c=G.pt(6), th=G.angle360(), t=G.lst(G.mix(G.integer(-6, 6), G.grid(-6, 6, 64)), 3, 3), frame=G.frame, r=G.lst(G.mix(G.integer(1, 6), G.grid(0.2, 8, 64)), 3, 3), f=G.form), n=700)
def radical_aligned(case):
    """three circles with aligned or equal centers: None, or a common radical axis / point of equal powers, never another point"""
    fr = Frame(case["frame"])
    z0 = [C(case["c"]) + t * unit(case["th"]) for t in case["t"]]
    r0 = list(case["r"])
    P = [fr.pt(gpt(x)) for x in z0]
    z, r = [C(p) for p in P], [fr.len(x) for x in r0]
    K = [g.Circle(form(P[i], case["f"]), r[i]) for i in range(3)]
    label("%d distinct centers" % len(set(case["t"])))
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 1, 0)):
        R = g.radical_center(K[i], K[j], K[k])
        if R is None:
            continue
        pts = list(line(R, "radical center")) if isinstance(R, g.Line) else [pt(R, "radical center")]
        size = max(abs(x) for x in z) + max(r)
        for m in pts:
            w = [abs(m - z[n]) ** 2 - r[n] ** 2 for n in range(3)]
            tol = 1e-9 * (size + abs(m)) * size
            near(w[0], w[1], tol, "powers of the radical center")
            near(w[1], w[2], tol, "powers of the radical center")


# ------------------------------------------------------------------ C05
def two_points(I, what):
    require(isinstance(I, (list, tuple)) and len(I) == 2, "%s should be two points, got %s", what, show(I))
    return [pt(I[0], what), pt(I[1], what)]


def one_point(I, what):
    require(I is not None, "%s should be one point (tangency), got None", what)
    return pt(I, what)


@check("C05", lambda G: G.obj(p=G.circle_pair(KINDS), eq=G.one(False, False, True)), n=2500)
def circle_circle(case):
    """intersection of two circles: none, one (tangent) or two points, each on both circles; either order; function and method agree"""
    P = mkpair(case["p"], case["eq"] and case["p"]["kind"] in ("separate", "ext", "two"))
    for X, Y in ((P.k1, P.k2), (P.k2, P.k1)):
        for nm, I in (("intersection_circle_circle", g.intersection_circle_circle(X, Y)),
                      ("Circle.intersection_with_circle", X.intersection_with_circle(Y))):
            if P.kind in ("separate", "inside", "concentric"):
                require(I is None, "%s of disjoint circles is %s", nm, show(I))
            elif P.kind in ("ext", "int"):
                z = one_point(I, nm)
                u = (P.c2 - P.c1) / P.d
                s = 1 if P.kind == "ext" or P.r1 > P.r2 else -1
                near(z, P.c1 + s * P.r1 * u, 1e-5 * min(P.r1, P.r2) + 1e-9 * P.size, nm + " (tangency point)")
                near(abs(z - P.c1), P.r1, 1e-9 * P.size, nm + " distance to the first center")
                near(abs(z - P.c2), P.r2, 1e-9 * P.size, nm + " distance to the second center")
            else:
                z, w = two_points(I, nm)
                x = (P.d ** 2 + P.r1 ** 2 - P.r2 ** 2) / (2 * P.d)
                y = sqrt(max(P.r1 ** 2 - x * x, 0))
                for q in (z, w):
                    near(abs(q - P.c1), P.r1, 1e-10 * P.size * P.r1 / y, nm + " distance to the first center")
                    near(abs(q - P.c2), P.r2, 1e-10 * P.size * P.r2 / y, nm + " distance to the second center")
                near(abs(z - w), 2 * y, 1e-9 * P.size * max(P.r1, P.r2) / y, nm + " distance between the two points")
    same_circle(g.intersection_circle_circle(P.k1, g.Circle(P.p1, P.r1)), P.c1, P.r1, 1e-12 * P.size, "intersection of equal circles")


def hpos(G):
    """signed distance of the line from the center in radii: secant, tangent or outside"""
    return G.mix(G.one(0), G.signed(0.02, 0.98), G.signed(0.02, 0.98), G.one(1, -1), G.signed(1.02, 4), G.one(0.9997, -0.9997, 1.0003, -1.0003, 0.997, 1.003))


def s_secant(G):
    return dict(h=hpos(G), dir=G.angle360(), t=G.grid(-3, 3, 64), L=G.mix(G.one(1, -1), G.signed(0.25, 4)), f=G.form, ea=G.boolean, eb=G.boolean)


def mkline_at(case, c, r):
    """line at signed distance h*r from c"""
    u = unit(case["dir"])
    h = case["h"]
    a = c + r * (h * 1j * u + case["t"] * u)
    b = a + r * case["L"] * u
    return a, b, u


@check("C05", lambda G: G.obj(k=s_circle(G), **s_secant(G)), n=2500)
def circle_line(case):
    """intersection of a circle and a line: none, one (tangent) or two points on both; every access path agrees"""
    fr, p, c, r, K = mkcircle(case["k"])
    a, b, u = mkline_at(case, c, r)
    L = g.Line(form(gpt(a), case["f"]), form(gpt(b), case["f"]), case["ea"], case["eb"])
    h = case["h"]
    size = abs(c) + r * 8
    x = sqrt(max(0, 1 - h * h)) * r
    exp = [c + r * h * 1j * u + x * u, c + r * h * 1j * u - x * u]
    label("tangent" if abs(h) == 1 else "secant" if abs(h) < 1 else "outside", "diameter" if h == 0 else "")
    for nm, I in (("intersection_circle_line", g.intersection_circle_line(K, L)),
                  ("Line.intersection_with_circle", L.intersection_with_circle(K)),
                  ("Circle.intersection_with_line", K.intersection_with_line(L)),
                  ("intersection_ellipse_line(circle)", g.intersection_ellipse_line(K, L))):
        if abs(h) > 1:
            require(I is None, "%s with a line at %s radii is %s", nm, h, show(I))
        elif abs(h) == 1:
            near(one_point(I, nm), exp[0], 1e-9 * size * max(1, size / (r * abs(case["L"]))), nm)
        else:
            z, w = two_points(I, nm)
            tol = 1e-10 * size * max(1, size / (r * abs(case["L"]))) * r / x
            if abs(z - exp[0]) > abs(z - exp[1]):
                z, w = w, z
            near(z, exp[0], tol, nm)
            near(w, exp[1], tol, nm)


@check("C05", lambda G: G.obj(e=G.ellipse, **s_secant(G)), n=2500)
def ellipse_line(case):
    """intersection of an ellipse and a line: image of the circle case under the affine map of the ellipse"""
    E = mkell(case["e"])
    a0, b0, u = mkline_at(case, 0j, 1.0)
    m = lambda z: E.c + cmath.exp(1j * E.al) * complex(E.a * z.real, E.b * z.imag)
    a, b = m(a0), m(b0)
    if abs(a - b) < 1e-3 * (abs(a) + abs(b)):
        skip("points of the line close together relative to the coordinates")
    L = g.Line(form(gpt(a), case["f"]), form(gpt(b), case["f"]), case["ea"], case["eb"])
    h = case["h"]
    x = sqrt(max(0, 1 - h * h))
    exp = [m(h * 1j * u + x * u), m(h * 1j * u - x * u)]
    size = E.size * 8
    cond = size / abs(a - b) * E.a / E.b
    label("tangent" if abs(h) == 1 else "secant" if abs(h) < 1 else "outside")
    for nm, I in (("intersection_ellipse_line", g.intersection_ellipse_line(E.e, L)),
                  ("Line.intersection_with_ellipse", L.intersection_with_ellipse(E.e)),
                  ("Ellipse.intersection_with_line", E.e.intersection_with_line(L))):
        if abs(h) > 1:
            require(I is None, "%s is %s for a line that misses the ellipse", nm, show(I))
        elif abs(h) == 1:
            near(one_point(I, nm), exp[0], 1e-7 * size * cond, nm)
        else:
            z, w = two_points(I, nm)
            if abs(z - exp[0]) > abs(z - exp[1]):
                z, w = w, z
            tol = 1e-10 * size * cond / x
            near(z, exp[0], tol, nm)
            near(w, exp[1], tol, nm)

from shapes import *


def s_tri(G):
    return dict(t=G.triangle(), frame=G.frame, f=G.form)


class Tri(object):
    pass


def mk(case):
    T = Tri()
    fr = Frame(case["frame"])
    T.fr = fr
    T.P = [fr.pt(p) for p in case["t"]]
    T.z = [C(p) for p in T.P]
    T.t = g.Triangle(*[form(p, case["f"]) for p in T.P])
    A, B, D = T.z
    T.a, T.b, T.c = abs(B - D), abs(A - D), abs(A - B)
    T.cr = cross(B - A, D - A)
    T.area = abs(T.cr) / 2
    T.L = max(T.a, T.b, T.c)
    T.l = min(T.a, T.b, T.c)
    T.S = max(abs(x) for x in T.z) + T.L
    T.h = 2 * T.area / T.L                      # smallest height
    T.cond = (T.S / T.L) * (T.L / T.h) ** 2
    # cosines of the angles
    T.cos = [(T.b ** 2 + T.c ** 2 - T.a ** 2) / (2 * T.b * T.c), (T.a ** 2 + T.c ** 2 - T.b ** 2) / (2 * T.a * T.c),
             (T.a ** 2 + T.b ** 2 - T.c ** 2) / (2 * T.a * T.b)]
    if T.S > 1e3 * T.L:
        skip("small triangle relative to the coordinates")
    m = min(T.cos)
    label("obtuse" if m < -1e-9 else "right" if m < 1e-9 else "acute", "counterclockwise" if T.cr > 0 else "clockwise")
    return T


# ------------------------------------------------------------------ C13
@check("C13", lambda G: G.obj(**s_tri(G)), n=2000)
def elements(case):
    """a, b, c, edges, angles (law of cosines, sum pi), orientation (1 = counterclockwise), is_acute, flatness = cos^2 A < 1"""
    T = mk(case)
    tol = 1e-12 * T.S
    near(num(T.t.a), T.a, tol, "a")
    near(num(T.t.b), T.b, tol, "b")
    near(num(T.t.c), T.c, tol, "c")
    e = T.t.edges
    require(sorted(e.keys()) == ["a", "b", "c"], "edges: %s", show(e))
    near(num(e["a"]), T.a, tol, "edges a")
    near(num(e["b"]), T.b, tol, "edges b")
    near(num(e["c"]), T.c, tol, "edges c")
    ang = [num(T.t.angleA), num(T.t.angleB), num(T.t.angleC)]
    for i in range(3):
        near(cos(ang[i]), T.cos[i], 1e-11 * (T.S / T.l) ** 1 * (T.L / T.l), "cosine of the angle at " + "ABC"[i])
        require(0 < ang[i] < pi, "angle %r", ang[i])
    near(sum(ang), pi, 1e-9 * T.cond, "sum of the angles")
    o = T.t.orientation
    require(o == (1 if T.cr > 0 else -1), "orientation is %s for a %s triangle %s", o, "counterclockwise" if T.cr > 0 else "clockwise", T.P)
    m = min(T.cos)
    if abs(m) > 1e-6:
        require(boolean(T.t.is_acute) == (m > 0), "is_acute is %s, smallest cosine %.4g", T.t.is_acute, m)
    f = num(T.t.flatness)
    near(f, T.cos[0] ** 2, 1e-11 * (T.S / T.l) * (T.L / T.l), "flatness")
    require(f < 1, "flatness 1 for a genuine triangle")


@check("C13", lambda G: G.obj(w=G.lst(G.mix(G.grid(-2, 3, 64), G.grid(0.02, 1, 64), G.one(1e-4, -1e-4, 1e-6, -1e-6)), 2, 2), near=G.one(0, 0, 0, 1e-4, -1e-4, 1e-6, -1e-6), fm=G.form, **s_tri(G)), n=2500)
def contains(case):
    """contains() iff all barycentric coordinates are positive"""
    T = mk(case)
    s, t = case["w"]
    if case["near"]:                             # just inside or outside the side opposite to the first vertex
        t = 1 - s - case["near"]
    w = [1 - s - t, s, t]
    if min(abs(x) for x in w) < 1e-13 * (T.S / T.h) ** 2 * (1 + max(map(abs, w))) + 1e-12:
        skip("on (or near) a side line")
    m = w[0] * T.z[0] + w[1] * T.z[1] + w[2] * T.z[2]
    exp = min(w) > 0
    got = boolean(T.t.contains(form(gpt(m), case["fm"])), "contains")
    require(got == exp, "contains is %s for barycentric coordinates %s", got, w)
    label("inside" if exp else "outside")


@check("C13", lambda G: G.obj(a=G.ipt(12), d=G.ipt(6), k=G.integer(-5, 6), f=G.form), n=400)
def flat(case):
    """aligned points with integer coordinates: flatness 1, orientation 0, no circumcircle, no Malfatti circles, no Steiner ellipses"""
    a, d, k = case["a"], case["d"], case["k"]
    if d == [0, 0] or k in (0, 1):
        skip("coincident vertices")
    T = g.Triangle(form(a, case["f"]), form([a[0] + d[0], a[1] + d[1]], case["f"]), [a[0] + k * d[0], a[1] + k * d[1]])
    near(num(T.flatness), 1, 1e-12, "flatness of a flat triangle")
    require(T.orientation == 0, "orientation %r of a flat triangle", T.orientation)
    ang = [num(T.angleA, "angleA"), num(T.angleB, "angleB"), num(T.angleC, "angleC")]
    mid = 0 if k < 0 else 1 if k > 1 else 2
    for i in range(3):
        near(ang[i], pi if i == mid else 0, 1e-6, "angle at %s of a flat triangle" % "ABC"[i])
    for j in (0, 1):
        M = [a[0] + (1, 0, 3)[k % 3] * d[0] - j * d[1], a[1] + (1, 0, 3)[k % 3] * d[1] + j * d[0]]
        require(not boolean(T.contains(M), "contains"), "a flat triangle contains %s", M)
    for nm in ("circumcircle", "malfatti_circles", "steiner_ellipse", "steiner_inellipse"):
        r = getattr(T, nm)()
        require(r is None, "%s of a flat triangle is %s", nm, show(r))


@check("C13", lambda G: G.obj(L=G.mix(G.one(1, 0.1, 0.01, 0.001, 1000), G.grid(0.05, 8, 64)), u=G.grid(0.1, 0.9, 64), v=G.one(1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.05, 0.1), c=G.pt(1),
                              dir=G.angle360(), turn=G.integer(0, 2), flip=G.boolean, f=G.form, w=G.lst(G.grid(-1, 2, 16), 2, 2)), n=800)
def thin(case):
    """thin and small triangles: orientation, angles, is_acute, contains and flatness are still right"""
    L, u, v = case["L"], case["u"], case["v"]
    o, e = C(case["c"]) * L, unit(case["dir"]) * L
    z = [C(gpt(o + x * e)) for x in (0, 1, complex(u, v))]
    k = case["turn"]
    z = z[k:] + z[:k]
    if case["flip"]:
        z = z[::-1]
    T = g.Triangle(*[form(gpt(x), case["f"]) for x in z])
    require(T.orientation == (-1 if case["flip"] else 1), "orientation is %s for %s", T.orientation, show(T))
    ang = [num(T.angleA, "angleA"), num(T.angleB, "angleB"), num(T.angleC, "angleC")]
    a, b, c = abs(z[1] - z[2]), abs(z[0] - z[2]), abs(z[0] - z[1])
    for i in range(3):
        exp = abs(cmath.phase((z[(i + 1) % 3] - z[i]) / (z[(i + 2) % 3] - z[i])))
        near(ang[i], exp, 1e-12 / sin(exp) + 1e-12, "angle at " + "ABC"[i])
    require(not boolean(T.is_acute) or max(a, b, c) ** 2 < (a * a + b * b + c * c) / 2 * (1 + 1e-9), "is_acute for a thin triangle")
    f = num(T.flatness)
    near(f, ((b * b + c * c - a * a) / (2 * b * c)) ** 2, 1e-10, "flatness")
    require(f <= 1 and (v < 1e-3 or f < 1), "flatness %r of a genuine triangle", f)
    s, t = case["w"]
    w = [1 - s - t, s, t]
    if min(abs(x) for x in w) > 0.03:
        m = w[0] * z[0] + w[1] * z[1] + w[2] * z[2]
        require(boolean(T.contains(gpt(m)), "contains") == (min(w) > 0), "contains is wrong for barycentric coordinates %s", w)
    label("v=%g" % v)


# ------------------------------------------------------------------ C14
@check("C14", lambda G: G.obj(**s_tri(G)), n=1500)
def circumcircle(case):
    """the circumcircle passes through the vertices"""
    T = mk(case)
    c, r = circ(T.t.circumcircle(), "circumcircle")
    R = T.a * T.b * T.c / (4 * T.area)
    tol = 1e-13 * (T.S + R) * (T.S / T.l) ** 2 * (T.L / T.h) ** 2
    for z in T.z:
        near(abs(z - c), r, tol, "distance from the circumcenter to a vertex")
    near(r, R, tol, "circumradius")


@check("C14", lambda G: G.obj(**s_tri(G)), n=2000)
def incircle_excircles(case):
    """incircle tangent to the three sides from inside; excircles tangent to one side from outside and to the extensions of the other two"""
    T = mk(case)
    A, B, D = T.z
    o = 1 if T.cr > 0 else -1
    tol = 1e-11 * T.S * T.cond
    sides = [(B, D), (D, A), (A, B)]
    c, r = circ(T.t.incircle(), "incircle")
    for k, (p, q) in enumerate(sides):
        near(o * line_dist(p, q, c), r, tol, "incircle: distance from the center to side " + "abc"[k])
    ex = T.t.excircles()
    require(isinstance(ex, dict) and sorted(ex) == ["A", "B", "C"], "excircles: %s", show(ex))
    for i in range(3):
        c, r = circ(ex["ABC"[i]], "excircle")
        ra = 2 * T.area / (-[T.a, T.b, T.c][i] * 2 + T.a + T.b + T.c)
        t2 = 1e-11 * (T.S + abs(c) + ra) * T.cond * (1 + ra / T.h)
        for k, (p, q) in enumerate(sides):
            near(o * line_dist(p, q, c), -r if k == i else r, t2, "excircle %s: signed distance to side %s" % ("ABC"[i], "abc"[k]))


@check("C14", lambda G: G.obj(**s_tri(G)), n=1500)
def orthic(case):
    """vertices of the orthic triangle are the feet of the altitudes from A, B, C in that order"""
    T = mk(case)
    A, B, D = T.z
    m = min(abs(x) for x in T.cos)
    if 0 < m < 1e-6 and min(T.cos) != 0:
        # right up to rounding: two feet coincide with a vertex, still defined
        label("right up to rounding")
    t = instance(T.t.orthic_triangle(), g.Triangle, "orthic triangle")
    tol = 1e-11 * T.S * T.cond
    near(pt(t.A), foot(B, D, A), tol, "foot of the altitude from A")
    near(pt(t.B), foot(A, D, B), tol, "foot of the altitude from B")
    near(pt(t.C), foot(A, B, D), tol, "foot of the altitude from C")


# ------------------------------------------------------------------ C15
@check("C15", lambda G: G.obj(**s_tri(G)), n=1500)
def malfatti(case):
    """each Malfatti circle is inside, tangent to two sides and to the other two circles; tangency points lie on both circles"""
    T = mk(case)
    A, B, D = T.z
    o = 1 if T.cr > 0 else -1
    res = T.t.malfatti_circles()
    require(isinstance(res, dict) and "circles" in res and "tangency_points" in res, "result %s", show(res))
    ks, tp = res["circles"], res["tangency_points"]
    require(sorted(ks) == ["cA", "cB", "cC"] and sorted(tp) == ["TA", "TB", "TC"], "keys %s %s", sorted(ks), sorted(tp))
    cs = [circ(ks["c" + n], "c" + n) for n in "ABC"]
    sides = [(B, D), (D, A), (A, B)]
    tol = 1e-10 * T.S * T.cond * (T.L / T.h)
    for i in range(3):
        c, r = cs[i]
        for k in range(3):
            d = o * line_dist(sides[k][0], sides[k][1], c)
            if k != i:
                near(d, r, tol, "c%s: distance to side %s" % ("ABC"[i], "abc"[k]))
            else:
                require(d > r, "c%s meets the opposite side", "ABC"[i])
        j = (i + 1) % 3
        near(abs(c - cs[j][0]), r + cs[j][1], tol, "c%s and c%s tangent (distance of centers)" % ("ABC"[i], "ABC"[j]))
        k = (i + 2) % 3
        m = pt(tp["T" + "ABC"[k]], "tangency point")
        for q in (i, j):
            near(abs(m - cs[q][0]), cs[q][1], tol, "T%s: distance to the center of c%s" % ("ABC"[k], "ABC"[q]))


@check("C15", lambda G: G.obj(**s_tri(G)), n=1500)
def equal_detour(case):
    """|PA|+|PB|-c = |PB|+|PC|-a = |PC|+|PA|-b = the returned detour (P inside the triangle)"""
    T = mk(case)
    A, B, D = T.z
    res = T.t.equal_detour_point()
    require(isinstance(res, (tuple, list)) and len(res) == 2, "result %s", show(res))
    p, d = pt(res[0], "equal detour point"), num(res[1], "detour")
    x, y, z = abs(p - A), abs(p - B), abs(p - D)
    tol = 1e-10 * T.S * T.cond
    near(x + y - T.c, d, tol, "detour through P on AB")
    near(y + z - T.a, d, tol, "detour through P on BC")
    near(z + x - T.b, d, tol, "detour through P on CA")
    require(d > 0, "detour %r", d)
    o = 1 if T.cr > 0 else -1
    for (u, v) in ((A, B), (B, D), (D, A)):
        require(o * line_dist(u, v, p) > -tol, "the equal detour point is outside the triangle")


# ------------------------------------------------------------------ C16
@check("C16", lambda G: G.obj(**s_tri(G)), n=1500)
def steiner(case):
    """circumellipse: centroid, through the vertices; inellipse: centroid, tangent to the sides at their midpoints; homothetic with ratio 2"""
    T = mk(case)
    A, B, D = T.z
    G_ = (A + B + D) / 3
    e1, e2 = T.t.steiner_ellipse(), T.t.steiner_inellipse()
    c1, a1, b1, al1 = ell(e1, "Steiner ellipse")
    c2, a2, b2, al2 = ell(e2, "Steiner inellipse")
    tol = 1e-11 * T.S * T.cond
    near(c1, G_, tol, "center of the Steiner ellipse")
    near(c2, G_, tol, "center of the Steiner inellipse")
    rel = 1e-9 * T.cond * (T.L / T.h)
    for z in T.z:
        near(ell_q(c1, a1, b1, al1, z), 1, rel, "vertex on the Steiner ellipse")
    for u, v in ((A, B), (B, D), (D, A)):
        near(ell_q(c2, a2, b2, al2, (u + v) / 2), 1, rel, "midpoint on the Steiner inellipse")
        for s in (0.25, 0.75):
            require(ell_q(c2, a2, b2, al2, u + s * (v - u)) > 1, "the Steiner inellipse crosses a side")
    for nm, a, b, k in (("Steiner ellipse", a1, b1, 1.0), ("Steiner inellipse", a2, b2, 0.25)):
        require(a >= b * (1 - 1e-7), "%s: rmajor %r < rminor %r", nm, a, b)
        near(pi * a * b / T.area, k * 4 * pi / (3 * sqrt(3)), 1e-9 * T.cond * 10, nm + ": area ratio")

from shapes import *


def s_ell(G):
    return G.ellipse


def ecoef(c, a, b, al):
    """implicit equation, coefficients scaled so that inside is negative and the value at the center is -a^2 b^2"""
    s, k = sin(al), cos(al)
    A = a * a * s * s + b * b * k * k
    B = 2 * (b * b - a * a) * s * k
    Cc = a * a * k * k + b * b * s * s
    x, y = c.real, c.imag
    return [A, B, Cc, -2 * A * x - B * y, -B * x - 2 * Cc * y, A * x * x + B * x * y + Cc * y * y - a * a * b * b]


def ev(co, z):
    x, y = z.real, z.imag
    return co[0] * x * x + co[1] * x * y + co[2] * y * y + co[3] * x + co[4] * y + co[5]


# ------------------------------------------------------------------ C17
@check("C17", lambda G: G.obj(e=s_ell(G), t=G.angle360(), q=G.mix(G.one(0.5, 2), G.grid(0, 0.97, 64), G.grid(1.03, 3, 64))), n=2000)
def equation(case):
    """equation() vanishes exactly on the ellipse and is negative inside, positive outside"""
    E = mkell(case["e"])
    d = E.e.equation()
    require(isinstance(d, dict) and list(d.keys()) == list("ABCDEF"), "keys %s", show(d))
    co = [num(d[k], k) for k in "ABCDEF"]
    sc = (E.a * E.b) ** 2
    tol = 1e-12 * (E.size / E.b) ** 2
    for i in range(6):
        z = ell_point(E.c, E.a, E.b, E.al, math.radians(case["t"]) + i)
        near(ev(co, z) / sc, 0, tol, "equation at a point of the ellipse, relative to a^2 b^2")
    q = case["q"]
    z = E.c + q * (ell_point(E.c, E.a, E.b, E.al, math.radians(case["t"])) - E.c)
    near(ev(co, z) / sc, q * q - 1, tol * (1 + q * q), "equation off the ellipse, relative to a^2 b^2")


@check("C17", lambda G: G.obj(e=s_ell(G), lam=G.one(1, -1, 2, -0.5, 10, 0.01, -100, 1.5)), n=2000)
def from_equation(case):
    """from_equation() of any non-zero multiple of the equation of an ellipse gives this ellipse"""
    E = mkell(case["e"])
    if E.size > 200 * E.b:
        skip("ellipse small relative to its distance from the origin")
    co = [case["lam"] * v for v in ecoef(E.c, E.a, E.b, E.al)]
    got = g.Ellipse.from_equation(*co)
    tol = 1e-12 * (E.size / E.b) ** 3 * (E.a / E.b)
    label("lambda<0" if case["lam"] < 0 else "lambda>0")
    same_ellipse(got, E.c, E.a, E.b, E.al, tol, "from_equation")
    d = E.e.equation()
    same_ellipse(g.Ellipse.from_equation(*[num(d[k]) for k in "ABCDEF"]), E.c, E.a, E.b, E.al, tol, "from_equation(equation())")
    same_ellipse(g.Ellipse.from_equation(**{k: num(d[k]) for k in "ABCDEF"}), E.c, E.a, E.b, E.al, tol, "from_equation(equation())")


@check("C17", lambda G: G.obj(c=G.pt(6), p=G.integer(1, 12), q=G.integer(1, 12), rot=G.one(0, 45), lam=G.one(1, -1, 3, -2)), n=800)
def from_equation_axes(case):
    """axis-parallel and diagonal ellipses with exact coefficients (A=C, B=0 cases)"""
    c, lam = C(case["c"]), case["lam"]
    a2, b2 = max(case["p"], case["q"]), min(case["p"], case["q"])
    if case["rot"] == 0:
        # b2 x^2 + a2 y^2 = a2 b2, either orientation
        swap = case["p"] < case["q"]
        A, B, Cc = (a2, 0, b2) if swap else (b2, 0, a2)
        al = pi / 2 if swap else 0.0
    else:
        swap = case["p"] < case["q"]
        A, B, Cc = a2 + b2, (2 if swap else -2) * (a2 - b2), a2 + b2
        a2, b2 = a2 * 2, b2 * 2        # scale: A x^2+Bxy+Cy^2 = a2 b2 with axes sqrt(a2), sqrt(b2)
        al = 3 * pi / 4 if swap else pi / 4
    x, y = c.real, c.imag
    co = [lam * v for v in (A, B, Cc, -2 * A * x - B * y, -B * x - 2 * Cc * y, A * x * x + B * x * y + Cc * y * y - a2 * b2)]
    got = g.Ellipse.from_equation(*co)
    a, b = sqrt(a2), sqrt(b2)
    same_ellipse(got, c, a, b, al, 1e-10 * ((abs(c) + a) / b) ** 3, "from_equation")
    label("diagonal" if case["rot"] else "axis-parallel", "circle" if a2 == b2 else "")


@check("C17", lambda G: G.obj(c=G.pt(6), a=G.grid(0.5, 5, 16), b=G.grid(0.5, 5, 16), al=G.angle360(), kind=G.one("hyperbola", "imaginary", "parabola", "lines"),
                              lam=G.one(1, -1, 2, -0.5), p=G.ipt(4), w=G.lst(G.integer(-4, 4), 3, 3)), n=1000)
def non_ellipses(case):
    """from_equation() raises ValueError for hyperbolas, parabolas, parallel lines and the empty conic"""
    lam, k = case["lam"], case["kind"]
    if k in ("hyperbola", "imaginary"):
        c, a, b, al = C(case["c"]), case["a"], case["b"], math.radians(case["al"])
        s, q = sin(al), cos(al)
        sg = -1 if k == "hyperbola" else 1
        # (u/a)^2 + sg (v/b)^2 + 1 = 0 with u = q x' + s y', v = -s x' + q y'
        A = q * q / a ** 2 + sg * s * s / b ** 2
        B = 2 * s * q * (1 / a ** 2 - sg / b ** 2)
        Cc = s * s / a ** 2 + sg * q * q / b ** 2
        x, y = c.real, c.imag
        co = [A, B, Cc, -2 * A * x - B * y, -B * x - 2 * Cc * y, A * x * x + B * x * y + Cc * y * y + 1]
    else:
        p, q = case["p"]
        if p == 0 and q == 0:
            skip("no quadratic part")
        co = [p * p, 2 * p * q, q * q] + list(case["w"])
        if k == "lines":
            w = case["w"]
            # (px+qy)^2 + w0 (px+qy) + w1
            co = [p * p, 2 * p * q, q * q, w[0] * p, w[0] * q, w[1]]
    label(k)
    co = [lam * v for v in co]
    expect_value_error(lambda: g.Ellipse.from_equation(*co), "from_equation%s (%s)" % (tuple(co), k))


@check("C17", lambda G: G.obj(e=s_ell(G)), n=1500)
def shape_matrix(case):
    """shape_matrix() S: (M-O)'S(M-O)=1 on the ellipse; from_center_and_matrix(O, S) gives the ellipse back"""
    E = mkell(case["e"])
    if E.size > 200 * E.b:
        skip("ellipse small relative to its distance from the origin")
    S = matrix(E.e.shape_matrix(), 2, 2, "shape matrix")
    tol = 1e-11 * (E.size / E.b) ** 2 * (E.a / E.b) ** 2
    near(S[0][1], S[1][0], tol / E.b ** 2, "symmetry of the shape matrix")
    for i in range(6):
        z = ell_point(0j, E.a, E.b, E.al, 0.3 + i)
        near(S[0][0] * z.real ** 2 + 2 * S[0][1] * z.real * z.imag + S[1][1] * z.imag ** 2, 1, tol, "quadratic form of the shape matrix on the ellipse")
    same_ellipse(g.Ellipse.from_center_and_matrix(E.p, E.e.shape_matrix()), E.c, E.a, E.b, E.al, tol, "from_center_and_matrix(center, shape_matrix())")
    s, k = sin(E.al), cos(E.al)
    u, v = 1 / E.a ** 2, 1 / E.b ** 2
    M = [[u * k * k + v * s * s, (u - v) * s * k], [(u - v) * s * k, u * s * s + v * k * k]]
    same_ellipse(g.Ellipse.from_center_and_matrix(tuple(E.p), np.array(M)), E.c, E.a, E.b, E.al, 1e-11 * (E.a / E.b) ** 2, "from_center_and_matrix")


@check("C17", lambda G: G.obj(l1=G.grid(-3, 3, 8), l2=G.one(-1, -0.25, -3), al=G.angle360(), c=G.pt(5)), n=300)
def not_positive(case):
    """from_center_and_matrix raises ValueError for a matrix with a negative eigenvalue"""
    al = math.radians(case["al"])
    s, k = sin(al), cos(al)
    u, v = case["l1"], case["l2"]
    M = np.array([[u * k * k + v * s * s, (u - v) * s * k], [(u - v) * s * k, u * s * s + v * k * k]])
    expect_value_error(lambda: g.Ellipse.from_center_and_matrix(case["c"], M), "matrix with eigenvalues %s, %s" % (u, v))


@check("C17", lambda G: G.obj(e=s_ell(G), t0=G.angle360(), j=G.lst(G.integer(-22, 22), 5, 5), perm=G.integer(0, 119), f=G.form), n=1500)
def five_points(case):
    """from_five_points() of five points of an ellipse gives this ellipse, whatever their order; the equation vanishes at the points"""
    E = mkell(case["e"])
    if E.size > 15 * E.b:
        skip("ellipse small relative to its distance from the origin, or very flat")
    ts = [math.radians(case["t0"] + 72 * i + case["j"][i]) for i in range(5)]
    zs = [ell_point(E.c, E.a, E.b, E.al, t) for t in ts]
    k, order, pool = case["perm"], [], list(range(5))
    for m in (5, 4, 3, 2, 1):
        order.append(pool.pop(k % m))
        k //= m
    zs = [zs[i] for i in order]
    P = [form(gpt(z), case["f"]) for z in zs]
    tol = 1e-13 * (E.size / E.b) ** 5 * (E.a / E.b) ** 2
    same_ellipse(g.Ellipse.from_five_points(*P), E.c, E.a, E.b, E.al, tol, "from_five_points")
    d = g.Ellipse.equation_from_five_points(*P)
    co = [num(d[x]) for x in "ABCDEF"]
    ref = ecoef(E.c, E.a, E.b, E.al)
    lam = sum(x * y for x, y in zip(co, ref)) / sum(y * y for y in ref)
    require(lam != 0, "null equation")
    for z in zs + [ell_point(E.c, E.a, E.b, E.al, 0.1 + i) for i in range(5)]:
        near(ev(co, z) / lam / (E.a * E.b) ** 2, 0, tol * 10, "equation_from_five_points at a point of the ellipse")


@check("C17", lambda G: G.obj(c=G.pt(4), a=G.grid(0.5, 3, 16), b=G.grid(0.5, 3, 16), al=G.angle360(),
                              t=G.lst(G.grid(-1.5, 1.5, 16), 5, 5), br=G.lst(G.one(1, -1), 5, 5), dup=G.one(0, 0, 1), i=G.integer(0, 3), sc=G.one(1, 1, 0.25, 0.0625, 8)), n=700)
def five_points_rejected(case):
    """five points on a hyperbola, or not distinct, raise ValueError"""
    al = cmath.exp(1j * math.radians(case["al"]))
    c = C(case["c"])
    key = [(t, s) for t, s in zip(case["t"], case["br"])]
    pts = [c + al * complex(s * case["a"] * math.cosh(t), case["b"] * math.sinh(t)) for t, s in key]
    if case["dup"]:
        pts[4] = pts[case["i"]]
        label("duplicate")
        if len(set(pts)) == 5:
            skip()
    else:
        mind = min(abs(pts[i] - pts[j]) for i in range(5) for j in range(i))
        if mind < 0.3:
            skip("points of the hyperbola too close together")
        # five points on one branch can be nearly on a parabola/ellipse: stay clear
        if len(set(case["br"])) == 1 and max(case["t"]) - min(case["t"]) < 1.5:
            skip("short arc of one branch")
        label("hyperbola")
    P = [gpt(case["sc"] * z) for z in pts]
    expect_value_error(lambda: g.Ellipse.equation_from_five_points(*P), "equation_from_five_points: five points (%s)" % ("duplicate" if case["dup"] else "on a hyperbola"))
    expect_value_error(lambda: g.Ellipse.from_five_points(*P), "five points (%s)" % ("duplicate" if case["dup"] else "on a hyperbola"))


# ------------------------------------------------------------------ C18
@check("C18", lambda G: G.obj(e=s_ell(G), n=G.mix(G.integer(1, 12), G.one(100, 7, None))), n=800)
def path(case):
    """path(n): n points regularly spaced in eccentric angle, starting at the end of the major axis"""
    E = mkell(case["e"])
    n = case["n"]
    p = E.e.path() if n is None else E.e.path(n)
    n = n or 100
    rows = matrix(p, n, 2, "path")
    for i, r in enumerate(rows):
        near(complex(*r), ell_point(E.c, E.a, E.b, E.al, 2 * pi * i / n), 1e-11 * E.size, "point %d of the path" % i)


def polar(a, b, th):
    """point of the ellipse (own axes) in direction th"""
    r = 1 / sqrt((cos(th) / a) ** 2 + (sin(th) / b) ** 2)
    return r * cmath.exp(1j * th)


def tval(G):
    return G.mix(G.angle(1440), G.one(0, 90, 180, 270, 360, -90, -180, 540), G.one(1e-7, -1e-7, 180 + 1e-7, 180 - 1e-7, 359.9999999))


@check("C18", lambda G: G.obj(e=s_ell(G), th=tval(G), vec=G.lst(tval(G), 0, 4), deg=G.boolean, k=G.one("list", "tuple", "array")), n=2000)
def point_from_angle(case):
    """point_from_angle(): the point of the ellipse seen from its center under that angle from the major axis; vectors elementwise"""
    E = mkell(case["e"])
    th = case["th"]
    u = cmath.exp(1j * E.al)
    tol = 1e-9 * E.size
    got = pt(E.e.point_from_angle(th) if case["deg"] else E.e.point_from_angle(math.radians(th), degrees=False), "point_from_angle")
    near(got, E.c + u * polar(E.a, E.b, math.radians(th)), tol, "point_from_angle(%r)" % th)
    if len(case["vec"]) >= 2:
        v = [x if case["deg"] else math.radians(x) for x in case["vec"]]
        a = np.array(v, dtype=float) if case["k"] == "array" else tuple(v) if case["k"] == "tuple" else list(v)
        rows = matrix(E.e.point_from_angle(a, case["deg"]), len(v), 2, "point_from_angle of a vector")
        for x, r in zip(case["vec"], rows):
            near(complex(*r), E.c + u * polar(E.a, E.b, math.radians(x)), tol, "point_from_angle of a vector at %r" % x)
        label("vector")


@check("C18", lambda G: G.obj(e=s_ell(G), th=tval(G), deg=G.boolean), n=1500)
def theta2t(case):
    """theta2t(): eccentric angle of the point seen under theta from the major axis; keeps the number of turns; increasing"""
    E = mkell(case["e"])
    th = math.radians(case["th"])
    t = num(E.e.theta2t(case["th"]) if case["deg"] else E.e.theta2t(th, degrees=False), "theta2t")
    near(complex(E.a * cos(t), E.b * sin(t)), polar(E.a, E.b, th), 1e-9 * E.a, "point with eccentric angle theta2t(theta)")
    require(abs(t - th) < pi / 2 + 1e-9, "theta2t(%r) = %r is in another turn", th, t)
    p = pt(E.e.point_from_angle(case["th"]))
    near(p, ell_point(E.c, E.a, E.b, E.al, t), 1e-9 * E.size, "point_from_angle(theta) and eccentric angle theta2t(theta)")
    t2 = num(E.e.theta2t(case["th"] + 10))
    require(t2 > num(E.e.theta2t(case["th"])), "theta2t is not increasing at %r", case["th"])


@check("C18", lambda G: G.obj(e=s_ell(G), t=G.angle(720)), n=1200)
def normal(case):
    """normal(t): unit, orthogonal to the tangent, pointing outwards"""
    E = mkell(case["e"])
    t = math.radians(case["t"])
    v = pt(E.e.normal(t), "normal")
    near(abs(v), 1, 1e-12, "length of the normal")
    w = cmath.exp(1j * E.al)
    tg = w * complex(-E.a * sin(t), E.b * cos(t))
    near(dot(v, tg) / abs(tg), 0, 1e-11, "cosine of the angle between normal and tangent")
    require(dot(v, ell_point(0, E.a, E.b, E.al, t)) > 0, "the normal points inwards")


@check("C18", lambda G: G.obj(e=s_ell(G), t=G.angle(720), conj=G.one(True, False, None)), n=1200)
def diameter(case):
    """diameter(t): segment between the points of eccentric angles t and t+pi; the conjugate one is parallel to the tangents at its ends"""
    E = mkell(case["e"])
    t = math.radians(case["t"])
    d = E.e.diameter(t) if case["conj"] is None else E.e.diameter(t, case["conj"])
    ls = [d]
    if case["conj"]:
        require(isinstance(d, (list, tuple)) and len(d) == 2, "two diameters expected, got %s", show(d))
        ls = list(d)
    tol = 1e-10 * E.size
    for i, l in enumerate(ls):
        p, q = line(l, "diameter")
        z = ell_point(E.c, E.a, E.b, E.al, t + i * pi / 2)
        if abs(p - z) > abs(q - z):
            p, q = q, p
        near(p, z, tol, "end of the diameter")
        near(q, 2 * E.c - z, tol, "other end of the diameter")
        require(not l.extendA and not l.extendB, "a diameter is a segment")
    label("conjugate" if case["conj"] else "single")


@check("C18", lambda G: G.obj(e=s_ell(G), t=G.angle360(), q=G.mix(G.one(1), G.grid(0, 0.97, 64), G.grid(1.03, 3, 64), G.one(0.999, 1.001)), f=G.form), n=2500)
def membership(case):
    """includes() iff on the ellipse; contains() iff inside"""
    E = mkell(case["e"])
    q = case["q"]
    z = E.c + q * (ell_point(E.c, E.a, E.b, E.al, math.radians(case["t"])) - E.c)
    if E.size > 1e3 * E.b:
        skip("ellipse small relative to its distance from the origin")
    i = boolean(E.e.includes(form(gpt(z), case["f"])), "includes")
    require(i == (q == 1), "includes is %s at %s times the ellipse %s", i, q, show(E.e))
    if q != 1:
        c = boolean(E.e.contains(form(gpt(z), case["f"])), "contains")
        require(c == (q < 1), "contains is %s at %s times the ellipse %s", c, q, show(E.e))
    label("on" if q == 1 else "in" if q < 1 else "out")


@check("C18", lambda G: G.obj(e=s_ell(G), rel=G.one("same", "same", "turn", "jitter", "center", "a", "b", "alpha", "circle"), k=G.integer(-3, 3), deg2=G.boolean,
                              q=G.one(1.25, 0.8, 1.001, 0.999), dal=G.mix(G.signed(2, 80), G.one(0.01, -0.01, 0.1, 1, 89.9, 90)), d=G.angle360()), n=2000)
def is_equal(case):
    """is_equal() iff same point set: angle modulo a half-turn, degrees or radians, irrelevant for a circle"""
    E = mkell(case["e"])
    rel = case["rel"]
    c, a, b, al = E.c, E.a, E.b, math.degrees(E.al)
    same = True
    if rel == "turn":
        al += 180 * case["k"]
    elif rel == "jitter":
        al += 180 * case["k"] + (1 if case["deg2"] else -1) * 10.0 ** -(8 + case["k"] % 4)
    elif rel == "center":
        c = c + unit(case["d"]) * max(1e-3 * b if case["deg2"] else 0.05 * b, 1e-3 * E.size)
        same = False
    elif rel == "a":
        a = a * max(case["q"], 1 / case["q"])
        same = False
    elif rel == "b":
        b = b * min(case["q"], 1 / case["q"])
        same = False
    elif rel == "alpha":
        al += case["dal"]
        same = E.round
        if not E.round and case["e"]["e"] > 0.9:
            skip("nearly circular")
    elif rel == "circle":
        if not E.round:
            skip("only for circular ellipses")
        require(boolean(E.e.is_equal(g.Circle(E.p, E.a))), "not equal to the same circle")
        require(not boolean(E.e.is_equal(g.Circle(E.p, 1.1 * E.a))), "equal to another circle")
        return
    if not E.round and case["e"]["e"] > 0.99:
        skip("nearly circular")
    F = g.Ellipse(gpt(c), a, b, al if case["deg2"] else math.radians(al), case["deg2"])
    label(rel)
    for x, y in ((E.e, F), (F, E.e), (E.e, E.e)):
        exp = same or x is y
        got = boolean(x.is_equal(y), "is_equal")
        require(got == exp, "is_equal is %s for %s and %s", got, show(x), show(y))

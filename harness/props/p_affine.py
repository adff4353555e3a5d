from shapes import *


class Map(object):
    """reference affine map: z -> x*p + y*q + t (p, q, t complex)"""

    def __init__(self, p, q, t):
        self.p, self.q, self.t = p, q, t

    def __call__(self, z):
        return z.real * self.p + z.imag * self.q + self.t

    def lin(self, z):
        return z.real * self.p + z.imag * self.q

    @property
    def det(self):
        return cross(self.p, self.q)

    @property
    def norm(self):
        return hypot(abs(self.p), abs(self.q))


def from_fn(f):
    t = f(0j)
    return Map(f(1 + 0j) - t, f(1j) - t, t)


def ell_axes(p, q):
    """semi-axes and direction of {cos(s) p + sin(s) q}"""
    # z(s) = u e^{is} + v e^{-is}
    u, v = (p - 1j * q) / 2, (p + 1j * q) / 2
    a, b = abs(u) + abs(v), abs(abs(u) - abs(v))
    al = (cmath.phase(u) + cmath.phase(v)) / 2 if abs(v) > 0 and abs(u) > 0 else 0.0
    return a, b, al


# ----------------------------------------------------------------- generators
def s_mat(G):
    """a well-conditioned 2x2 matrix (condition number <= ~50)"""
    svd = G.obj(k=G.one("svd"), a=G.grid(0.25, 4, 32), e=G.mix(G.one(1, 0.5), G.grid(0.05, 1, 64)),
                u=G.angle360(), v=G.angle360(), flip=G.boolean)
    ints = G.obj(k=G.one("int"), m=G.lst(G.integer(-4, 4), 4, 4))
    return G.mix(svd, ints)


def mkmat(d):
    if d["k"] == "int":
        p, r, q, s = d["m"][0], d["m"][2], d["m"][1], d["m"][3]
        if p * s - q * r == 0:
            skip("singular")
        return [[p, q], [r, s]]
    u, v = unit(d["u"]), unit(d["v"])
    a, b = d["a"], d["a"] * d["e"] * (-1 if d["flip"] else 1)
    # L = U diag(a,b) V^*
    f = lambda z: u * complex(a * (z * v.conjugate()).real, b * (z * v.conjugate()).imag)
    p, q = f(1 + 0j), f(1j)
    return [[p.real, q.real], [p.imag, q.imag]]


def s_aff(G):
    return G.obj(m=s_mat(G), b=G.pt(6))


def mkaff(d, k=0):
    m = mkmat(d["m"])
    f = Map(complex(m[0][0], m[1][0]), complex(m[0][1], m[1][1]), C(d["b"]))
    return g.Affine(m if k % 2 == 0 else np.array(m), form(d["b"], k)), f


KINDS = ("rotation", "reflection", "orthoproj", "obliqueproj", "homothety", "scaling", "scalingxy", "shear")


def s_tr(G):
    return G.obj(kind=G.one(*KINDS), o=G.pt(6), w=G.signed(0.5, 3), th=G.angle(360),
                 s=G.mix(G.one(2, -1, 0.5, 3, -2, 1), G.signed(0.25, 3), G.signed(0.25, 3), G.one(0.01, -0.002, 30, -100)), s2=G.mix(G.one(2, -1, 0.5), G.signed(0.25, 3)),
                 ang=G.mix(G.one(0, 30, 45, -45), G.grid(-75, 75, 16), G.one(85, -88, 89.5, -89.75)), obl=G.mix(G.one(90, 45, 135), G.grid(20, 160, 8)),
                 ratio=G.mix(G.one(1, 0.5, 2, 10, 0.05), G.grid(0.25, 4, 32), G.grid(0.1, 20, 10)), deg=G.boolean, ext=G.integer(0, 3), o2=G.pt(6),
                 f=G.form, frame=G.frame)


def mktr(d):
    """-> library transformation, reference map, frame"""
    fr = Frame(d["frame"])
    k, op = d["kind"], fr.pt(d["o"])
    o = C(op)
    w = fr.ang(0)
    u = unit(d["th"]) * d["w"]
    wv = fr.vec([u.real, u.imag])
    if fr.ident and d["th"] % 90 == 0:
        wv = [int(round(x)) if x == round(x) else x for x in wv]
    w = C(wv)
    F = form(op, d["f"])
    E = [bool(d["ext"] & 1), bool(d["ext"] & 2)]
    label(k)
    if k == "rotation":
        th = d["th"]
        T = g.Rotation(F, th if d["deg"] else math.radians(th), d["deg"])
        if d["deg"] and d["f"] == 0:
            T = g.Rotation(F, th)
        e = unit(th)
        f = lambda z: o + e * (z - o)
    elif k == "reflection":
        T = g.Reflection(g.Line(F, form(gpt(o + w), d["f"]), *E))
        f = lambda z: o + w * ((z - o) / w).conjugate()
    elif k in ("orthoproj", "obliqueproj"):
        D = g.Line(F, form(gpt(o + w), d["f"]), *E)
        if k == "orthoproj":
            v = w * 1j
            T = g.Projection(D, None)
        else:
            v = w * unit(d["obl"]) * abs(d["s2"])
            if d["obl"] % 45 == 0:       # axis-aligned directions exactly so
                v = complex(0, v.imag) if abs(v.real) < 1e-9 * abs(v) else complex(v.real, 0) if abs(v.imag) < 1e-9 * abs(v) else v
            o2 = C(fr.pt(d["o2"]))
            T = g.Projection(D, g.Line(gpt(o2), gpt(o2 + v), *E[::-1]))
        f = lambda z: z - v * (cross(w, z - o) / cross(w, v))
    elif k == "homothety":
        T = g.Homothety(F, d["s"])
        f = lambda z: o + d["s"] * (z - o)
    elif k == "scaling":
        T = g.Scaling(F, form(gpt(w), d["f"]), d["s"])
        n = w / abs(w)
        f = lambda z: z + (d["s"] - 1) * dot(z - o, n) * n
    elif k == "scalingxy":
        T = g.ScalingXY(F, d["s"], d["s2"])
        f = lambda z: o + complex(d["s"] * (z - o).real, d["s2"] * (z - o).imag)
    else:
        a = d["ang"]
        args = (F, form(gpt(w), d["f"]), d["ratio"], a if d["deg"] else math.radians(a))
        T = g.Shear(*args) if d["deg"] and d["f"] == 1 else g.Shear(*(args + (d["deg"],)))
        n = w / abs(w)
        kk = tan(math.radians(a)) / d["ratio"]
        f = lambda z: z + kk * dot(z - o, n) * n * 1j
    R = from_fn(lambda z: f(z))
    R.fn = f
    R.o, R.w, R.fr, R.kind = o, w, fr, k
    R.sz = abs(o) + fr.s * 10
    R.tol = 1e-10 * R.sz * (1 + R.norm) ** 2
    return T, R, fr


def s_pts(G, lo=2, hi=5):
    return G.lst(G.pt(8), lo, hi)


# ------------------------------------------------------------------ C20
@check("C20", lambda G: G.obj(f=s_aff(G), h=s_aff(G), k=G.form, p=G.pt(8)), n=2000)
def compose(case):
    """compose(left) applies the argument after the reference map, compose(left=False) before; 3x3 matrices multiply"""
    F, f = mkaff(case["f"], case["k"])
    H, h = mkaff(case["h"], case["k"] + 1)
    z = C(case["p"])
    tol = 1e-10 * 100 * (1 + f.norm) * (1 + h.norm)
    for left, want, args in ((True, h(f(z)), ()), (True, h(f(z)), (True,)), (False, f(h(z)), (False,))):
        K = instance(F.compose(H, *args), g.Affine, "compose")
        near(pt(K.transform(case["p"])), want, tol, "compose%s image" % (args,))
        M = matrix(K.get3x3matrix(), 3, 3, "3x3 matrix of the composite")
        near(C([M[0][0] * z.real + M[0][1] * z.imag + M[0][2], M[1][0] * z.real + M[1][1] * z.imag + M[1][2]]), want, tol,
             "3x3 matrix of compose%s applied to a point" % (args,))
        if M[2] != [0, 0, 1]:
            fail("last row of the 3x3 matrix is %s", M[2])


@check("C20", lambda G: G.obj(f=s_aff(G), k=G.form, P=G.mix(G.lst(G.pt(8), 1, 1), G.lst(G.pt(8), 2, 2), G.lst(G.pt(8), 3, 6)), lists=G.boolean), n=2000)
def points(case):
    """transform(point) = A m + b, and a matrix of one or more points gives the matrix of the images"""
    F, f = mkaff(case["f"], case["k"])
    P = case["P"]
    label("%d points" % len(P))
    tol = 1e-12 * 100 * (1 + f.norm)
    rows = matrix(F.transform([list(p) for p in P] if case["lists"] else np.array(P)), len(P), 2, "transform(points)")
    for i, p in enumerate(P):
        near(pt(F.transform(form(p, case["k"]))), f(C(p)), tol, "transform(point)")
        near(C(rows[i]), f(C(p)), tol, "transform of a matrix of %d points, row %d" % (len(P), i))


@check("C20", lambda G: G.obj(f=s_aff(G), k=G.form, p=G.pt(8)), n=2000)
def inverse(case):
    """f and f.inverse() undo each other, in both orders; the composite is the identity"""
    F, f = mkaff(case["f"], case["k"])
    I = instance(F.inverse(), g.Affine, "inverse")
    z = C(case["p"])
    tol = 1e-10 * 100 * (1 + f.norm) ** 2 / abs(f.det) * (1 + f.norm)
    near(pt(I.transform(F.transform(case["p"]))), z, tol, "inverse(f(z))")
    near(pt(F.transform(I.transform(case["p"]))), z, tol, "f(inverse(z))")
    for left in (True, False):
        K = F.compose(I, left)
        A, b = matrix(K.A, 2, 2), pt(K.b)
        for i in range(2):
            for j in range(2):
                near(A[i][j], float(i == j), tol, "f composed with its inverse (left=%s), A[%d,%d]" % (left, i, j))
        near(b, 0, tol, "f composed with its inverse (left=%s), b" % left)


@check("C20", lambda G: G.obj(m=s_mat(G), sc=G.one(1e-2, 1e-3, 1e-4, 1e-6, 1e3, 1e5), b=G.pt(6), e=G.one(0, 0, 1, 0.03, 1e-4), p=G.pt(4), th=G.angle360(), k=G.form), n=800)
def scaled(case):
    """strong contractions and dilations, and nearly singular maps, are invertible and have images of lines"""
    m, sc, e = mkmat(case["m"]), case["sc"], case["e"]
    if e:       # squeeze one direction
        q = [C(gpt(complex(m[0][0], m[1][0]))), complex(m[0][1], m[1][1])]
        u = q[0] / abs(q[0]) if q[0] != 0 else 1
        q[1] = dot(q[1], u) * u + e * cross(u, q[1]) * 1j * u
        m = [[q[0].real, q[1].real], [q[0].imag, q[1].imag]]
    m = [[sc * x for x in r] for r in m]
    f = Map(complex(m[0][0], m[1][0]), complex(m[0][1], m[1][1]), C(case["b"]) * sc)
    if abs(f.det) < 1e-5 * f.norm ** 2:
        skip("nearly singular")
    F = g.Affine(m, form(gpt(f.t), case["k"]))
    I = instance(F.inverse(), g.Affine, "inverse of the map of matrix %s" % (m,))
    z = C(case["p"])
    cond = f.norm ** 2 / abs(f.det)
    near(pt(I.transform(gpt(f(z)))), z, 1e-11 * cond ** 2 * (1 + abs(f.t) / sc + abs(z)), "inverse(f(z))")
    w = z + unit(case["th"])
    if abs(f(z) - f(w)) > max(1e-7, 1e-3 * (abs(f(z)) + abs(f(w)))):     # points within 1e-8 count as equal
        R = F.transform_line(g.Line(gpt(z), gpt(w)))
        x, y = line(R, "transform_line by the map of matrix %s" % (m,))
        near(x, f(z), 1e-11 * sc * 20 * (1 + f.norm / sc), "image of A")
        near(y, f(w), 1e-11 * sc * 20 * (1 + f.norm / sc), "image of B")
    label("contraction" if f.norm < 0.1 else "dilation" if f.norm > 100 else "", "squeezed" if e and e < 1 else "")


@check("C20", lambda G: G.obj(r=G.lst(G.integer(-20, 20), 2, 2), k=G.mix(G.integer(-60, 60), G.grid(-3, 3, 64), G.one(0)), swap=G.boolean, tr=G.boolean,
                              b=G.pt(5), c=G.one(1, 1, 0.1, 0.3), p=G.pt(5)), n=1200)
def singular(case):
    """a singular map has no inverse: None; nor image of a line or an ellipse"""
    r = [x * case["c"] for x in case["r"]]
    m = [r, [x * case["k"] for x in r]]
    if case["swap"]:
        m = m[::-1]
    if case["tr"]:
        m = [[m[0][0], m[1][0]], [m[0][1], m[1][1]]]
    if all(x == 0 for x in m[0] + m[1]):
        label("zero matrix")
    F = g.Affine(m, case["b"])
    for what, r in (("inverse", F.inverse()), ("transform_line", F.transform_line(g.Line((0, 0), (1, 2)))),
                    ("transform_ellipse", F.transform_ellipse(g.Circle((1, 2), 3)))):
        require(r is None, "%s of the singular map %s returned %s instead of None", what, m, show(r))
    p = C(case["p"])
    near(pt(F.transform(case["p"])), complex(m[0][0] * p.real + m[0][1] * p.imag, m[1][0] * p.real + m[1][1] * p.imag) + C(case["b"]),
         1e-9 * (1 + 5 * max(map(abs, m[0] + m[1]))), "image of a point by a singular map")


@check("C20", lambda G: G.obj(P=G.thin_triangle(), Q=G.thin_triangle(), fp=G.frame, fq=G.frame, p=G.pt(6), k=G.form), n=2000)
def three_points(case):
    """from_mapping_three_points maps Pi to Qi, and is affine (barycentric coordinates are preserved)"""
    a, b = Frame(case["fp"]), Frame(case["fq"])
    P, Q = [a.pt(x) for x in case["P"]], [b.pt(x) for x in case["Q"]]
    F = instance(g.Affine.from_mapping_three_points(*[form(x, case["k"] + i) for i, x in enumerate(P + Q)]), g.Affine, "from_mapping_three_points")
    p, q = [C(x) for x in P], [C(x) for x in Q]
    cp = min(abs(line_dist(p[i], p[(i + 1) % 3], p[i - 1])) for i in range(3))
    sp = max(abs(x) for x in p) + max(abs(p[0] - p[1]), abs(p[1] - p[2]))
    sq = max(abs(x) for x in q) + max(abs(q[0] - q[1]), abs(q[1] - q[2]))
    tol = 1e-11 * sq * (sp / cp) ** 2
    for i in range(3):
        near(pt(F.transform(P[i])), q[i], tol, "image of P%d" % (i + 1))
    z = C(a.pt(case["p"]))
    D = cross(p[1] - p[0], p[2] - p[0])
    l1, l2 = cross(z - p[0], p[2] - p[0]) / D, cross(p[1] - p[0], z - p[0]) / D
    near(pt(F.transform(gpt(z))), q[0] + l1 * (q[1] - q[0]) + l2 * (q[2] - q[0]), tol * (1 + abs(l1) + abs(l2)) * 4, "image of another point")


@check("C20", lambda G: G.obj(A=G.ipt(8), v=G.ipt(5), k=G.one(0, 1, 2, -1, 3), T=G.triangle(), which=G.boolean, turn=G.integer(0, 2), c=G.one(1, 1, 0.5)), n=600)
def three_points_collinear(case):
    """collinear (or equal) points give None"""
    A, v, k, c = case["A"], case["v"], case["k"], case["c"]
    X = [[x * c for x in y] for y in (A, [A[0] + v[0], A[1] + v[1]], [A[0] + k * v[0], A[1] + k * v[1]])]
    X = X[case["turn"]:] + X[:case["turn"]]
    label("P collinear" if case["which"] else "Q collinear")
    args = X + case["T"] if case["which"] else case["T"] + X
    r = g.Affine.from_mapping_three_points(*args)
    require(r is None, "collinear points accepted: %s", show(r))


@check("C20", lambda G: G.obj(e=G.ellipse, h=G.ellipse, c1=G.boolean, c2=G.boolean, t=G.angle360(), q=G.grid(0, 2, 64)), n=1500)
def ellipse_to_ellipse(case):
    """from_ellipse_to_ellipse maps the first ellipse (or circle) onto the second one, centre to centre"""
    res = []
    for k, c in (("e", case["c1"]), ("h", case["c2"])):
        E = mkell(case[k])
        if c:
            E.e = g.Circle(E.p, E.a)
            E.b, E.al = E.a, 0.0
            label("circle")
        res.append(E)
    E, H = res
    F = instance(g.Affine.from_ellipse_to_ellipse(E.e, H.e), g.Affine, "from_ellipse_to_ellipse")
    tol = 1e-11 * (E.size / E.b) * (H.size / H.b)
    near(pt(F.transform(E.p)), H.c, tol * H.b, "image of the centre")
    for i in range(3):
        z = ell_point(E.c, E.a, E.b, E.al, math.radians(case["t"]) + 2.1 * i)
        near(ell_q(H.c, H.a, H.b, H.al, pt(F.transform(gpt(z)))), 1, 10 * tol, "quadratic form of the image of a point of the first ellipse")
    z = E.c + case["q"] * (z - E.c)
    near(ell_q(H.c, H.a, H.b, H.al, pt(F.transform(gpt(z)))), case["q"] ** 2, 40 * tol, "quadratic form of the image of a point off the first ellipse")


# ------------------------------------------------------------------ C21
@check("C21", lambda G: G.obj(f=s_aff(G), p=G.pt(8), th=G.angle360(), len=G.grid(0.25, 6, 16), e1=G.boolean, e2=G.boolean, t=G.lst(G.grid(-3, 3, 16), 3, 3), k=G.form), n=1500)
def affine_line(case):
    """transform_line: the line through the images of A and B, with the same extend flags"""
    F, f = mkaff(case["f"], case["k"])
    a = C(case["p"])
    b = a + case["len"] * unit(case["th"])
    L = g.Line(form(case["p"], case["k"]), gpt(b), case["e1"], case["e2"])
    R = F.transform_line(L)
    x, y = line(R, "transform_line")
    tol = 1e-10 * (1 + f.norm) * 30
    near(x, f(a), tol, "image of A")
    near(y, f(b), tol, "image of B")
    require(R.extendA is case["e1"] and R.extendB is case["e2"], "extend flags changed: (%s, %s) became (%s, %s)", case["e1"], case["e2"], R.extendA, R.extendB)
    label("line" if case["e1"] and case["e2"] else "segment" if not (case["e1"] or case["e2"]) else "half-line")


@check("C21", lambda G: G.obj(f=s_aff(G), e=G.ellipse, circ=G.boolean, k=G.form, shape=G.one("any", "any", "axis", "circle")), n=3000)
def affine_ellipse(case):
    """transform_ellipse is the image point set, with rmajor >= rminor and the angle unit of the argument"""
    F, f = mkaff(case["f"], case["k"])
    if case["shape"] == "axis":
        m = mkmat(case["f"]["m"])
        m = [[m[0][0] or 1, 0], [0, m[1][1] or 1]]
        if min(abs(m[0][0]), abs(m[1][1])) < 0.05:
            skip("nearly singular")
        F, f = g.Affine(m, case["f"]["b"]), Map(complex(m[0][0], 0), complex(0, m[1][1]), C(case["f"]["b"]))
        label("diagonal matrix")
    E = mkell(case["e"])
    if case["circ"]:
        E.e = g.Circle(E.p, E.a)
        E.b, E.al = E.a, 0.0
        label("Circle argument")
    if case["shape"] == "circle" and not case["circ"]:
        # a map sending the ellipse to a circle
        u = cmath.exp(1j * E.al)
        fn = lambda z: complex(dot(z - E.c, u) / E.a, cross(u, z - E.c) / E.b) + C(case["f"]["b"])
        f = from_fn(fn)
        F = g.Affine([[f.p.real, f.q.real], [f.p.imag, f.q.imag]], gpt(f.t))
        label("circular image")
    u = cmath.exp(1j * E.al)
    a, b, al = ell_axes(f.lin(E.a * u), f.lin(E.b * 1j * u))
    c = f(E.c)
    S = E.size / E.b
    cond = S * (a / b) * (1 + (abs(f.t) + abs(c)) / b)
    if cond > 3e4:
        skip("image too flat or too far for the arithmetic")
    R = F.transform_ellipse(E.e)
    same_ellipse(R, c, a, b, al, 1e-14 * cond ** 2 + 1e-10, "transform_ellipse")
    if not case["circ"]:
        require(R.degrees is case["e"]["deg"], "angle unit changed from degrees=%s to degrees=%s", case["e"]["deg"], R.degrees)
    lim = 180 if R.degrees else pi
    if not -1e-6 * lim <= R.alpha <= lim * (1 + 1e-6):
        fail("alpha = %r is not in [0, %r]", R.alpha, lim)
    label("orientation-reversing" if f.det < 0 else "orientation-preserving")


# ------------------------------------------------------------------ C22
@check("C22", lambda G: G.obj(t=s_tr(G), P=s_pts(G, 1, 3), k=G.form), n=4000)
def definition(case):
    """the image of a point is the one given by the definition of the transformation"""
    T, R, fr = mktr(case["t"])
    for x in case["P"]:
        p = fr.pt(x)
        near(pt(T.transform(form(p, case["k"])), "image"), R.fn(C(p)), R.tol, "%s image of %s" % (R.kind, p))


@check("C22", lambda G: G.obj(t=s_tr(G), lam=G.mix(G.one(0, 1, -1), G.grid(-3, 3, 32)), mu=G.grid(-3, 3, 32)), n=3000)
def special_points(case):
    """fixed points and characteristic behaviour: centre, axis, vertex, projection line; involutions, idempotence, area"""
    T, R, fr = mktr(case["t"])
    k, o, w, tol = R.kind, R.o, R.w, R.tol
    tr = lambda z: pt(T.transform(gpt(z)), "image")
    n = w / abs(w)
    z = o + case["lam"] * w + case["mu"] * 1j * w
    near(tr(o), o, tol, "%s: image of the centre/vertex/axis point" % k)
    if k in ("reflection", "orthoproj", "obliqueproj"):
        near(tr(o + case["lam"] * w), o + case["lam"] * w, tol, "%s: a point of the line must be fixed" % k)
    y = tr(z)
    if k == "rotation":
        near(abs(y - o), abs(z - o), tol, "rotation: distance to the centre")
    elif k == "reflection":
        near(tr(y), z, tol, "reflection: not an involution")
        near(line_dist(o, o + w, y), -line_dist(o, o + w, z), tol, "reflection: distance to the axis")
        near(pt(T.reflect(gpt(z))), y, 0, "reflect vs transform")
    elif k in ("orthoproj", "obliqueproj"):
        near(tr(y), y, tol, "projection: not idempotent")
        near(line_dist(o, o + w, y), 0, tol, "projection: image not on the line")
        near(pt(T.project(gpt(z))), y, 0, "project vs transform")
        require(T.orthogonal is (k == "orthoproj"), "attribute orthogonal is %s", T.orthogonal)
    elif k == "homothety":
        near(y - o, case["t"]["s"] * (z - o), tol, "homothety")
    elif k == "scaling":
        s = case["t"]["s"]
        near(dot(y - o, n), s * dot(z - o, n), tol, "scaling: component along the direction")
        near(cross(n, y - o), cross(n, z - o), tol, "scaling: perpendicular component")
    elif k == "shear":
        near(cross(tr(o + w) - o, tr(o + 1j * w) - o), abs(w) ** 2, tol * abs(w) * 10, "shear: area of the unit square")
        near(tr(o + case["mu"] * 1j * w), o + case["mu"] * 1j * w, tol, "shear: points of the fixed direction")
        if case["t"]["ratio"] == 1:
            near(cmath.phase((tr(o + w) - o) / w), math.radians(case["t"]["ang"]), 1e-8 * R.sz / abs(w), "shear: angle between the vector and its image")


@check("C22", lambda G: G.obj(d=G.obj(o=G.pt(5), th=G.angle360(), frame=G.frame), lam=G.grid(-2, 2, 16), eps=G.one(1e-3, 1e-4, 3e-5, 1e-2), sg=G.one(1, -1), obl=G.mix(G.one(90), G.grid(30, 150, 8)),
                              at=G.one("A", "B", "any")), n=600)
def close_to_the_line(case):
    """points close to, but not on, the line (also next to A or B) are really projected/reflected"""
    fr = Frame(case["d"]["frame"])
    o = C(fr.pt(case["d"]["o"]))
    w = C(fr.vec(gpt(unit(case["d"]["th"])))) * 2
    lam = {"A": 0, "B": 1}.get(case["at"], case["lam"])
    h = case["eps"] * case["sg"] * 1j * w
    z = o + lam * w + h
    L = g.Line(gpt(o), gpt(o + w))
    sz = abs(o) + 10 * fr.s
    near(pt(g.Reflection(L).transform(gpt(z))), z - 2 * h, 1e-11 * sz, "reflection of a point at distance %.1e of the line" % abs(h))
    x = g.Reflection(L).transform(inf)
    require(is_infinite_result(x), "Reflection.transform(inf) is %s", show(x))
    near(pt(g.Projection(L, None).transform(gpt(z))), z - h, 1e-11 * sz, "orthogonal projection")
    near(pt(L.projection(gpt(z))), z - h, 1e-11 * sz, "Line.projection")
    v = w * unit(case["obl"])
    P = g.Projection(L, g.Line((0, 0), gpt(v)))
    near(pt(P.transform(gpt(z))), z - v * (cross(w, h) / cross(w, v)), 1e-10 * sz, "oblique projection")
    label(case["at"])


# ------------------------------------------------------------------ C23
@check("C23", lambda G: G.obj(t=s_tr(G), P=s_pts(G, 1, 5), k=G.form, tuples=G.boolean), n=3000)
def representations(case):
    """transform(point), transform(matrix of points), get3x3matrix() and as_affine() agree"""
    T, R, fr = mktr(case["t"])
    P = [fr.pt(x) for x in case["P"]]
    want = [R.fn(C(p)) for p in P]
    M = matrix(T.get3x3matrix(), 3, 3, "get3x3matrix")
    if not all(abs(x - y) <= 1e-12 for x, y in zip(M[2], (0, 0, 1))):
        fail("last row of the 3x3 matrix is %s", M[2])
    A = instance(T.as_affine(), g.Affine, "as_affine")
    for i, p in enumerate(P):
        near(complex(M[0][0] * p[0] + M[0][1] * p[1] + M[0][2], M[1][0] * p[0] + M[1][1] * p[1] + M[1][2]), want[i], R.tol, "%s: 3x3 matrix applied to a point" % R.kind)
        near(pt(A.transform(form(p, case["k"]))), want[i], R.tol, "%s: as_affine().transform" % R.kind)
    batch = A.transform(P if case["tuples"] else np.array(P, dtype=float))
    rows = matrix(batch, len(P), 2, "as_affine().transform(points)")
    for i, r in enumerate(rows):
        near(C(r), want[i], R.tol, "%s: as_affine().transform on a matrix of points, row %d" % (R.kind, i))
    if R.kind not in ("reflection", "orthoproj", "obliqueproj"):
        rows = matrix(T.transform([tuple(p) for p in P] if case["tuples"] else np.array(P)), len(P), 2, "transform(points)")
        for i, r in enumerate(rows):
            near(C(r), want[i], R.tol, "%s: transform on a matrix of points, row %d" % (R.kind, i))
        one = pt(T.transform(P[0]))
        near(one, C(rows[0]), 1e-12 * R.sz * (1 + R.norm), "point vs batch")
    label("%d points" % len(P))


@check("C23", lambda G: G.obj(t=s_tr(G), kind=G.one("rotation", "reflection", "homothety", "scaling"), c=G.pt(6), r=G.grid(0.25, 6, 32), k=G.form), n=2000)
def circles(case):
    """transform_circle / rotate_circle / reflect_circle / scale_circle are the images as point sets"""
    d = dict(case["t"], kind=case["kind"])
    T, R, fr = mktr(d)
    p, r = fr.pt(case["c"]), fr.len(case["r"])
    c = g.Circle(form(p, case["k"]), r)
    w = R.fn(C(p))
    if case["kind"] == "scaling":
        s = abs(d["s"])
        u = R.w / abs(R.w)
        got = T.scale_circle(c)
        if s >= 1:
            same_ellipse(got, w, r * s, r, cmath.phase(u), 1e-9 * R.sz / r * 3, "scale_circle")
        else:
            same_ellipse(got, w, r, r * s, cmath.phase(u * 1j), 1e-9 * R.sz / r * 3, "scale_circle")
        return
    rr = r * (abs(d["s"]) if case["kind"] == "homothety" else 1)
    meths = {"rotation": ["transform_circle", "rotate_circle"], "reflection": ["transform_circle", "reflect_circle"], "homothety": ["transform_circle"]}
    for m in meths[case["kind"]]:
        same_circle(getattr(T, m)(c), w, rr, R.tol, "%s.%s" % (R.kind, m))
    A = T.as_affine()
    same_ellipse(A.transform_ellipse(c), w, rr, rr, 0.0, 1e-13 * ((R.sz + abs(C(p))) / min(r, rr)) ** 3 + 1e-9, "as_affine().transform_ellipse")


@check("C23", lambda G: G.obj(t=s_tr(G), kind=G.one("rotation", "reflection"), p=G.pt(6), th=G.angle360(), l=G.grid(0.25, 5, 16), e1=G.boolean, e2=G.boolean), n=1200)
def lines(case):
    """transform_line / rotate_line / reflect_line: images of A and B, flags kept, same line as via as_affine"""
    d = dict(case["t"], kind=case["kind"])
    T, R, fr = mktr(d)
    a = C(fr.pt(case["p"]))
    b = a + C(fr.vec(gpt(unit(case["th"])))) * case["l"]
    L = g.Line(gpt(a), gpt(b), case["e1"], case["e2"])
    meths = {"rotation": ["transform_line", "rotate_line"], "reflection": ["transform_line", "reflect_line"]}[case["kind"]]
    for X in [getattr(T, m)(L) for m in meths] + [T.as_affine().transform_line(L)]:
        x, y = line(X, "image line")
        near(x, R.fn(a), R.tol, "image of A")
        near(y, R.fn(b), R.tol, "image of B")
        require(X.extendA is case["e1"] and X.extendB is case["e2"], "extend flags changed: %s", show(X))


@check("C23", lambda G: G.obj(t=s_tr(G), e=G.ellipse), n=1500)
def rotate_ellipse(case):
    """rotate_ellipse / transform_ellipse for all combinations of angle units"""
    d = dict(case["t"], kind="rotation")
    E = mkell(case["e"])
    d["frame"] = case["e"]["frame"]
    T, R, fr = mktr(d)
    th = math.radians(d["th"])
    tol = 1e-10 * (R.sz + E.size) / E.b
    for m in ("rotate_ellipse", "transform_ellipse"):
        X = getattr(T, m)(E.e)
        same_ellipse(X, R.fn(E.c), E.a, E.b, E.al + th, tol * 10, m)
        require(X.degrees is case["e"]["deg"], "angle unit of the ellipse changed")
    label("deg/deg" if d["deg"] and case["e"]["deg"] else "rad/rad" if not d["deg"] and not case["e"]["deg"] else "mixed units")

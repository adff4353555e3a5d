from shapes import *


# ----------------------------------------------------------------- generators
def s_mob(G):
    """w + k/(z-p) times lam, or affine, or plain Gaussian-integer matrices, or exact parabolic ones"""
    gen = G.obj(k=G.one("gen"), w=G.cplx(4), p=G.cplx(4), kk=G.cplx(4), lam=G.one([1, 0], [2, 0], [0, 1], [-1, 0], [1, 2], [0.1, 0], [30, -10], [1e-5, 0], [0, 2e4]))
    aff = G.obj(k=G.one("affine"), a=G.cplx(4), b=G.cplx(4), d=G.cint(3))
    ints = G.obj(k=G.one("int"), m=G.lst(G.cint(3), 4, 4))
    real = G.obj(k=G.one("real"), m=G.lst(G.integer(-4, 4), 4, 4))
    para = G.obj(k=G.one("parabolic"), a=G.mix(G.cint(2), G.cplx(2)), c=G.mix(G.cint(2), G.cplx(2)), lam=G.one([1, 0], [2, 0], [0, 1], [-1, 0], [1, 2], [1e-4, 0], [1e-5, 0], [1000, 0]))
    return G.mix(gen, gen, aff, ints, real, para)


def mkmob(d, minc=0.02):
    k = d["k"]
    if k == "gen":
        w, p, kk, lam = C(d["w"]), C(d["p"]), C(d["kk"]), C(d["lam"])
        if abs(kk) < 0.1:
            skip("degenerate")
        M = [[lam * w, lam * (kk - w * p)], [lam, -lam * p]]
    elif k == "affine":
        a, b, dd = C(d["a"]), C(d["b"]), C(d["d"])
        if abs(a) < 0.1 or dd == 0:
            skip("degenerate")
        M = [[a, b], [0j, dd]]
    elif k == "int":
        M = [[C(d["m"][0]), C(d["m"][1])], [C(d["m"][2]), C(d["m"][3])]]
    elif k == "real":
        M = [[complex(d["m"][0]), complex(d["m"][1])], [complex(d["m"][2]), complex(d["m"][3])]]
    else:
        a, c, lam = C(d["a"]), C(d["c"]), C(d["lam"])
        if abs(a) + abs(c) < 0.1:
            skip("identity")
        M = [[lam * (1 - a * c), lam * a * a], [-lam * c * c, lam * (1 + a * c)]]
    n2 = sum(abs(x) ** 2 for r in M for x in r)
    if n2 == 0 or abs(det2(M)) < minc * n2 and k != "parabolic":
        skip("nearly singular")
    label(k, "c=0" if M[1][0] == 0 else "c!=0")
    return g.Mobius(M if d["k"] != "int" else np.array(M)), M


def mm(A, B):
    return [[A[0][0] * B[0][0] + A[0][1] * B[1][0], A[0][0] * B[0][1] + A[0][1] * B[1][1]],
            [A[1][0] * B[0][0] + A[1][1] * B[1][0], A[1][0] * B[0][1] + A[1][1] * B[1][1]]]


def minv(M):
    return [[M[1][1], -M[0][1]], [-M[1][0], M[0][0]]]


def nrm(M):
    return sqrt(sum(abs(x) ** 2 for r in M for x in r))


def chordal(x, y):
    """distance on the Riemann sphere; None is infinity"""
    if x is None and y is None:
        return 0.0
    if x is None:
        x, y = y, x
    if y is None:
        return 2 / sqrt(1 + abs(x) ** 2)
    return 2 * abs(x - y) / sqrt((1 + abs(x) ** 2) * (1 + abs(y) ** 2))


def rd(x, what="image"):
    return None if is_infinite_result(x) else pt(x, what)


def sph(x, want, tol, what):
    d = chordal(x, want)
    if not d <= tol:
        fail("%s: got %s, expected %s (chordal distance %.3g)", what, x, want, d)


PTS = lambda G, n: G.lst(G.mix(G.cplx(5), G.cplx(5), G.cint(4), G.one(None)), n, n)


def feed(z):
    return math.inf if z is None else z


def zz(p):
    return None if p is None else C(p)


# ------------------------------------------------------------------ C24
@check("C24", lambda G: G.obj(m=s_mob(G), P=PTS(G, 3), k=G.form), n=2500)
def transform(case):
    """image of points, of inf and of the pole"""
    T, M = mkmob(case["m"])
    kap = nrm(M) ** 2 / abs(det2(M))
    for p in case["P"]:
        x = T.transform(math.inf if p is None else form(p, case["k"]))
        sph(rd(x), mob(M, zz(p)), 1e-12 * kap * 50, "image of %s by %s" % (p, M))
        if p is None:
            label("inf")
    near(C([T.a.real, T.a.imag]), M[0][0], 0, "attribute a")
    near(complex(T.b), M[0][1], 0, "attribute b")
    near(complex(T.c), M[1][0], 0, "attribute c")
    near(complex(T.d), M[1][1], 0, "attribute d")


@check("C24", lambda G: G.obj(c=G.cint(4), z=G.mix(G.cint(5), G.lst(G.grid(-4, 4, 4), 2, 2)), a=G.cint(4), b=G.cint(4), k=G.form), n=800)
def pole(case):
    """the pole is sent to inf (exact arithmetic)"""
    a, b, c, z = C(case["a"]), C(case["b"]), C(case["c"]), C(case["z"])
    if c == 0 or a * z + b == 0:
        skip("no pole")
    T = g.Mobius([[a, b], [c, -c * z]])
    x = T.transform(form(case["z"], case["k"]))
    require(is_infinite_result(x), "image of the pole %s by %s is %s instead of inf", case["z"], [[a, b], [c, -c * z]], show(x))
    x = T.inverse().transform(math.inf)
    near(pt(x, "preimage of inf"), z, 1e-12 * (1 + abs(z)), "preimage of inf")


@check("C24", lambda G: G.obj(m=s_mob(G), n=s_mob(G), P=PTS(G, 3), left=G.boolean), n=2000)
def compose(case):
    """compose: left=True applies the argument second, left=False first; inf included; inverse undoes"""
    T, M = mkmob(case["m"])
    U, N = mkmob(case["n"])
    R = T.compose(U, case["left"])
    W = mm(N, M) if case["left"] else mm(M, N)
    proj_close(mobm(R), W, 1e-9, "compose(left=%s)" % case["left"])
    if case["left"]:
        proj_close(mobm(T.compose(U)), W, 1e-9, "compose()")
    kap = (nrm(M) ** 2 / abs(det2(M))) * (nrm(N) ** 2 / abs(det2(N)))
    for p in case["P"]:
        z = zz(p)
        first, second = (T, U) if case["left"] else (U, T)
        y = first.transform(math.inf if p is None else p)
        ref = rd(second.transform(y))
        sph(rd(R.transform(math.inf if p is None else p)), ref, 1e-9 * kap, "composite vs successive images of %s" % (p,))
    label("left" if case["left"] else "right")


@check("C24", lambda G: G.obj(m=s_mob(G), P=PTS(G, 3)), n=1500)
def inverse(case):
    """inverse() undoes the transformation on both sides"""
    T, M = mkmob(case["m"])
    I = instance(T.inverse(), g.Mobius)
    proj_close(mobm(I), minv(M), 1e-10, "inverse")
    kap = nrm(M) ** 2 / abs(det2(M))
    for p in case["P"]:
        P = math.inf if p is None else p
        sph(rd(I.transform(T.transform(P))), zz(p), 1e-9 * kap, "inverse(M(z))")
        sph(rd(T.transform(I.transform(P))), zz(p), 1e-9 * kap, "M(inverse(z))")
    one = [[1, 0], [0, 1]]
    proj_close(mobm(T.compose(I)), one, 1e-9 * kap, "M composed with its inverse")
    proj_close(mobm(T.compose(I, False)), one, 1e-9 * kap, "inverse composed with M")


@check("C24", lambda G: G.obj(m=s_mob(G), k=G.integer(-6, 6), fl=G.boolean, bad=G.one(0.5, -1.5, 2.25)), n=1500)
def power(case):
    """power(k) is the k-fold composition (inverse for k<0, identity for 0); non-integers raise ValueError"""
    T, M = mkmob(case["m"], 0.05)
    k = case["k"]
    W = [[1 + 0j, 0j], [0j, 1 + 0j]]
    for _ in range(abs(k)):
        W = mm(W, M if k > 0 else minv(M))
    if abs(det2(W)) < 1e-9 * nrm(W) ** 2:
        skip("power nearly singular")
    R = T.power(float(k) if case["fl"] else k)
    proj_close(mobm(R), W, 1e-10, "power(%s)" % k)
    expect_value_error(lambda: T.power(case["bad"]), "power(%s)" % case["bad"])
    label("k%s0" % ("<" if k < 0 else ">" if k > 0 else "="))


def eig_ok(M, parabolic=False):
    """domain of gpower: eigenvalues equal (parabolic, exactly) or clearly apart; not on the cut of the principal power"""
    tr, de = M[0][0] + M[1][1], det2(M)
    D = tr * tr - 4 * de
    if D == 0 or parabolic:
        return "parabolic"
    if abs(D) < 1e-2 * nrm(M) ** 2:
        return None
    s = cmath.sqrt(D)
    for l in ((tr + s) / 2, (tr - s) / 2):
        if abs(l.imag) < 1e-9 * abs(l) and l.real < 0:
            return "cut"
    return "diagonalizable"


@check("C24", lambda G: G.obj(m=s_mob(G), s=G.mix(G.integer(-4, 4), G.grid(-3, 3, 16)), t=G.mix(G.one(0.5, 1, 0), G.grid(-2, 2, 16)), k=G.integer(-4, 4)), n=2500)
def gpower(case):
    """gpower: agrees with power at the integers, gpower(s) o gpower(t) = gpower(s+t), gpower(1/n) is an n-th root"""
    T, M = mkmob(case["m"], 0.05)
    kind = eig_ok(M, case["m"]["k"] == "parabolic")
    if kind is None:
        skip("nearly parabolic")
    k = case["k"]
    W = [[1 + 0j, 0j], [0j, 1 + 0j]]
    for _ in range(abs(k)):
        W = mm(W, M if k > 0 else minv(M))
    if abs(det2(W)) < 1e-9 * nrm(W) ** 2:
        skip("power nearly singular")
    label(kind)
    tol = 1e-7 if kind == "parabolic" else 1e-8
    proj_close(mobm(T.gpower(k)), W, tol, "gpower(%s) vs the %s-fold composition" % (k, k))
    if kind == "cut":
        # -0.0 imaginary parts select the branch: only integer powers are checked, and roots
        label("eigenvalue on the branch cut")
    s, t = case["s"], case["t"]
    if kind != "cut":
        a, b, c = mobm(T.gpower(s)), mobm(T.gpower(t)), mobm(T.gpower(s + t))
        for X in (a, b, c):
            if abs(det2(X)) < 1e-6 * nrm(X) ** 2:
                skip("power nearly singular")
        proj_close(mm(a, b), c, tol, "gpower(%s) o gpower(%s) vs gpower(%s)" % (s, t, s + t))
    for n in (2, 3):
        r = mobm(T.gpower(1.0 / n))
        X = r
        for _ in range(n - 1):
            X = mm(X, r)
        proj_close(X, M, tol, "gpower(1/%d) iterated %d times" % (n, n))


@check("C24", lambda G: G.obj(f=G.cplx(2), e=G.one(1e-3, 3e-3, 0.01, 0.03, 0.1), ph=G.angle360(), mul=G.mix(G.one([2, 0], [0, 1], [3, 1], [-0.5, 0.5]), G.tup(G.grid(0.3, 3, 16), G.grid(-3, 3, 16))),
                              lam=G.one([1, 0], [2, 0], [0, 1], [100, 0], [1e-3, 0]), s=G.grid(-2, 2, 8), k=G.integer(-4, 4), flip=G.boolean), n=900)
def nearly_parabolic(case):
    """two fixed points close to each other: they are both found, and gpower still agrees with power and is additive"""
    f1 = C(case["f"])
    f2 = f1 + case["e"] * unit(case["ph"])
    q, lam = C(case["mul"]), C(case["lam"])
    if abs(q - 1) < 0.3:
        skip("multiplier close to 1")
    # (w - f1)/(w - f2) = q (z - f1)/(z - f2)
    mk = lambda m: [[lam * (f1 - m * f2), lam * f1 * f2 * (m - 1)], [lam * (1 - m), lam * (m * f1 - f2)]]
    M = mk(q)
    T = g.Mobius(M)
    R = T.fixed_points()
    require(isinstance(R, (list, tuple)) and len(R) == 2, "two distinct fixed points (distance %g), got %s", case["e"], show(R))
    a, b = [pt(x, "fixed point") for x in R]
    if abs(a - f1) > abs(b - f1):
        a, b = b, a
    tol = 1e-13 / case["e"] * (1 + abs(f1)) ** 2
    near(a, f1, tol, "fixed point")
    near(b, f2, tol, "fixed point")
    k, s = case["k"], case["s"]

    def tl(m):
        # the eigenvalues are known up to 1e-16/e^2, and m = 1 gives a scalar matrix
        t = 1e-13 * (1 + abs(f1)) ** 2 / case["e"] ** 2 * max(1.0, 1 / abs(1 - m) if m != 1 else 1e9)
        return t if t < 1e-4 and 1e-2 < abs(m) < 1e2 else None
    if k and tl(q ** k):
        proj_close(mobm(T.gpower(k)), mk(q ** k), tl(q ** k), "gpower(%d)" % k)
        proj_close(mobm(T.power(k)), mk(q ** k), tl(q ** k), "power(%d)" % k)
    # principal powers of the eigenvalues
    l1, l2 = lam * (f1 - f2), lam * q * (f1 - f2)
    for l in (l1, l2):
        if abs(l.imag) < 1e-6 * abs(l) and l.real < 0:
            return
    m = l2 ** s / l1 ** s
    if s and tl(m):
        proj_close(mobm(T.gpower(s)), mk(m), tl(m), "gpower(%s)" % s)


@check("C24", lambda G: G.obj(m=s_mob(G)), n=2000)
def fixed_points(case):
    """fixed_points() are fixed, and there are as many as there should be"""
    T, M = mkmob(case["m"], 0.02)
    (a, b), (c, d) = M
    if case["m"]["k"] == "parabolic" and (a - d) ** 2 + 4 * b * c != 0:
        skip("parabolic up to rounding")
    R = T.fixed_points()
    if b == 0 and c == 0 and a == d:
        label("identity")
        require(R is None, "fixed points of the identity: %s", show(R))
        return
    D = (a - d) ** 2 + 4 * b * c
    if D != 0 and abs(D) < 1e-3 * nrm(M) ** 2 or c != 0 and abs(c) < 1e-3 * nrm(M) or c == 0 and a != d and abs(a - d) < 1e-3 * nrm(M):
        skip("nearly parabolic or nearly affine")
    if isinstance(R, list):
        require(len(R) == 2, "%d fixed points", len(R))
        fps = [pt(x, "fixed point") for x in R]
    else:
        fps = [rd(R, "fixed point")]
    label("%d fixed point(s)" % len(fps), "infinite" if fps == [None] else "finite")
    if c == 0:
        want = [None] if a == d else [b / (d - a)]
    elif D == 0:
        want = [(a - d) / (2 * c)]
    else:
        want = [(a - d + cmath.sqrt(D)) / (2 * c), (a - d - cmath.sqrt(D)) / (2 * c)]
    if case["m"]["k"] == "parabolic" and len(fps) == 2 and len(want) == 1:
        fail("two fixed points %s for a parabolic transformation", fps)
    require(len(fps) == len(want), "%d fixed points instead of %d", len(fps), len(want))
    if len(want) == 2 and abs(fps[0] - want[0]) > abs(fps[0] - want[1]):
        want = want[::-1]
    for x, y in zip(fps, want):
        sph(x, y, 1e-9, "fixed point")
        sph(rd(T.transform(math.inf if x is None else gpt(x))), x, 1e-7, "image of a fixed point")


# ------------------------------------------------------------------ C25
def s_gm(G):
    """a map w + k/(z-p): p is placed relative to the circle or line by the check"""
    return G.obj(w=G.cplx(4), ph=G.angle360(), kk=G.mix(G.one(1, 2), G.grid(0.5, 6, 16)), lam=G.one([1, 0], [2, 0], [0, 1], [-1, 0], [1, 2], [0.2, 0], [3, -4], [1e-5, 0], [3e4, 1e4]))


def build(d, p):
    lam, kk, w = C(d["lam"]), d["kk"] * unit(d["ph"]), C(d["w"])
    return [[lam * w, lam * (kk - w * p)], [lam, -lam * p]]


def check_image(gc, M, R, u, tol, must):
    """R is the image of the generalized circle gc by M; u: distance of the pole to gc (0 if on it)"""
    rg = gcirc(R, "image")
    require(rg[0] == must, "the image of %s by %s is a %s", gc, M, {"c": "Circle", "l": "Line"}[rg[0]])
    for z in gc_points(gc, 7, base=0.37):
        y = mob(M, z)
        if y is None or abs(y) > 1e5:
            continue
        near(on_gcirc_residual(rg, y), 0, tol * (1 + abs(y)), "distance of the image of %s to the resulting %s" % (fmt(z), show(R)))


@check("C25", lambda G: G.obj(m=s_gm(G), c=G.mix(G.pt(6), G.ipt(5)), r=G.mix(G.integer(1, 6), G.grid(0.5, 6, 32)), kind=G.one("in", "out", "centre", "on", "on-exact", "affine", "near"),
                              th=G.mix(G.angle360(), G.angle360(), G.one(*[math.degrees(x) for x in (3, 0.1, 0.2, 3.1, 1e-4, 1, 3.14, 6.2, 2, 3.0001)])), q=G.grid(0.03, 0.9, 64), k=G.form), n=3000)
def circle_image(case):
    """transform_circle: a Circle, or a Line when the pole is on the circle, containing the images of its points"""
    c, r, kind, th = C(case["c"]), case["r"], case["kind"], case["th"]
    if kind == "on-exact":
        c, r = complex(round(c.real), round(c.imag)), 5
        p = c + [5, 5j, -5, -5j, 3 + 4j, 4 - 3j, -3 + 4j, -4 - 3j][int(th) % 8]
    elif kind == "on":
        p = c + r * unit(th)
    elif kind == "centre":
        p = c
    elif kind == "in":
        p = c + r * case["q"] * unit(th)
    elif kind == "near":
        p = c + r * (1 + [1e-3, -1e-3, 3e-4, -3e-4, 0.01, -0.01][int(case["q"] * 64) % 6]) * unit(th)
    else:
        p = c + r / case["q"] * unit(th)
    M = build(case["m"], p)
    if kind == "centre" and case["q"] < 0.7:
        c = -(M[1][1] / M[1][0])          # the pole as computed from the matrix
        p = c
    if kind == "affine":
        M[1][0] = 0j
        if abs(M[1][1]) < 0.1 or abs(M[0][0]) < 0.1:
            skip("degenerate")
    circ_ = g.Circle(form(gpt(c), case["k"]), r)
    label(kind)
    R = g.Mobius(M).transform_circle(circ_)
    tol = 1e-9
    if kind in ("on", "on-exact"):
        tol = 1e-7
    check_image(("c", c, r), M, R, 0, tol * (1 + case["m"]["kk"]) * (1e4 if kind == "near" else 1), "l" if kind in ("on", "on-exact") else "c")
    if kind in ("in", "out", "centre", "near"):
        # centre and radius of the image
        rc, rr = circ(R)
        rel = 1e-9 if kind != "near" else 1e-6
        D = abs(c - p) ** 2 - r * r
        kk = case["m"]["kk"]
        near(rr, kk * r / abs(D), rel * (1 + kk * r / abs(D)), "radius of the image")
        near(rc, C(case["m"]["w"]) + kk * unit(case["m"]["ph"]) * (c - p).conjugate() / D, rel * (5 + kk * r / abs(D)), "centre of the image")


@check("C25", lambda G: G.obj(m=s_gm(G), a=G.mix(G.pt(6), G.ipt(5)), th=G.angle360(), l=G.grid(0.5, 5, 16), h=G.mix(G.one(0, 0), G.signed(0.1, 6), G.signed(0.1, 6), G.one(1e-3, -1e-3, 0.01, -0.01)), at=G.mix(G.one("A", "B", "mid"), G.grid(-3, 3, 8)),
                              aff=G.one(False, False, False, True), e1=G.boolean, e2=G.boolean, k=G.form), n=3000)
def line_image(case):
    """transform_line: a Circle, or a Line when the pole is on the line (also when it is A or B), containing the images of its points"""
    a = C(case["a"])
    u = unit(case["th"])
    b = a + case["l"] * u
    if case["k"] == 3:
        a, b = complex(round(a.real), round(a.imag)), complex(round(b.real), round(b.imag))
        if a == b:
            skip("degenerate")
    at = {"A": 0, "B": 1, "mid": 0.5}.get(case["at"], case["at"])
    p = a if at == 0 else b if at == 1 else a + at * (b - a)
    h = case["h"]
    p = p + h * 1j * (b - a) / abs(b - a)
    M = build(case["m"], p)
    if case["aff"]:
        M[1][0] = 0j
        if abs(M[1][1]) < 0.1 or abs(M[0][0]) < 0.1:
            skip("degenerate")
        label("affine")
    else:
        label("pole on the line" if h == 0 else "pole off the line", "pole at %s" % case["at"] if case["at"] in ("A", "B") and h == 0 else "")
    L = g.Line(form(gpt(a), case["k"]), form(gpt(b), case["k"]), case["e1"], case["e2"])
    R = g.Mobius(M).transform_line(L)
    check_image(("l", a, b), M, R, abs(h), 1e-7 if not 0 < abs(h) < 0.1 else 1e-5, "l" if h == 0 or case["aff"] else "c")
    if not case["aff"] and h != 0:
        rc, rr = circ(R)
        kk = case["m"]["kk"]
        near(rr, kk / (2 * abs(h)), (1e-8 if abs(h) >= 0.1 else 1e-6) * (1 + kk / abs(h)), "radius of the image")
        x = rd(g.Mobius(M).transform(math.inf))
        near(abs(x - rc), rr, (1e-8 if abs(h) >= 0.1 else 1e-6) * (1 + rr), "image of infinity on the image circle")


# ------------------------------------------------------------------ C26
@check("C26", lambda G: G.obj(P=G.mix(G.lst(G.mix(G.cplx(5), G.cint(4)), 3, 3), G.lst(G.cint(1), 3, 3)), Q=G.mix(G.lst(G.mix(G.cplx(5), G.cint(4)), 3, 3), G.lst(G.cint(1), 3, 3)), ip=G.integer(-3, 2), iq=G.integer(-3, 2), k=G.form, R=G.cplx(5)), n=2500)
def three_points(case):
    """from_mapping_three_points sends Pi to Qi, inf allowed on both sides"""
    P, Q = [zz(p) for p in case["P"]], [zz(q) for q in case["Q"]]
    if case["ip"] >= 0:
        P[case["ip"]] = None
        label("inf in P")
    if case["iq"] >= 0:
        Q[case["iq"]] = None
        label("inf in Q")
    for X in (P, Q):
        for i in range(3):
            if chordal(X[i], X[i - 1]) < 0.02:
                skip("points too close")
    args = [math.inf if z is None else form(gpt(z), case["k"] + i) for i, z in enumerate(P + Q)]
    T = instance(g.Mobius.from_mapping_three_points(*args), g.Mobius, "from_mapping_three_points")
    M = mobm(T)
    require(abs(det2(M)) > 0, "singular matrix")
    for i in range(3):
        sph(rd(T.transform(args[i])), Q[i], 1e-9, "image of P%d=%s" % (i + 1, P[i]))
    # cross ratio with a fourth point
    z = C(case["R"])
    w = mob(M, z)
    if min(chordal(z, x) for x in P) < 0.02:
        return

    def cr(a, b, c, d):
        n = (a - c if c is not None and a is not None else 1) * (b - d if b is not None else 1)
        m = (a - d if a is not None else 1) * (b - c if b is not None and c is not None else 1)
        if a is None or b is None:
            return (n / m) if a is None else (n / m)
        return n / m
    if w is not None and None not in P and None not in Q and min(chordal(w, x) for x in Q) > 1e-3:
        near(cr(Q[0], Q[1], Q[2], w), cr(P[0], P[1], P[2], z), 1e-7 * (1 + abs(cr(P[0], P[1], P[2], z))), "cross ratio")


@check("C26", lambda G: G.obj(P=G.lst(G.cint(6), 3, 3), Q=G.lst(G.cint(6), 3, 3), i=G.integer(0, 2), which=G.boolean, inf=G.boolean), n=500)
def three_points_equal(case):
    """repeated points give None"""
    P, Q, i = list(case["P"]), list(case["Q"]), case["i"]
    X = P if case["which"] else Q
    if case["inf"]:
        X[i] = X[i - 1] = None
        label("inf twice")
    else:
        X[i] = X[i - 1]
    args = [math.inf if z is None else z for z in P + Q]
    r = g.Mobius.from_mapping_three_points(*args)
    require(r is None, "repeated points accepted: %s", show(r))


@check("C26", lambda G: G.obj(c1=G.pt(6), r1=G.mix(G.integer(1, 6), G.grid(0.25, 6, 32)), c2=G.pt(6), r2=G.mix(G.integer(1, 6), G.grid(0.25, 6, 32)), f1=G.frame, f2=G.frame, th=G.angle360(), k=G.form), n=1500)
def one_circle(case):
    """from_mapping_one_circle maps the first circle onto the second"""
    F1, F2 = Frame(case["f1"]), Frame(case["f2"])
    p1, p2, r1, r2 = F1.pt(case["c1"]), F2.pt(case["c2"]), F1.len(case["r1"]), F2.len(case["r2"])
    k1, k2 = g.Circle(form(p1, case["k"]), r1), g.Circle(form(p2, case["k"] + 1), r2)
    T = instance(g.Mobius.from_mapping_one_circle(k1, k2), g.Mobius, "from_mapping_one_circle")
    c1, c2 = C(p1), C(p2)
    S = (1 + abs(c1) / r1) * (1 + abs(c2) / r2)
    tol = 1e-13 * S ** 2 * 100
    for i in range(5):
        z = c1 + r1 * unit(case["th"]) * cmath.exp(1j * i * 1.3)
        w = rd(T.transform(gpt(z)))
        require(w is not None, "a point of the circle is sent to inf")
        near(abs(w - c2) / r2, 1, tol, "relative distance of the image of a point of the first circle to the centre of the second")
    same_circle(T.transform_circle(k1), c2, r2, tol * r2 * 10, "transform_circle(circ1)")


# ------------------------------------------------------------------ C27
@check("C27", lambda G: G.obj(P=G.lst(G.mix(G.cplx(5), G.cint(4)), 4, 4), m=s_mob(G), k=G.form, fr=G.frame), n=2500)
def cross_ratio(case):
    """value, permutation identities and invariance under Mobius transformations"""
    fr = Frame(case["fr"])
    P = [fr.pt(p) for p in case["P"]]
    z = [C(p) for p in P]
    u = max(abs(x - y) for x in z for y in z)
    for i in range(4):
        for j in range(i):
            if abs(z[i] - z[j]) < 0.02 * u or u == 0:
                skip("points too close")
    x = complex(g.cross_ratio(*[form(p, case["k"] + i) for i, p in enumerate(P)]))
    want = (z[0] - z[3]) * (z[2] - z[1]) / ((z[0] - z[1]) * (z[2] - z[3]))
    near(x, want, 1e-10 * (1 + abs(want)) * (1 + max(map(abs, z)) / u), "cross ratio")
    tol = 1e-9 * (1 + abs(want)) ** 2 * (1 + max(map(abs, z)) / u) * (1 + 1 / abs(want)) ** 2
    A, B, Cc, D = P
    near(complex(g.cross_ratio(Cc, D, A, B)), want, tol, "cr(C,D,A,B) vs cr(A,B,C,D)")
    near(complex(g.cross_ratio(B, A, D, Cc)), want, tol, "cr(B,A,D,C) vs cr(A,B,C,D)")
    near(complex(g.cross_ratio(A, D, Cc, B)), 1 / want, tol, "cr(A,D,C,B) vs 1/cr(A,B,C,D)")
    T, M = mkmob(case["m"])
    w = [mob(M, x) for x in z]
    if any(x is None or abs(x) > 1e4 for x in w) or min(abs(w[i] - w[j]) for i in range(4) for j in range(i)) < 1e-3:
        return
    kap = max(abs(x) for x in w) / min(abs(w[i] - w[j]) for i in range(4) for j in range(i))
    im = [T.transform(p) for p in P]
    near(complex(g.cross_ratio(*im)), want, 1e-9 * kap * (1 + abs(want)) ** 2, "cross ratio of the images")
    label("Mobius invariance")


@check("C27", lambda G: G.obj(kind=G.one("circle", "line", "generic"), c=G.pt(6), r=G.grid(0.5, 6, 16), th=G.angle360(), s=G.lst(G.integer(0, 40), 4, 4), h=G.signed(0.1, 0.9), i=G.integer(0, 3), fr=G.frame), n=2000)
def concyclic(case):
    """real iff the four points are concyclic or aligned; negative iff A, C separate B, D... sign by the cyclic order"""
    fr = Frame(case["fr"])
    s = case["s"]
    if len(set(s)) < 4:
        skip("points not distinct")
    c, r, kind = C(case["c"]), case["r"], case["kind"]
    if kind == "line":
        z = [c + (x - 20) / 5.0 * unit(case["th"]) for x in s]
    else:
        z = [c + r * unit(case["th"]) * cmath.exp(2j * pi * x / 41) for x in s]
    if kind == "generic":
        i = case["i"]
        z[i] = c + (z[i] - c) * (1 + case["h"])
    P = [fr.pt(gpt(x)) for x in z]
    w = complex(g.cross_ratio(*P))
    if kind == "generic":
        if not abs(w.imag) > 1e-6 * abs(w):
            fail("cross ratio %s of four non-concyclic points is real", w)
    else:
        zz_ = [C(p) for p in P]
        m = min(abs(zz_[i] - zz_[j]) for i in range(4) for j in range(i))
        tol = 1e-13 * (max(map(abs, zz_)) / m) * 100
        near(w.imag / abs(w), 0, tol, "relative imaginary part for four concyclic or aligned points")
        # (A-D)(C-B)/((A-B)(C-D)) > 0 iff the pair {A,C} separates the pair {B,D}
        a, b, cc, d = s
        between = lambda x: min(a, cc) < x < max(a, cc)
        sep = between(b) != between(d)
        # X = (A,C;D,B) is negative iff {A,C} separates {B,D}
        require((w.real < 0) == sep, "sign of the cross ratio %s, {A,C} %s {B,D}", w, "separates" if sep else "does not separate")
    label(kind)


@check("C27", lambda G: G.obj(P=G.lst(G.ipt(6), 4, 4), i=G.integer(0, 3), j=G.integer(1, 3), e=G.one(1e-2, 1e-3, 1e-4, 1e-5), th=G.angle360(), all=G.boolean, s=G.one(1, 1e-3, 1e4)), n=500)
def close_points(case):
    """points close to each other (or all four close together) still have their cross ratio"""
    P, e = [C(p) for p in case["P"]], case["e"]
    i, j = case["i"], (case["i"] + case["j"]) % 4
    if case["all"]:
        z = [P[0] + e * p for p in P]
        label("four close points")
    else:
        z = list(P)
        z[j] = z[i] + e * unit(case["th"])
        label("two close points")
    z = [C(gpt(case["s"] * x)) for x in z]
    d = min(abs(z[a] - z[b]) for a in range(4) for b in range(a))
    if d < 0.5 * e * case["s"]:
        skip("equal points")
    w = complex(g.cross_ratio(*[gpt(x) for x in z]))
    want = (z[0] - z[3]) / (z[0] - z[1]) * (z[2] - z[1]) / (z[2] - z[3])
    near(w, want, 1e-9 * abs(want), "cross ratio of close points")


@check("C27", lambda G: G.obj(P=G.lst(G.ipt(6), 4, 4), i=G.integer(0, 3), j=G.integer(1, 3)), n=300)
def equal_points(case):
    """repeated points raise ValueError"""
    P = list(case["P"])
    P[case["i"]] = list(P[(case["i"] + case["j"]) % 4])
    expect_value_error(lambda: g.cross_ratio(*P), "cross_ratio%s" % (tuple(P),))


# ------------------------------------------------------------------ C28
_UNI = {}


@check("C28", lambda G: G.mix(G.integer(1, 40), G.integer(1, 40), G.integer(41, 90)), n=60)
def unimodular(case):
    """every matrix has determinant 1 and entries in 0..n; for n >= 2 exactly the identity and all Farey-ordered ones; no duplicates"""
    n = case
    L = g.unimodular_matrices(n)
    require(isinstance(L, list), "not a list")
    seen = []
    for m in L:
        r = matrix(m, 2, 2, "unimodular matrix")
        for row in r:
            for v in row:
                require(v == int(v) and 0 <= v <= n, "entry %s of %s for n=%d", v, r, n)
        require(r[0][0] * r[1][1] - r[0][1] * r[1][0] == 1, "determinant of %s", r)
        seen.append(tuple(int(v) for row in r for v in row))
    require(len(set(seen)) == len(seen), "duplicates for n=%d", n)
    want = {(1, 0, 0, 1)}
    if n >= 2:
        for d1 in range(1, n + 1):
            for d2 in range(1, n + 1):
                for n1 in range(0, d1 + 1):
                    x = 1 + d2 * n1
                    if x % d1 == 0 and 0 <= x // d1 <= d2:
                        want.add((d1, d2, n1, x // d1))
    require(set(seen) == want, "n=%d: missing %s, unexpected %s", n, sorted(want - set(seen))[:3], sorted(set(seen) - want)[:3])
    if n <= 12:
        # the list belongs to the caller
        del L[1:]
        L[0][0, 0] = 5
        again = [tuple(int(v) for row in matrix(m, 2, 2, "unimodular matrix") for v in row) for m in g.unimodular_matrices(n)]
        require(sorted(again) == sorted(seen), "n=%d: another list after the first one was changed by the caller", n)
    if n < 2:
        trivial()


@check("C28", lambda G: G.one(0, -1, -7, 2.0, 2.5, "3", None, [2]), n=30)
def unimodular_bad(case):
    """n that is not a positive integer raises ValueError"""
    expect_value_error(lambda: g.unimodular_matrices(case), "unimodular_matrices(%r)" % (case,))

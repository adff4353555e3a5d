from shapes import *


def design_bound(P, iters=4000, eps=1e-7):
    """lower bound for the area of any ellipse containing the points (weak
    duality with D-optimal designs), Todd-Yildirim iterations."""
    n = len(P)
    w = [1.0 / n] * n
    best = 0.0
    for it in range(iters):
        mx = sum(w[i] * P[i].real for i in range(n))
        my = sum(w[i] * P[i].imag for i in range(n))
        sxx = sxy = syy = 0.0
        for i in range(n):
            if w[i]:
                dx, dy = P[i].real - mx, P[i].imag - my
                sxx += w[i] * dx * dx
                sxy += w[i] * dx * dy
                syy += w[i] * dy * dy
        det = sxx * syy - sxy * sxy
        if det <= 0:
            return None
        best = max(best, 2 * pi * sqrt(det))
        jm, gm, km, gk = 0, -1.0, -1, 1e300
        for i in range(n):
            dx, dy = P[i].real - mx, P[i].imag - my
            gi = 1 + (syy * dx * dx - 2 * sxy * dx * dy + sxx * dy * dy) / det
            if gi > gm:
                jm, gm = i, gi
            if w[i] > 0 and gi < gk:
                km, gk = i, gi
        ep, em = gm / 3 - 1, 1 - gk / 3
        if max(ep, em) <= eps:
            break
        if ep >= em:
            b = ep / (gm - 1)
            w = [(1 - b) * x for x in w]
            w[jm] += b
        else:
            b = w[km] / (1 - w[km]) if gk <= 1 else min(em / (gk - 1), w[km] / (1 - w[km]))
            drop = b == w[km] / (1 - w[km])
            w = [(1 + b) * x for x in w]
            w[km] -= b
            if drop or w[km] < 0:
                w[km] = 0.0
    return best


def distinct(P, tol):
    out = []
    for z in P:
        if all(abs(z - q) > tol for q in out):
            out.append(z)
    return out


def cloud(G):
    ints = G.lst(G.ipt(4), 3, 14)
    reals = G.lst(G.pt(5), 3, 14)
    return G.obj(
        kind=G.one("ints", "ints", "reals", "reals", "polygon", "ellipse", "mixed", "line+"),
        ints=ints, reals=reals, n=G.integer(3, 16), rot=G.angle360(), e=G.one(1, 0.5, 0.25, 0.75),
        dup=G.one(0, 0, 0, 1, 2), frame=G.frame)


def mkcloud(d):
    k = d["kind"]
    n = d["n"]
    if k == "ints":
        P = [C(p) for p in d["ints"]]
    elif k == "reals":
        P = [C(p) for p in d["reals"]]
    elif k == "line+":
        P = [complex(i, 0) for i in range(n)] + [C(p) for p in d["ints"][:2]]
    else:
        P = [ell_point(0j, 3.0, 3.0 * (1 if k == "polygon" else d["e"]), 0.3, math.radians(d["rot"]) + 2 * pi * i / n) for i in range(n)]
        if k == "mixed":
            P += [C(p) for p in d["reals"]]
    P = P + P[:d["dup"]]
    if d["dup"]:
        label("duplicates")
    label(k)
    fr = Frame(d["frame"])
    Z = [C(fr.pt([z.real, z.imag])) for z in P]
    return fr, P, Z


def well_posed(P):
    """at least three points, not close to a line"""
    Q = distinct(P, 1e-9)
    if len(Q) < 3:
        return False
    # thinnest direction
    n = len(Q)
    m = sum(Q) / n
    sxx = sum((z - m).real ** 2 for z in Q) / n
    syy = sum((z - m).imag ** 2 for z in Q) / n
    sxy = sum((z - m).real * (z - m).imag for z in Q) / n
    t, d = sxx + syy, sxx * syy - sxy * sxy
    return d > 1e-4 * t * t and t > 0.05


def check_hull(E, Z, S, tolin, tolarea, what):
    c, a, b, al = ell(E, what)
    for z in Z:
        q = ell_q(c, a, b, al, z)
        require(q <= 1 + tolin, "%s: the point %s is outside (quadratic form %.9g)", what, fmt(z), q)
    lb = design_bound(Z)
    require(lb is not None, "internal: degenerate points")
    require(pi * a * b <= lb * (1 + tolarea), "%s: area %.9g, but an ellipse of area about %.9g contains the points", what, pi * a * b, lb)
    require(a >= b * (1 - 1e-9), "%s: rmajor %r < rminor %r", what, a, b)
    return c, a, b, al


@check("C19", lambda G: G.obj(p=cloud(G), seed=G.integer(0, 5)), n=1600)
def lowner_john(case):
    """LownerJohnEllipse contains all the points and no ellipse of smaller area does (duality bound); the same for every random state"""
    fr, P, Z = mkcloud(case["p"])
    if not well_posed(P):
        skip("points nearly aligned or fewer than three distinct points")
    S = max(abs(z) for z in Z)
    ext = max(abs(z - Z[0]) for z in Z)
    if S > 30 * ext:
        skip("small cloud relative to the coordinates")
    M = np.array([[z.real, z.imag] for z in Z])
    np.random.seed(case["seed"])
    E = g.Ellipse.LownerJohnEllipse(M)
    c, a, b, al = check_hull(E, Z, S, 1e-6, 1e-4, "Lowner-John ellipse")
    np.random.seed(case["seed"] + 77)
    E2 = g.Ellipse.LownerJohnEllipse(M)
    same_ellipse(E2, c, a, b, al, 1e-4, "Lowner-John ellipse with another random state")


@check("C19", lambda G: G.obj(seed=G.integer(0, 10 ** 6), n=G.one(60, 150, 400, 1200), law=G.one("square", "disk", "gauss", "grid"), frame=G.frame), n=48)
def lowner_john_many(case):
    """the same with many points (up to 1200)"""
    fr = Frame(case["frame"])
    x = case["seed"]
    P = []
    for i in range(case["n"]):
        v = []
        for j in range(2):
            x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
            v.append((x >> 11) / float(1 << 53))
        if case["law"] == "square":
            P.append(complex(4 * v[0], 3 * v[1]))
        elif case["law"] == "disk":
            P.append(3 * sqrt(v[0]) * cmath.exp(2j * pi * v[1]))
        elif case["law"] == "gauss":
            P.append(sqrt(-2 * math.log(v[0] + 1e-12)) * cmath.exp(2j * pi * v[1]))
        else:
            P.append(complex(int(8 * v[0]), int(6 * v[1])))
    Z = [C(fr.pt([z.real, z.imag])) for z in P]
    label(case["law"], "%d points" % case["n"])
    E = g.Ellipse.LownerJohnEllipse(np.array([[z.real, z.imag] for z in Z]))
    check_hull(E, Z, max(abs(z) for z in Z), 1e-6, 1e-3, "Lowner-John ellipse of %d points" % case["n"])


@check("C19", lambda G: G.obj(t=G.triangle(), frame=G.frame), n=400)
def boundary3(case):
    """from_boundary3: through the three points, centered at their centroid (smallest ellipse through them)"""
    fr, P, z, _ = mktri(case["t"], case["frame"])
    E = g.Ellipse.from_boundary3(np.array(P, dtype=float))
    c, a, b, al = ell(E)
    L = max(abs(z[0] - z[1]), abs(z[1] - z[2]), abs(z[2] - z[0]))
    ar = abs(cross(z[1] - z[0], z[2] - z[0])) / 2
    S = max(abs(x) for x in z)
    if S > 100 * L:
        skip("small triangle relative to the coordinates")
    k = (L * L / ar) ** 2 * (1 + S / L)
    near(c, sum(z) / 3, 1e-12 * S * k, "center")
    for m in z:
        near(ell_q(c, a, b, al, m), 1, 1e-11 * k, "vertex on the ellipse")
    near(pi * a * b / ar, 4 * pi / (3 * sqrt(3)), 1e-10 * k, "area ratio")


def best_through4(Q):
    """smallest area of an ellipse through four points in convex position (in order)"""
    m = sum(Q) / 4
    sc = max(abs(q - m) for q in Q)
    Q = [(q - m) / sc for q in Q]

    def ln(p, q):
        d = q - p
        return (-d.imag, d.real, d.imag * p.real - d.real * p.imag)

    def prod(l, m):
        return (l[0] * m[0], l[0] * m[1] + l[1] * m[0], l[1] * m[1], l[0] * m[2] + l[2] * m[0], l[1] * m[2] + l[2] * m[1], l[2] * m[2])
    U = prod(ln(Q[0], Q[1]), ln(Q[2], Q[3]))
    V = prod(ln(Q[1], Q[2]), ln(Q[3], Q[0]))
    nu, nv = sqrt(sum(x * x for x in U)), sqrt(sum(x * x for x in V))

    def area(f):
        a, b, c, d, e, h = [cos(f) * x / nu + sin(f) * y / nv for x, y in zip(U, V)]
        D = a * c - b * b / 4
        if D <= 1e-9:
            return inf
        det = a * (c * h - e * e / 4) - b / 2 * (b / 2 * h - e * d / 4) + d / 2 * (b * e / 4 - c * d / 2)
        if det * (a + c) >= 0:
            return inf
        return pi * abs(det) / D ** 1.5
    best, bf = inf, 0
    N = 720
    for i in range(N):
        x = area(pi * i / N)
        if x < best:
            best, bf = x, pi * i / N
    lo, hi = bf - pi / N, bf + pi / N
    for _ in range(60):
        m1, m2 = lo + (hi - lo) * 0.382, lo + (hi - lo) * 0.618
        if area(m1) < area(m2):
            hi = m2
        else:
            lo = m1
    return sc * sc * min(best, area((lo + hi) / 2))


@check("C19", lambda G: G.obj(u=G.grid(0.15, 0.85, 32), v=G.grid(0.15, 0.85, 32), r=G.grid(0.4, 3, 16), th=G.integer(35, 145), rot=G.angle360(),
                              par=G.one(0, 0, 0, 1), o=G.pt(5), perm=G.integer(0, 23), frame=G.frame), n=600)
def boundary4(case):
    """from_boundary4: passes through four points in convex position and is the smallest ellipse doing so (1-parameter search in the pencil)"""
    # quadrilateral by its diagonals, which cut each other at ratios u and v
    u, v = (0.5, 0.5) if case["par"] else (case["u"], case["v"])
    d1 = 3 * unit(case["rot"])
    d2 = 3 * case["r"] * unit(case["rot"] + case["th"])
    o = C(case["o"])
    Q = [o - u * d1, o - v * d2, o + (1 - u) * d1, o + (1 - v) * d2]
    fr = Frame(case["frame"])
    Q = [C(fr.pt([z.real, z.imag])) for z in Q]
    S = max(abs(z) for z in Q)
    k, order, pool = case["perm"], [], list(range(4))
    for m in (4, 3, 2, 1):
        order.append(pool.pop(k % m))
        k //= m
    E = g.Ellipse.from_boundary4(np.array([[Q[i].real, Q[i].imag] for i in order]))
    c, a, b, al = ell(E)
    for z in Q:
        near(ell_q(c, a, b, al, z), 1, 1e-8 * (1 + S / b) ** 2, "point on the ellipse")
    ar = best_through4(Q)
    near(pi * a * b / ar, 1, 1e-6, "area relative to the smallest area of an ellipse through the four points")
    label("parallelogram" if case["par"] else "general")


@check("C19", lambda G: G.obj(o=G.ipt(20), d=G.ipt(5), ks=G.lst(G.integer(-8, 8), 1, 8), seed=G.integer(0, 5)), n=300)
def degenerate(case):
    """no ellipse (None) when all the points are on one line, or when there are fewer than three distinct ones"""
    o, d = case["o"], case["d"]
    P = [[o[0] + k * d[0], o[1] + k * d[1]] for k in case["ks"]]
    label("%d distinct points" % min(3, len(set(map(tuple, P)))))
    np.random.seed(case["seed"])
    E = g.Ellipse.LownerJohnEllipse(np.array(P, dtype=float))
    require(E is None, "Lowner-John ellipse of %s: %s", P, show(E))


@check("C19", lambda G: G.obj(t=G.triangle(), frame=G.frame, lam=G.lst(G.lst(G.grid(0.05, 1, 32), 3, 3), 1, 8), seed=G.integer(0, 5)), n=400)
def known_boundary(case):
    """bpoints: the three vertices of a triangle on the boundary and points of the triangle inside give the smallest ellipse through the vertices"""
    fr, P, z, _ = mktri(case["t"], case["frame"])
    L = max(abs(z[0] - z[1]), abs(z[1] - z[2]), abs(z[2] - z[0]))
    ar = abs(cross(z[1] - z[0], z[2] - z[0])) / 2
    S = max(abs(x) for x in z)
    if S > 100 * L or ar < 0.02 * L * L:
        skip("small or flat triangle")
    I = [sum(w * x for w, x in zip(l, z)) / sum(l) for l in case["lam"]]
    np.random.seed(case["seed"])
    E = g.Ellipse.LownerJohnEllipse(np.array([[m.real, m.imag] for m in I]), np.array(P, dtype=float))
    c, a, b, al = ell(E)
    k = (L * L / ar) ** 2 * (1 + S / L)
    near(c, sum(z) / 3, 1e-11 * S * k, "center")
    for m in z:
        near(ell_q(c, a, b, al, m), 1, 1e-10 * k, "vertex on the ellipse")
    near(pi * a * b / ar, 4 * pi / (3 * sqrt(3)), 1e-9 * k, "area ratio")

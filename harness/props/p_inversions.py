from shapes import *

PKINDS = ["separate", "ext", "two", "two", "int", "inside", "concentric"]


def s_inv(G):
    return G.obj(p=G.pt(6), k=G.mix(G.one(1, -1, 4, 9, -4), G.signed(0.1, 20)), f=G.form)


def mkinv(d, fr, p=None):
    P = fr.pt(d["p"]) if p is None else [p.real, p.imag]
    k = d["k"] * (1 if fr.ident else fr.s ** 2)
    label("positive power" if k > 0 else "negative power")
    return C(P), k, g.Inversion(form(P, d["f"]), k)


# ------------------------------------------------------------------ C06
@check("C06", lambda G: G.obj(i=s_inv(G), frame=G.frame, th=G.angle360(), q=G.mix(G.one(1, 2, 0.5), G.grid(0.05, 6, 64)), fm=G.form), n=2500)
def point(case):
    """the image is on the line through the pole, PM.PM' = power (signed); twice gives the point back; points of the inversion circle are fixed"""
    fr = Frame(case["frame"])
    p, k, I = mkinv(case["i"], fr)
    q = fr.len(case["q"])
    m = p + q * unit(case["th"])
    size = abs(p) + q
    if q < 1e-3 * abs(p):
        skip("point too near the pole relative to the coordinates")
    z = pt(I.invert(form(gpt(m), case["fm"])), "inverse")
    e = inv_pt(p, k, m)
    if abs(e - p) < 1e-3 * abs(p):
        skip("image too near the pole relative to the coordinates")
    tol = 1e-12 * (abs(k) / q) * size / q + 1e-13 * size
    near(z, e, tol, "inverse of a point")
    near(dot(z - p, m - p), k, 1e-11 * abs(k) * size / min(q, abs(e - p)), "product of the distances to the pole")
    near(cross(z - p, m - p), 0, 1e-11 * abs(k) * size / min(q, abs(e - p)), "alignment with the pole")
    zz = pt(I.invert(gpt(z)), "double inverse")
    near(zz, m, 1e-11 * size * (1 + size / q) * (1 + abs(p) / abs(e - p)), "double inverse")
    if k > 0:
        m = p + sqrt(k) * unit(case["th"])
        near(pt(I.invert(gpt(m))), m, 1e-11 * (abs(p) + sqrt(k)) * (1 + abs(p) / sqrt(k)), "point of the inversion circle")


@check("C06", lambda G: G.obj(p=G.pt(8), far=G.one([1000, 0], [0, -500], [300, 400], [-20000, 7000]), ke=G.signed(0.25, 9), rho=G.one(5e-5, 1e-4, 3e-4, 1e-3, 3e-3), th=G.angle360(), fm=G.form), n=500)
def near_pole(case):
    """points close to the pole (relative to its coordinates) still have their image; its distance is |k|/d"""
    p = C(case["p"]) + C(case["far"])
    q = case["rho"] * max(abs(p.real), abs(p.imag))
    k = case["ke"] * q * q * 4
    m = C(gpt(p + q * unit(case["th"])))
    if max(abs((m - p).real) / abs(p.real or 1e-300), abs((m - p).imag) / abs(p.imag or 1e-300)) < 2e-5:
        skip("point equal to the pole for the library")
    e = inv_pt(p, k, m)
    near(pt(g.Inversion(gpt(p), k).invert(form(gpt(m), case["fm"]))), e, 1e-9 * abs(e - p) + 1e-13 * abs(p) * abs(k) / (q * q), "inverse of a point near the pole")


@check("C06", lambda G: G.obj(i=s_inv(G), frame=G.frame, fm=G.form, w=G.one("inf", "npinf", "pole")), n=400)
def pole_infinity(case):
    """the pole goes to inf and inf goes to the pole"""
    fr = Frame(case["frame"])
    p, k, I = mkinv(case["i"], fr)
    label(case["w"])
    if case["w"] == "pole":
        r = I.invert(form(gpt(p), case["fm"]))
        require(is_infinite_result(r), "image of the pole is %s", show(r))
        near(pt(I.invert(r)), p, 0, "image of the image of the pole")
    else:
        r = I.invert(inf if case["w"] == "inf" else np.float64("inf"))
        near(pt(r), p, 0, "image of inf")
        require(is_infinite_result(I.invert(r)), "image of the image of inf is %s", show(I.invert(r)))


# ------------------------------------------------------------------ C07
def o_invert(gc, p, k, on):
    """image of a generalized circle; on: the pole lies on it"""
    if gc[0] == "c":
        c, r = gc[1], gc[2]
        if not on:
            return ("c",) + inv_circle(p, k, c, r)
        u = (c - p) / abs(c - p)
        f = p + u * (k / (2 * r))
        return ("l", f, f + 1j * u * max(abs(k / (2 * r)), r))
    if on:
        return gc
    a, b = gc[1], gc[2]
    h = foot(a, b, p)
    e = inv_pt(p, k, h)
    return ("c", (p + e) / 2, abs(e - p) / 2)


def step_ok(gc, p, k, on, size):
    """well conditioned step; otherwise the verdict would be about rounding"""
    if gc[0] == "c":
        d, r = abs(gc[1] - p), gc[2]
        if not on and abs(d - r) < 0.05 * max(d, r):
            skip("pole near the circle")
        if r < 1e-2 * (abs(gc[1]) + abs(p)):
            skip("small circle relative to the coordinates")
    elif not on:
        if abs(line_dist(gc[1], gc[2], p)) < 2e-2 * (abs(p) + abs(gc[1]) + abs(gc[2]) + 1e-9):
            skip("pole near the line")


def compare_gc(got, exp, tol, what):
    if exp[0] == "c":
        same_circle(got, exp[1], exp[2], tol, what)
    else:
        same_line(got, exp[1], exp[2], tol, what)


@check("C07", lambda G: G.obj(
    start=G.obj(t=G.one("c", "c", "l"), c=G.pt(5), r=G.mix(G.integer(1, 4), G.grid(0.5, 5, 64)), d=G.angle360(), L=G.grid(0.5, 5, 16), f=G.form),
    frame=G.frame,
    steps=G.lst(G.obj(m=G.one("free", "free", "on", "center"), i=s_inv(G), th=G.angle360(), t=G.grid(-2, 2, 16)), 1, 3)), n=3500)
def chain(case):
    """images of circles and lines under one or several inversions: right kind, right set; pole on the circle/line handled; twice gives the original back"""
    fr = Frame(case["frame"])
    s = case["start"]
    c = C(fr.pt(s["c"]))
    if s["t"] == "c":
        gc = ("c", c, fr.len(s["r"]))
        obj = g.Circle(form(fr.pt(s["c"]), s["f"]), gc[2])
    else:
        b = c + fr.len(s["L"]) * unit(s["d"])
        gc = ("l", c, b)
        obj = g.Line(form(fr.pt(s["c"]), s["f"]), gpt(b))
    err = 1e-13
    done = 0
    kinds = [s["t"]]
    for st in case["steps"]:
        on = st["m"] == "on"
        p = None
        if on:
            p = gc[1] + gc[2] * unit(st["th"]) if gc[0] == "c" else gc[1] + (gc[2] - gc[1]) * st["t"]
        elif st["m"] == "center" and gc[0] == "c":
            p = gc[1]
        p, k, I = mkinv(st["i"], fr, p)
        size = abs(p) + (abs(gc[1]) + (gc[2] if gc[0] == "c" else abs(gc[2] - gc[1])))
        try:
            step_ok(gc, p, k, on, size)
            nxt = o_invert(gc, p, k, on)
            if nxt[0] == "c" and not (1e-2 * fr.s < nxt[2] < 1e3 * fr.s):
                skip("image of extreme size")
            if abs(nxt[1] - p) > 1e4 * fr.s:
                skip("image of extreme size")
            if nxt[0] == "c" and nxt[2] < 1e-2 * abs(nxt[1]):
                skip("small image relative to the coordinates")
        except Skip:
            if done == 0:
                raise
            break
        res = I.invert_gcircle(obj)
        nsize = abs(p) + abs(nxt[1]) + (nxt[2] if nxt[0] == "c" else abs(nxt[2] - nxt[1]))
        # error propagation: crude but generous
        D = abs(abs(gc[1] - p) ** 2 - gc[2] ** 2) if gc[0] == "c" else line_dist(gc[1], gc[2], p) ** 2
        if on:
            D = gc[2] ** 2 if gc[0] == "c" else abs(gc[2] - gc[1]) ** 2
        amp = (size * size + size * nsize) / D + abs(k) / D
        err = err * amp * 4 + 1e-14 * amp
        if err > 1e-6:
            if done == 0:
                skip("ill-conditioned")
            break
        what = "image of a %s with the pole %s" % ("circle" if gc[0] == "c" else "line", "on it" if on else "off it")
        compare_gc(res, nxt, err * 100 * nsize, what)
        spec = I.invert_circle(obj) if gc[0] == "c" else I.invert_line(obj)
        compare_gc(spec, nxt, err * 100 * nsize, what + " (invert_circle/invert_line)")
        if gc[0] == "l":
            compare_gc(obj.invert(I), nxt, err * 100 * nsize, what + " (Line.invert)")
        # involution
        if err * amp < 1e-7:
            back = I.invert_gcircle(res)
            a2 = (size * size + size * nsize + nsize * nsize) / min(D, abs(k)) + 1
            compare_gc(back, gc, 1e3 * err * a2 * a2 * (size + nsize), "image of the image")
        # sample points
        for m in gc_points(gc, 5):
            if abs(m - p) > 0.05 * size:
                near(on_gcirc_residual(nxt, inv_pt(p, k, m)), 0, 1e-9 * nsize * amp, "internal oracle")
        label(what)
        gc, obj = nxt, res
        kinds.append(gc[0])
        done += 1
    label("%d steps" % done)


@check("C07", lambda G: G.obj(t=G.one("c", "l"), p=G.pt(2), dir=G.angle360(), delta=G.one(3e-4, 1e-3, 3e-3, 0.01, -3e-4, -1e-3, -3e-3, -0.01), r=G.grid(0.5, 4, 16),
                              L=G.grid(1, 3, 16), u=G.grid(0.25, 0.75, 16), k=G.signed(0.5, 4), s=G.one(1, 1, 1, 10, 0.3), f=G.form), n=600)
def nearly_through_pole(case):
    """a line or circle passing near (not through) the pole goes to a large circle, not to a line"""
    s, dl = case["s"], case["delta"]
    p, u = C(case["p"]) * s, unit(case["dir"])
    k = case["k"] * s * s
    I = g.Inversion(gpt(p), k)
    if case["t"] == "c":
        r = case["r"] * s
        c = p + r * (1 + dl) * u
        exp = inv_circle(p, k, c, r)
        obj = g.Circle(form(gpt(c), case["f"]), r)
        res = (I.invert_gcircle(obj), I.invert_circle(obj))
    else:
        L = case["L"] * s
        h = p + dl * s * 1j * u
        a, b = h - case["u"] * L * u, h + (1 - case["u"]) * L * u
        e = inv_pt(p, k, h)
        exp = (p + e) / 2, abs(e - p) / 2
        obj = g.Line(form(gpt(a), case["f"]), form(gpt(b), case["f"]))
        res = (I.invert_gcircle(obj), I.invert_line(obj), obj.invert(I))
    label("line" if case["t"] == "l" else "circle", "delta=%g" % abs(dl))
    for x in res:
        same_circle(x, exp[0], exp[1], 1e-4 * exp[1], "image of a %s passing near the pole" % ("line" if case["t"] == "l" else "circle"))


# ------------------------------------------------------------------ C08
def swapped(P, inv, what):
    cond = P.size / min(P.r1, P.r2)
    p, k = pt(inv.pole, what + " pole"), num(inv.power, what + " power")
    require(k != 0, "%s: power 0", what)
    far = abs(p) + P.size
    tol = 1e-11 * far * cond * max(1, far / min(P.r1, P.r2))
    c, r = inv_circle(p, k, P.c1, P.r1)
    near(c, P.c2, tol, what + ": center of the image of the first circle")
    near(r, P.r2, tol, what + ": radius of the image of the first circle")
    same_circle(inv.invert_circle(P.k1), P.c2, P.r2, tol, what + ": image of the first circle")
    same_circle(inv.invert_circle(P.k2), P.c1, P.r1, tol, what + ": image of the second circle")
    return k


@check("C08", lambda G: G.obj(p=G.circle_pair(PKINDS), eq=G.one(False, False, True), pos=G.one(True, False, None)), n=3000)
def swapping(case):
    """from_swapping_two_circles: swaps the circles, with the requested sign when that sign is possible; a reflection when congruent and tangent"""
    d = dict(case["p"])
    if case["eq"] and d["kind"] in ("int", "inside", "concentric"):
        d["kind"] = "two"
    P = mkpair(d, case["eq"])
    pos = True if case["pos"] is None else case["pos"]
    f = g.Inversion.from_swapping_two_circles
    inv = f(P.k1, P.k2) if case["pos"] is None else f(P.k1, P.k2, pos) if len(d) % 2 else f(P.k1, P.k2, positive=pos)
    if case["eq"] and P.kind == "ext":
        instance(inv, g.Reflection, "result for congruent tangent circles")
        label("reflection")
        same_circle(inv.reflect_circle(P.k1), P.c2, P.r2, 1e-9 * P.size * P.size / P.d, "reflection of the first circle")
        same_circle(inv.reflect_circle(P.k2), P.c1, P.r1, 1e-9 * P.size * P.size / P.d, "reflection of the second circle")
        return
    instance(inv, g.Inversion, "result")
    k = swapped(P, inv, "swapping inversion")
    if case["eq"]:
        require((k > 0) == (P.kind == "two"), "power %r for congruent circles (%s)", k, P.kind)
    elif P.kind in ("separate", "inside", "concentric"):
        require((k > 0) == pos, "power %r with positive=%s (%s)", k, pos, P.kind)
    else:
        require(k > 0, "power %r for circles that meet (%s)", k, P.kind)
    label("positive" if pos else "negative", "congruent" if case["eq"] else "")


@check("C08", lambda G: G.obj(p=G.circle_pair(["separate", "two", "inside"]), eq=G.one(False, False, True)), n=1500)
def fixing_two(case):
    """from_fixing_two_circles leaves both circles invariant"""
    d = dict(case["p"])
    if case["eq"] and d["kind"] == "inside":
        d["kind"] = "two"
    P = mkpair(d, case["eq"])
    if P.d < 0.02 * P.size:
        skip("centers close together relative to the coordinates")
    for x, y in ((P.k1, P.k2), (P.k2, P.k1)):
        inv = instance(g.Inversion.from_fixing_two_circles(x, y), g.Inversion, "result")
        p, k = pt(inv.pole), num(inv.power)
        far = abs(p) + P.size
        r = min(P.r1, P.r2)
        if abs(k) < 1e-3 * far * r:
            skip("power nearly 0")
        tol = 1e-11 * far * (far / r) * (P.size / P.d) * max(1, far * far / abs(k))
        for c, rr, K in ((P.c1, P.r1, P.k1), (P.c2, P.r2, P.k2)):
            c2, r2 = inv_circle(p, k, c, rr)
            near(c2, c, tol, "center of the image of a circle to be fixed")
            near(r2, rr, tol, "radius of the image of a circle to be fixed")
            same_circle(inv.invert_circle(K), c, rr, tol, "image of a circle to be fixed")


@check("C08", lambda G: G.obj(t=G.triangle(), frame=G.frame, r=G.lst(G.mix(G.integer(1, 6), G.grid(0.2, 8, 64)), 3, 3), f=G.form), n=1500)
def fixing_three(case):
    """from_fixing_three_circles leaves the three circles invariant"""
    fr, P, z, _ = mktri(case["t"], case["frame"])
    r = [fr.len(x) for x in case["r"]]
    K = [g.Circle(form(P[i], case["f"]), r[i]) for i in range(3)]
    inv = instance(g.Inversion.from_fixing_three_circles(*K), g.Inversion, "result")
    p, k = pt(inv.pole), num(inv.power)
    size = max(abs(x) for x in z) + max(r)
    side = min(abs(z[0] - z[1]), abs(z[1] - z[2]), abs(z[2] - z[0]))
    ar = abs(cross(z[1] - z[0], z[2] - z[0]))
    L = max(abs(z[0] - z[1]), abs(z[1] - z[2]), abs(z[2] - z[0]))
    far = abs(p) + size
    if abs(k) < 1e-3 * far * min(r):
        skip("power nearly 0")
    tol = 1e-11 * far * far / min(r) * (L * L / ar) * size / side * max(1, far * far / abs(k))
    if tol > 1e-4 * min(r):
        skip("ill-conditioned")
    for i in range(3):
        c2, r2 = inv_circle(p, k, z[i], r[i])
        near(c2, z[i], tol, "center of the image of a circle to be fixed")
        near(r2, r[i], tol, "radius of the image of a circle to be fixed")
        same_circle(inv.invert_circle(K[i]), z[i], r[i], tol, "image of a circle to be fixed")
    label("positive" if k > 0 else "negative")


@check("C08", lambda G: G.obj(c=G.pt(6), r=G.mix(G.integer(1, 5), G.grid(0.5, 5, 64)), frame=G.frame, f=G.form, th=G.angle360()), n=500)
def on_circle(case):
    """on_circle fixes every point of the circle and swaps center and infinity"""
    fr = Frame(case["frame"])
    p, r = fr.pt(case["c"]), fr.len(case["r"])
    inv = instance(g.Inversion.on_circle(g.Circle(form(p, case["f"]), r)), g.Inversion)
    m = C(p) + r * unit(case["th"])
    if r < 1e-3 * abs(C(p)):
        skip("small circle relative to the coordinates")
    near(pt(inv.invert(gpt(m))), m, 1e-11 * (abs(m) + r) * (1 + abs(m) / r), "image of a point of the circle")
    require(is_infinite_result(inv.invert(p)), "image of the center")
    require(num(inv.power) > 0, "power")


# ------------------------------------------------------------------ C09
@check("C09", lambda G: G.obj(a=s_inv(G), b=s_inv(G), frame=G.frame, left=G.one(True, False, None), ms=G.lst(G.pt(8), 1, 3), same=G.one(False, False, False, True)), n=2000)
def compose(case):
    """compose() is the Mobius transformation iota2 o iota1 (left) or iota1 o iota2 (right)"""
    fr = Frame(case["frame"])
    p1, k1, I1 = mkinv(case["a"], fr)
    bb = dict(case["b"])
    if case["same"]:
        bb["p"] = case["a"]["p"]
    p2, k2, I2 = mkinv(bb, fr)
    left = True if case["left"] is None else case["left"]
    M = I1.compose(I2) if case["left"] is None else I1.compose(I2, left) if case["same"] else I1.compose(I2, left=left)
    instance(M, g.Mobius, "composition")
    if not left:
        p1, k1, p2, k2 = p2, k2, p1, k1
    label("left" if left else "right", "same pole" if p1 == p2 else "")
    n = 0
    s = fr.s
    for m in case["ms"]:
        m = C(fr.pt(m))
        if abs(m - p1) < 0.1 * s:
            continue
        w = inv_pt(p1, k1, m)
        if abs(w - p2) < 0.1 * s or abs(w - p2) < 1e-2 * abs(p2):
            continue
        z = inv_pt(p2, k2, w)
        size = abs(p1) + abs(p2) + abs(m) + abs(w) + abs(z) + s
        amp = (size / abs(m - p1)) ** 2 * (size / abs(w - p2)) ** 2 * (1 + abs(k1) / s / s) * (1 + abs(k2) / s / s)
        if amp > 1e8:
            continue
        near(pt(M.transform(gpt(m)), "image by the composition"), z, 1e-14 * amp * size, "image by the composition")
        n += 1
    # infinity and the pole
    if p1 == p2:
        near(pt(M.transform(gpt(p1 + s))), p1 + s * k2 / k1, 1e-9 * (abs(p1) + s * (1 + abs(k2 / k1))) * (1 + abs(p1) / s) ** 2 * max(1, abs(k1 / k2)), "composition with the same pole is a homothety")
    else:
        if abs(p1 - p2) > 0.1 * s and abs(p1 - p2) > 1e-3 * abs(p1):
            sz = abs(p1) + abs(p2) + s
            z = inv_pt(p2, k2, p1)
            near(pt(M.transform(inf)), z, 1e-11 * (sz + abs(z)) * (sz / abs(p1 - p2)) ** 2 * (1 + abs(k2) / s / s), "image of inf")
            n += 1
    if n == 0 and p1 != p2:
        trivial()


# ------------------------------------------------------------------ C10
@check("C10", lambda G: G.obj(p=G.circle_pair(PKINDS), eq=G.one(False, False, True)), n=3000)
def mid(case):
    """mid_circles: every returned generalized circle swaps the two circles; two of them iff the circles meet at two points; a line only for equal radii"""
    P = mkpair(case["p"], case["eq"] and case["p"]["kind"] in ("separate", "ext", "two"))
    eq = P.r1 == P.r2
    for X, Y in ((P.k1, P.k2), (P.k2, P.k1)):
        res = g.mid_circles(X, Y)
        if P.kind == "two":
            require(isinstance(res, (list, tuple)) and len(res) == 2, "expected two mid-circles, got %s", show(res))
            out = list(res)
        else:
            require(isinstance(res, (g.Circle, g.Line)), "expected one mid-circle (%s), got %s", P.kind, show(res))
            out = [res]
        lines = 0
        gcs = []
        for o in out:
            gc = gcirc(o, "mid-circle")
            gcs.append(gc)
            if gc[0] == "l":
                lines += 1
                a, b = gc[1], gc[2]
                tol = 1e-10 * P.size * P.size / abs(a - b)
                near(2 * foot(a, b, P.c1) - P.c1, P.c2, tol, "reflection of the first center in the mid-line")
                near(P.r1, P.r2, 1e-9 * P.r1, "radii of circles with a mid-line")
                require(o.extendA and o.extendB, "mid-line is not a full line")
            else:
                p, k = gc[1], gc[2] ** 2
                far = abs(p) + P.size
                tol = 1e-11 * far * (far / min(P.r1, P.r2)) ** 2
                c, r = inv_circle(p, k, P.c1, P.r1)
                near(c, P.c2, tol, "center of the image of the first circle by the mid-circle")
                near(r, P.r2, tol, "radius of the image of the first circle by the mid-circle")
        require(lines == (1 if eq else 0), "%d lines among the mid-circles", lines)
        if len(gcs) == 2 and gcs[0][0] == gcs[1][0] == "c":
            require(abs(gcs[0][1] - gcs[1][1]) > 1e-6 * P.r1, "the two mid-circles coincide")
    label("congruent" if eq else "")


@check("C10", lambda G: G.obj(c=G.pt(6), r=G.mix(G.integer(1, 5), G.grid(0.5, 5, 64)), frame=G.frame), n=150)
def mid_equal(case):
    """mid_circles of two equal circles returns a circle that fixes them"""
    fr = Frame(case["frame"])
    p, r = fr.pt(case["c"]), fr.len(case["r"])
    m = g.mid_circles(g.Circle(p, r), g.Circle(tuple(p), r))
    same_circle(m, C(p), r, 1e-9 * (abs(C(p)) + r), "mid-circle of equal circles")


# ------------------------------------------------------------------ C11
def arc_data(A, what):
    instance(A, g.Arc, what)
    c, r = pt(A.center, what + " center"), num(A.radius, what + " radius")
    a1, a2 = num(A.alpha1), num(A.alpha2)
    if A.degrees:
        a1, a2 = math.radians(a1), math.radians(a2)
    s, e = pt(A.starting_point(), "starting point"), pt(A.ending_point(), "ending point")
    P = A.path(9)
    rows = matrix(P, 9, 2, "arc path")
    return c, r, s, e, [complex(*x) for x in rows]


def orthocheck(res, arc, cK, rK, z1, z2, cond, what):
    size = abs(cK) + rK
    if arc:
        c, r, s, e, path = arc_data(res, what)
    else:
        c, r = circ(res, what)
    sz = size + abs(c) + r
    tol = 1e-12 * sz * cond
    near(abs(c - cK) ** 2, r * r + rK * rK, 10 * tol * sz, what + ": orthogonality (d^2 = r1^2 + r2^2)")
    near(abs(z1 - c), r, tol, what + ": distance of the first point from the center")
    near(abs(z2 - c), r, tol, what + ": distance of the second point from the center")
    if arc:
        if abs(s - z1) > abs(s - z2):
            z1, z2 = z2, z1
        near(s, z1, tol * 10, what + ": end of the arc")
        near(e, z2, tol * 10, what + ": end of the arc")
        near(path[0], s, tol * 10, what + ": first point of the path")
        near(path[-1], e, tol * 10, what + ": last point of the path")
        for m in path:
            require(abs(m - cK) <= rK + tol * 10, "%s: the arc leaves the reference circle: %s at distance %.6g > %.6g",
                    what, fmt(m), abs(m - cK), rK)
            near(abs(m - c), r, tol * 10, what + ": arc path")


@check("C11", lambda G: G.obj(c=G.pt(6), r=G.mix(G.integer(1, 5), G.one(0.5, 0.25), G.grid(0.3, 5, 64)), frame=G.frame, arc=G.one(True, False, None),
                              q=G.lst(G.mix(G.grid(0.05, 0.97, 64), G.grid(0.05, 0.97, 64), G.one(0.98, 0.999, 0.9995)), 2, 2), t1=G.angle360(), dt=G.mix(G.angle360(), G.one(0, 180, 90), G.one(0.1, 0.25, 0.5, 1, 179, 179.5, 179.75, 179.9, 0.02, 179.98)),
                              center=G.one(0, 0, 0, 0, 0, 1, 2), f=G.form), n=2500)
def through_two_inside(case):
    """circle/arc through two points inside and orthogonal to the reference circle; a line when they are on a diameter"""
    fr = Frame(case["frame"])
    p, r = fr.pt(case["c"]), fr.len(case["r"])
    c = C(p)
    K = g.Circle(form(p, case["f"]), r)
    u1, u2 = unit(case["t1"]), unit(case["t1"] + case["dt"])
    q = list(case["q"])
    if case["center"]:
        q[case["center"] - 1] = 0
    z1, z2 = c + q[0] * r * u1, c + q[1] * r * u2
    if abs(z1 - z2) < max(0.02 * r, 1e-3 * abs(c)):
        skip("points nearly equal")
    if r < 1e-2 * abs(c):
        skip("small circle relative to the coordinates")
    sn = abs(sin(math.radians(case["dt"])))
    diam = q[0] == 0 or q[1] == 0 or case["dt"] % 180 == 0
    if not diam and sn < 2e-4:
        skip("nearly on a diameter")
    if diam and 0 < abs(q[0] * q[1]) and case["t1"] % 90 != 0:
        # aligned up to rounding only: fine, the library's test has a tolerance
        pass
    arc = bool(case["arc"])
    if case["arc"] is None:
        res = K.orthogonal_through_two_points_in_circle(form(gpt(z1), case["f"]), gpt(z2))
    else:
        res = K.orthogonal_through_two_points_in_circle(form(gpt(z1), case["f"]), gpt(z2), arc)
    label("diameter" if diam else "oblique", "arc" if arc else "full")
    if diam:
        a, b = line(res, "result for points on a diameter")
        near(a, z1, 1e-9 * (abs(c) + r), "first point of the line") if abs(a - z1) < abs(a - z2) else near(a, z2, 1e-9 * (abs(c) + r), "first point of the line")
        near(a + b, z1 + z2, 1e-9 * (abs(c) + r), "points of the line")
        require((bool(res.extendA), bool(res.extendB)) == (not arc, not arc), "extension flags of the line with arc=%s: %s", arc, show(res))
        return
    orthocheck(res, arc, c, r, z1, z2, (abs(c) + r) / r / sn / min(q) / (1 - max(q)) * 10, "orthogonal circle through two inner points")


@check("C11", lambda G: G.obj(c=G.pt(6), r=G.mix(G.integer(1, 5), G.one(0.5, 2, 10), G.grid(0.3, 5, 64)), frame=G.frame, q=G.one(1.02, 1.1, 1.5, 3, 10),
                              q2=G.grid(0.05, 0.9, 64), t1=G.angle360(), t2=G.angle360(), arc=G.boolean, first=G.boolean), n=500)
def outside_rejected(case):
    """a point outside the reference circle is rejected with ValueError"""
    fr = Frame(case["frame"])
    p, r = fr.pt(case["c"]), fr.len(case["r"])
    K = g.Circle(p, r)
    z1 = gpt(C(p) + case["q"] * r * unit(case["t1"]))
    z2 = gpt(C(p) + case["q2"] * r * unit(case["t2"]))
    a = (z1, z2) if case["first"] else (z2, z1)
    expect_value_error(lambda: K.orthogonal_through_two_points_in_circle(a[0], a[1], case["arc"]),
                       "a point at %s radii from the center" % case["q"])


@check("C11", lambda G: G.obj(c=G.pt(6), r=G.mix(G.integer(1, 5), G.grid(0.3, 5, 64)), frame=G.frame, arc=G.one(True, False, None),
                              a1=G.angle(), da=G.mix(G.angle(), G.one(180, -180, 540, 90, -90), G.one(179, 179.5, 179.9, -179.75, 0.1, 0.5, 0.25)), f=G.form), n=2500)
def through_two_on(case):
    """circle/arc orthogonal to the reference circle at two of its points; the diameter when they are opposite"""
    fr = Frame(case["frame"])
    p, r = fr.pt(case["c"]), fr.len(case["r"])
    c = C(p)
    if r < 1e-2 * abs(c):
        skip("small circle relative to the coordinates")
    K = g.Circle(form(p, case["f"]), r)
    a1, a2 = math.radians(case["a1"]), math.radians(case["a1"] + case["da"])
    da = case["da"] % 360
    if da == 0:
        skip("the two points coincide")
    opp = da == 180
    if not opp and (abs(sin(math.radians(da))) < 1e-3):
        skip("nearly opposite or nearly equal points")
    arc = bool(case["arc"])
    f = K.orthogonal_through_two_points_on_circle
    res = f(a1, a2) if case["arc"] is None else f(a1, a2, arc)
    z1, z2 = c + r * unit(case["a1"]), c + r * unit(case["a1"] + case["da"])
    label("opposite" if opp else "oblique", "arc" if arc else "full")
    if opp:
        a, b = line(res, "result for opposite points")
        if abs(a - z1) > abs(a - z2):
            a, b = b, a
        near(a, z1, 1e-8 * (abs(c) + r), "end of the diameter")
        near(b, z2, 1e-8 * (abs(c) + r), "end of the diameter")
        require((bool(res.extendA), bool(res.extendB)) == (not arc, not arc), "extension flags of the line with arc=%s: %s", arc, show(res))
        return
    cond = (abs(c) + r) / r / abs(sin(math.radians(da))) ** 2 * 10
    orthocheck(res, arc, c, r, z1, z2, cond, "orthogonal circle at two points of the circle")


# ------------------------------------------------------------------ C12
@check("C12", lambda G: G.obj(c=G.pt(6), r=G.mix(G.integer(1, 5), G.grid(0.5, 5, 64)), frame=G.frame, n=G.mix(G.integer(3, 12), G.integer(3, 40), G.integer(3, 150)),
                              phi=G.mix(G.one(0, 0.25, -0.25), G.signed(0.02, 0.85)), shift=G.mix(G.one(0, 0.5, 1, -0.25), G.real(-3, 3)), f=G.form), n=900)
def steiner(case):
    """Steiner chain: n circles inside c0, tangent to c0, to the inner circle and to their neighbours; the centers lie on the returned ellipse"""
    fr = Frame(case["frame"])
    p, R = fr.pt(case["c"]), fr.len(case["r"])
    O = C(p)
    n, phi = case["n"], case["phi"]
    if R < 5e-2 * abs(O):
        skip("small circle relative to the coordinates")
    res = g.SteinerChain(g.Circle(form(p, case["f"]), R), n, phi, case["shift"])
    require(isinstance(res, dict) and "circles" in res and "ellipse" in res, "result is %s", show(res))
    ks = res["circles"]
    require(len(ks) == n + 1, "%d circles instead of %d", len(ks), n + 1)
    cs = [circ(k, "circle %d" % i) for i, k in enumerate(ks)]
    tol = 1e-9 * (abs(O) + R)
    ci, ri = cs[-1]
    require(ri < R and abs(ci - O) + ri < R + tol, "inner circle is not inside")
    for i in range(n):
        c, r = cs[i]
        near(abs(c - O), R - r, tol, "circle %d: tangent to the exterior circle (distance of centers)" % i)
        near(abs(c - ci), ri + r, tol, "circle %d: tangent to the inner circle (distance of centers)" % i)
        c2, r2 = cs[(i + 1) % n]
        near(abs(c - c2), r + r2, tol, "circles %d and %d tangent (distance of centers)" % (i, (i + 1) % n))
        # orientation: the chain goes once around
    tot = 0.0
    for i in range(n):
        tot += cmath.phase((cs[(i + 1) % n][0] - ci) / (cs[i][0] - ci))
    near(abs(tot), 2 * pi, 1e-6, "turn of the chain around the inner circle")
    ce, a, b, al = ell(res["ellipse"], "ellipse")
    for i in range(n):
        near(ell_q(ce, a, b, al, cs[i][0]), 1, 1e-8 * (1 + abs(O) / R) * (a / b) ** 2, "center of circle %d on the ellipse" % i)
    require(a >= b * (1 - 1e-12), "rmajor %r < rminor %r", a, b)
    label("phi=0" if phi == 0 else "phi<0" if phi < 0 else "phi>0")
    if phi == 0:
        near(ci, O, tol, "inner center for phi=0")
        for i in range(n):
            near(cs[i][1], cs[0][1], tol, "equal radii for phi=0")


@check("C12", lambda G: G.obj(c=G.pt(3), r=G.mix(G.integer(1, 5), G.grid(0.5, 5, 64)), n=G.integer(3, 12),
                              phi=G.mix(G.one(0, 0.25), G.signed(0.02, 0.8)), shift=G.real(-2, 2), k=G.integer(1, 4), s=G.one(2, 0.5, 10), v=G.pt(5)), n=400)
def steiner_shift(case):
    """shifting by a whole number permutes the chain cyclically; scaling/translating the circle scales/translates the chain"""
    c, R, n, phi = C(case["c"]), case["r"], case["n"], case["phi"]
    A = g.SteinerChain(g.Circle(gpt(c), R), n, phi, case["shift"])["circles"]
    B = g.SteinerChain(g.Circle(gpt(c), R), n, phi, case["shift"] + case["k"])["circles"]
    tol = 1e-9 * (abs(c) + R)
    for i in range(n):
        a, r = circ(A[(i + case["k"]) % n])
        same_circle(B[i], a, r, tol, "circle %d of the chain shifted by %d" % (i, case["k"]))
    s, v = case["s"], C(case["v"])
    D = g.SteinerChain(g.Circle(gpt(s * c + v), R * s), n, phi, case["shift"])
    for i in range(n + 1):
        a, r = circ(A[i])
        same_circle(D["circles"][i], s * a + v, s * r, tol * s * 10 + 1e-10 * abs(v), "circle %d of the transformed chain" % i)

from h import *

# a line by construction: A, direction, length (never degenerate)
def s_line(G):
    return G.obj(A=G.pt(6), d=G.angle360(), L=G.mix(G.integer(1, 6), G.grid(0.5, 8, 64)),
                 frame=G.frame, fa=G.form, fb=G.form, ea=G.boolean, eb=G.boolean,
                 ints=G.mix(G.one(None), G.one(None), G.ipt(6)))


def mkline(d, swap=False):
    """-> (A, B as 2-lists, library Line, direction, length)"""
    fr = Frame(d["frame"])
    A = d["A"]
    th = math.radians(d["d"])
    if d.get("ints") is not None and d["ints"] != [0, 0]:
        B = [A[0] + d["ints"][0], A[1] + d["ints"][1]]
    elif d["d"] % 90 == 0:
        k = int(d["d"] // 90) % 4
        B = [A[0] + d["L"] * [1, 0, -1, 0][k], A[1] + d["L"] * [0, 1, 0, -1][k]]
    else:
        B = [A[0] + d["L"] * cos(th), A[1] + d["L"] * sin(th)]
    A, B = fr.pt(A), fr.pt(B)
    if abs(C(A) - C(B)) < 1e-4 * (abs(C(A)) + abs(C(B))):
        skip("defining points nearly coincide relative to their coordinates")
    L = g.Line(form(A, d["fa"]), form(B, d["fb"]), d["ea"], d["eb"])
    return A, B, L, fr


def T(G):
    """position along the line, in units of |AB| from A"""
    return G.mix(G.one(0, 1, 0.5, 2, -1), G.grid(-3, 4, 64), G.one(0, 1, 20, -20, 150, -150))


def off(G):
    """signed distance off the line in units of |AB|: zero or clearly not"""
    return G.mix(G.one(0), G.signed(0.02, 3))


# ------------------------------------------------------------------ C01
@check("C01", lambda G: s_line(G), n=1200)
def direction_offset(case):
    """direction/offset satisfy cos(d)x+sin(d)y=offset at A and B and |offset| is the distance to the origin"""
    A, B, L, fr = mkline(case)
    do = L.direction_offset()
    d, o = num(do["direction"], "direction"), num(do["offset"], "offset")
    sz = abs(C(A)) + abs(C(B)) + 1
    for P in (A, B):
        near(cos(d) * P[0] + sin(d) * P[1], o, 1e-9 * sz * max(1, sz / abs(C(A) - C(B))), "cos(direction)x+sin(direction)y")
    near(abs(o), abs(line_dist(C(A), C(B), 0j)), 1e-8 * sz * max(1, sz / abs(C(A) - C(B))), "|offset|")
    label("vertical" if A[0] == B[0] else "horizontal" if A[1] == B[1] else "oblique")
    label("through origin" if abs(o) < 1e-9 else "off origin")
    L2 = g.Line(L.B, L.A)
    do2 = L2.direction_offset()
    require(abs(abs(num(do2["offset"])) - abs(o)) < 1e-8 * sz * max(1, sz / abs(C(A) - C(B))), "offset changes when the points are swapped")


@check("C01", lambda G: G.obj(l=s_line(G), t=T(G), off=off(G), strict=G.boolean, cc=G.boolean, fm=G.form), n=2500)
def includes(case):
    """includes(): exact membership in the line, half-line or segment (strict)"""
    A, B, L, fr = mkline(case["l"])
    t, o = case["t"], case["off"]
    a, b = C(A), C(B)
    if o == 0 and t == 0:
        m = A
    elif o == 0 and t == 1:
        m = B
    else:
        # clearly away from both end points, otherwise the answer is a rounding matter
        if abs(t) < 0.01 or abs(t - 1) < 0.01:
            skip("too near an end point")
        z = a + (b - a) * t + (b - a) * 1j * o
        m = [z.real, z.imag]
        if min(abs(z - a), abs(z - b)) < 1e-3 * max(abs(z), abs(a), abs(b)):
            skip("too near an end point relative to the coordinates")
    if case["strict"]:
        got = L.includes(form(m, case["fm"]), True, case["cc"] or o != 0)
    elif not case["cc"]:
        got = L.includes(form(m, case["fm"]), checkCollinear=True)
    else:
        got = L.includes(form(m, case["fm"]))
    got = boolean(got, "includes")
    on = o == 0
    ea, eb = case["l"]["ea"], case["l"]["eb"]
    if case["strict"] and on:
        if not ea and t < 0:
            on = False
        if not eb and t > 1:
            on = False
    label("on" if on else "not on", "strict" if case["strict"] else "not strict",
          "line" if ea and eb else "segment" if not ea and not eb else "half-line",
          "end point" if o == 0 and t in (0, 1) else "other")
    require(got == on, "includes(%s, strict=%s) is %s on %s A=%s B=%s extendA=%s extendB=%s (t=%s, off=%s)",
            m, case["strict"], got, "the line", A, B, ea, eb, t, o)


def second_line(G, **kw):
    return G.obj(l=s_line(G), **kw,
                 rel=G.one("same", "same", "shift", "mirror", "rot", "rot90", "rot90"),
                 t1=G.grid(-3, 3, 16), dt=G.signed(0.5, 4),
                 off=G.mix(G.signed(0.02, 3), G.signed(0.02, 3), G.one(1e-3, -1e-3, 1e-4, -1e-5)), rot=G.signed(0.5, 89.5), e=G.boolean)


def mksecond(case):
    A, B, L, fr = mkline(case["l"])
    a, b = C(A), C(B)
    u = b - a
    p = a + u * case["t1"]
    rel = case["rel"]
    v = u * case["dt"]
    if rel == "shift":
        p += u * 1j * case["off"]
    elif rel == "mirror":      # the line's image under the point reflection through the origin
        d = line_dist(a, b, 0j)
        if abs(d) < 0.02 * abs(u):
            skip("mirror image of a line through the origin")
        p = -p
    elif rel == "rot":
        v *= cmath.exp(1j * math.radians(case["rot"]))
        if abs(abs(case["rot"]) - 90) < 0.4:
            skip("nearly perpendicular")
    elif rel == "rot90":
        v *= 1j
    q = p + v
    if abs(p - q) < 1e-3 * (abs(p) + abs(q)) or abs(p) > 3e3 or abs(q) > 3e3:
        skip("defining points nearly coincide relative to their coordinates")
    if abs(case["off"]) * abs(u) < 1e-6 * (abs(p) + abs(a)):
        skip("shift small relative to the coordinates")
    if abs(u) < 1e-2 * (abs(a) + abs(b)):
        skip("short relative to the coordinates")
    L2 = g.Line(gpt(p), gpt(q), case["e"], not case["e"])
    label(rel)
    return L, L2, rel


@check("C01", second_line, n=2500)
def is_equal(case):
    """is_equal(): true for another pair of points of the same line, false for any other line; symmetric"""
    L, L2, rel = mksecond(case)
    exp = rel == "same"
    for x, y, w in ((L, L2, "is_equal"), (L2, L, "reversed is_equal"), (L, L, "self"), (L2, L2, "self")):
        e = True if w == "self" else exp
        got = boolean(x.is_equal(y), w)
        require(got == e, "%s is %s for lines related by %s: %s / %s", w, got, rel, show(x), show(y))


@check("C01", lambda G: second_line(G, mag=G.one(1, 1, 1, 1e-6, 1e-4, 1e-2, 1e3, 1e6), mag2=G.one(1, 1, 1e-3, 1e3)), n=2500)
def parallel_perpendicular(case):
    """is_parallel()/is_perpendicular(): by construction of the second line, at every size of the figure and of the defining segments; symmetric"""
    L, L2, rel = mksecond(case)
    k, k2 = case["mag"], case["mag2"]
    if k != 1 or k2 != 1:
        a, b, c, d = [C(x) for x in (L.A, L.B, L2.A, L2.B)]
        if max(map(abs, (a, c))) > 1e3 * min(abs(b - a), abs(d - c)) and k2 < 1:
            skip("defining points nearly coincide relative to their coordinates")
        if k * min(abs(b - a), k2 * abs(d - c)) < 1e-6:
            skip("points equal for the library")
        L = g.Line(gpt(k * a), gpt(k * b), L.extendA, L.extendB)
        L2 = g.Line(gpt(k * c), gpt(k * (c + k2 * (d - c))), L2.extendA, L2.extendB)
        label("scaled")
    ep = rel in ("same", "shift", "mirror")
    eo = rel == "rot90"
    for x, y in ((L, L2), (L2, L)):
        require(boolean(x.is_parallel(y)) == ep, "is_parallel is %s for lines related by %s: %s / %s", not ep, rel, show(x), show(y))
        require(boolean(x.is_perpendicular(y)) == eo, "is_perpendicular is %s for lines related by %s: %s / %s", not eo, rel, show(x), show(y))


# ------------------------------------------------------------------ C02
def withpoint(G):
    return G.obj(l=s_line(G), t=T(G), off=G.mix(G.one(0), G.signed(0.02, 3), G.signed(0.02, 3), G.signed(0.02, 3)),
                 fm=G.form, eh=G.boolean, em=G.boolean)


def mkpoint(case):
    A, B, L, fr = mkline(case["l"])
    a, b = C(A), C(B)
    m = a + (b - a) * case["t"] + (b - a) * 1j * case["off"]
    size = max(abs(a), abs(b), abs(m)) + 1e-9
    if abs(b - a) < 1e-2 * size:
        skip("points of the line close together relative to the coordinates")
    if case["off"] != 0 and abs(m - a) * 0 + abs(case["off"]) * abs(b - a) < 1e-3 * size:
        skip("point close to the line relative to the coordinates")
    if case["off"] == 0 and min(abs(m - a), abs(m - b)) < 1e-3 * size and m not in (a, b):
        skip("too near an end point relative to the coordinates")
    label("on the line" if case["off"] == 0 else "off the line")
    return a, b, m, L, size


@check("C02", withpoint, n=1200)
def projection_distance(case):
    """projection() is the foot of the perpendicular and distance() its distance"""
    a, b, m, L, size = mkpoint(case)
    tol = 1e-9 * size * max(1, size / abs(b - a))
    H = pt(L.projection(form(gpt(m), case["fm"])), "projection")
    near(H, foot(a, b, m), tol, "projection")
    near(num(L.distance(form(gpt(m), case["fm"])), "distance"), abs(line_dist(a, b, m)), tol, "distance")


@check("C02", withpoint, n=1500)
def perpendicular(case):
    """perpendicular(): through M, perpendicular, meets the line at its first point, flags honoured"""
    a, b, m, L, size = mkpoint(case)
    tol = 1e-9 * size * max(1, size / abs(b - a))
    kw = {}
    if case["eh"]:
        kw["extendH"] = True
    if not case["em"]:
        kw["extendM"] = False
    P = L.perpendicular(form(gpt(m), case["fm"]), **kw)
    h_, m_ = line(P, "perpendicular")
    if case["off"] != 0:
        near(h_, foot(a, b, m), tol, "first point of the perpendicular (meeting point)")
        near(m_, m, tol, "second point of the perpendicular (M)")
        require(bool(P.extendA) == case["eh"] and bool(P.extendB) == case["em"],
                "extension flags (%s, %s) for extendH=%s extendM=%s", P.extendA, P.extendB, case["eh"], case["em"])
    else:
        near(line_dist(h_, m_, m), 0, tol, "distance from M to its perpendicular")
        u, v = (m_ - h_) / abs(m_ - h_), (b - a) / abs(b - a)
        near(dot(u, v), 0, 1e-7, "cosine of the angle of the perpendicular")
        require(P.extendA is True and P.extendB is True, "the perpendicular at a point of the line is not a whole line")


@check("C02", withpoint, n=1200)
def reflection(case):
    """reflection(): the mirror image; applying it twice gives the point back"""
    a, b, m, L, size = mkpoint(case)
    tol = 1e-8 * size * max(1, size / abs(b - a))
    R = pt(L.reflection(form(gpt(m), case["fm"])), "reflection")
    near(R, 2 * foot(a, b, m) - m, tol, "reflection")
    near(pt(L.reflection(gpt(R))), m, 2 * tol, "double reflection")


@check("C02", lambda G: G.obj(l=s_line(G), e=G.mix(G.integer(-14, -4).map(lambda k: 2.0 ** k)), side=G.one(1, -1),
                              t=G.grid(-3, 3, 16), far=G.grid(0.5, 3, 16)), n=700)
def reflection_near_line(case):
    """reflection of a point close to (but not on) the line is still its mirror image"""
    A, B, L, fr = mkline(case["l"])
    a, b = C(A), C(B)
    size = max(abs(a), abs(b))
    m = a + (b - a) * (case["t"] + 1j * case["side"] * case["e"])
    if abs(b - a) < 2e-2 * size:
        skip("points of the line close together relative to the coordinates")
    if min(abs(m - a), abs(m - b)) < 1e-3 * max(size, abs(m)):
        skip("too near a defining point")
    R = pt(L.reflection(gpt(m)), "reflection")
    near(R, 2 * foot(a, b, m) - m, 1e-7 * max(size, abs(m)) * max(1, size / abs(b - a)), "reflection of a near-line point")


@check("C02", lambda G: G.obj(l=s_line(G), O=G.pt(6), fo=G.form, al=G.angle(), deg=G.boolean, v=G.pt(6)), n=1200)
def rotate_translate(case):
    """Line.rotate/translate move both points rigidly and keep the extension flags"""
    A, B, L, fr = mkline(case["l"])
    al = case["al"]
    th = math.radians(al)
    O = fr.pt(case["O"])
    sz = abs(C(A)) + abs(C(B)) + abs(C(O)) + 1
    if case["deg"]:
        R = L.rotate(al, form(O, case["fo"]))
    else:
        R = L.rotate(th, form(O, case["fo"]), degrees=False)
    w = cmath.exp(1j * th)
    p, q = line(R, "rotated line")
    near(p, C(O) + w * (C(A) - C(O)), 1e-10 * sz, "rotated A")
    near(q, C(O) + w * (C(B) - C(O)), 1e-10 * sz, "rotated B")
    require((R.extendA, R.extendB) == (case["l"]["ea"], case["l"]["eb"]), "rotation lost the extension flags")
    v = fr.vec(case["v"])
    Tn = L.translate(form(v, case["fo"]))
    p, q = line(Tn, "translated line")
    near(p, C(A) + C(v), 1e-11 * sz, "translated A")
    near(q, C(B) + C(v), 1e-11 * sz, "translated B")
    require((Tn.extendA, Tn.extendB) == (case["l"]["ea"], case["l"]["eb"]), "translation lost the extension flags")


@check("C02", lambda G: G.obj(l=s_line(G), t=G.grid(-3, 4, 64), s=G.grid(-3, 4, 64), rot=G.signed(2, 178), r=G.grid(0.5, 3, 16), ea=G.boolean, eb=G.boolean, fa=G.form, fb=G.form), n=1500)
def intersection_strict(case):
    """strict intersection: the common point exactly when it is on both segments or half-lines"""
    A, B, L, fr = mkline(case["l"])
    a, b = C(A), C(B)
    u = b - a
    t, s = case["t"], case["s"]
    z = a + t * u
    v = u * case["r"] * cmath.exp(1j * math.radians(case["rot"]))
    c, d = z - s * v, z + (1 - s) * v
    size = max(abs(w) for w in (a, b, c, d))
    if size > 1e3 * abs(u):
        skip("short relative to the coordinates")
    for w in (t, s):
        if min(abs(w), abs(w - 1)) < 0.01:
            skip("intersection at an end")
    L2 = g.Line(form(gpt(c), case["fa"]), form(gpt(d), case["fb"]), case["ea"], case["eb"])
    on = [(w >= 0 or X.extendA) and (w <= 1 or X.extendB) for X, w in ((L, t), (L2, s))]
    label("both" if all(on) else "neither" if not any(on) else "one", "segments" if not (L.extendA or L.extendB or L2.extendA or L2.extendB) else "")
    tol = 1e-8 * size * size / abs(v) / abs(sin(math.radians(case["rot"])))
    for f in (lambda: L.intersection_with_line(L2, True), lambda: L2.intersection_with_line(L, strict=True),
              lambda: g.intersection_line_line(L, L2, True), lambda: g.intersection_line_line(L2, L, strict=True)):
        I = f()
        if all(on):
            near(pt(I, "strict intersection"), z, tol, "strict intersection")
        else:
            require(I is None, "strict intersection is %s, which is not on both lines", show(I))
    near(pt(L.intersection_with_line(L2), "intersection"), z, tol, "intersection (not strict)")


@check("C02", second_line, n=2000)
def intersection_with_line(case):
    """intersection of two lines: common point / None when parallel and distinct / the line when equal"""
    L, L2, rel = mksecond(case)
    a, b = line(L)
    c, d = line(L2)
    for X, Y in ((L, L2), (L2, L)):
        I = X.intersection_with_line(Y)
        I2 = g.intersection_line_line(X, Y)
        if rel in ("shift", "mirror"):
            require(I is None and I2 is None, "intersection of distinct parallel lines is %s", show(I))
        elif rel == "same":
            x, y = line(I, "intersection of equal lines")
            size = max(abs(z) for z in (a, b, c, d, x, y))
            for z in (x, y):
                near(line_dist(a, b, z), 0, 1e-8 * size * max(1, size / abs(b - a)), "intersection of two equal lines")
        else:
            size = max(abs(z) for z in (a, b, c, d))
            z = pt(I, "intersection")
            sn = abs(cross(b - a, d - c)) / abs(b - a) / abs(d - c)
            tol = 1e-9 * (size + abs(z)) * max(1, size / min(abs(b - a), abs(d - c))) / sn
            near(line_dist(a, b, z), 0, tol, "distance of the intersection from the first line")
            near(line_dist(c, d, z), 0, tol, "distance of the intersection from the second line")
            near(pt(I2), z, tol, "intersection_line_line")

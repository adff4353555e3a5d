import re
import sys as _sys

import api
from shapes import *

SKIP_SHOW = None


def _names(pred):
    return [n for n in api.table() if pred(n)]


# ------------------------------------------------------------------ C29
def ks_uniform(us, what, eps=None):
    """distance of a sample to the uniform law on [0,1]; the bound has false-alarm probability < 1e-13 (DKW inequality)"""
    n = len(us)
    us = sorted(us)
    if us[0] < -1e-9 or us[-1] > 1 + 1e-9:
        fail("%s: value %r outside [0,1]", what, us[0] if us[0] < 0 else us[-1])
    d = max(max((i + 1.0) / n - u, u - float(i) / n) for i, u in enumerate(us))
    lim = sqrt(math.log(2e13) / (2 * n))
    if d > lim:
        fail("%s is not uniform: Kolmogorov distance %.3f > %.3f with %d points", what, d, lim, n)


def independent(us, vs, what):
    """us, vs uniform on [0,1] and independent => (u + v) mod 1 and (u - v) mod 1 uniform"""
    ks_uniform([(u + v) % 1 for u, v in zip(us, vs)], what + " (sum modulo 1)")
    ks_uniform([(u - v) % 1 for u, v in zip(us, vs)], what + " (difference modulo 1)")


def laws(us, more, what):
    """us: uniform values of a call; more: those of the next call"""
    ks_uniform(us, what)
    for lag in (1, 2):
        independent(us[lag:], us[:-lag], "%s of points %d apart in the same call" % (what, lag))
    independent(us, more, "%s of points with the same rank in two calls" % what)


def sample(obj, n, where):
    R = obj.random_points(n, where) if where != "in" or n % 2 else obj.random_points(n)
    return [complex(*r) for r in matrix(R, n, 2, "random_points(%d, %r)" % (n, where))]


@check("C29", lambda G: G.obj(kind=G.one("circle", "ellipse", "triangle"), e=G.ellipse, T=G.thin_triangle(), fr=G.frame, n=G.mix(G.integer(1, 6), G.integer(7, 200)), where=G.one("in", "on")), n=1500)
def support(case):
    """n rows, each inside ("in") or on the boundary ("on"); successive calls and rows differ"""
    kind, n, where = case["kind"], case["n"], case["where"]
    label(kind, where)
    if kind == "triangle":
        fr, P, z, T = mktri(case["T"], case["fr"])
        S = max(abs(z[i] - z[i - 1]) for i in range(3))
        o = 1 if cross(z[1] - z[0], z[2] - z[0]) > 0 else -1
        obj = T
        tol = 1e-9 * (S + max(map(abs, z)))

        def test(m):
            d = [o * line_dist(z[i - 1], z[i], m) for i in range(3)]
            return min(d) > -tol if where == "in" else abs(min(d)) < tol
    else:
        E = mkell(case["e"])
        obj = E.e
        if kind == "circle":
            obj, E.b, E.al = g.Circle(E.p, E.a), E.a, 0.0
        tol = 1e-9 * E.size / E.b

        def test(m):
            q = ell_q(E.c, E.a, E.b, E.al, m)
            return q <= 1 + tol if where == "in" else abs(q - 1) < tol
    pts = sample(obj, n, where)
    for m in pts:
        require(test(m), "random_points(%d, %r) returned %s, which is not %s the %s", n, where, fmt(m), where, kind)
    if where == "in" and n >= 40 and kind != "triangle" and all(ell_q(E.c, E.a, E.b, E.al, m) > 0.9 for m in pts):
        fail("all the %d points are next to the boundary", n)
    more = sample(obj, n, where)
    require(len(set(pts)) == n and not set(pts) & set(more), "repeated points in random_points(%d, %r)", n, where)


@check("C29", lambda G: G.obj(kind=G.one("circle", "ellipse", "triangle"), e=G.ellipse, T=G.thin_triangle(), fr=G.frame, where=G.one("in", "on"), u=G.integer(0, 10 ** 6)), n=90)
def distribution(case):
    """area-uniform inside circles, ellipses, triangles; length-uniform on circles and triangles; eccentric-uniform on ellipses (every arc is reached)"""
    kind, where, n = case["kind"], case["where"], 3000
    label(kind, where)
    if kind == "triangle":
        fr, P, z, T = mktri(case["T"], case["fr"])
        obj = T
        D = cross(z[1] - z[0], z[2] - z[0])
        L = [abs(z[1] - z[0]), abs(z[2] - z[1]), abs(z[0] - z[2])]

        def bary(m, k):
            """(1 - coordinate of vertex k)^2, position along the parallel to the opposite side: independent and uniform"""
            a, b, c = z[k], z[(k + 1) % 3], z[(k + 2) % 3]
            la, lb = min(1.0, cross(b - m, c - m) / D), cross(c - m, a - m) / D
            return (1 - la) ** 2, min(1.0, lb / (1 - la) if la < 1 else 0.5)

        def place(m):
            """position along the border"""
            d = [abs(line_dist(z[i], z[(i + 1) % 3], m)) for i in range(3)]
            i = d.index(min(d))
            return (sum(L[:i]) + abs(m - z[i])) / sum(L)
        if where == "in":
            coords = [(lambda m, k=k, j=j: bary(m, k)[j], "%s of the barycentric coordinates (vertex %d)" % ("first law" if j == 0 else "second law", k)) for k in range(3) for j in range(2)]
        else:
            coords = [(place, "position along the boundary")]
    else:
        E = mkell(case["e"])
        obj = E.e
        if kind == "circle":
            obj, E.b, E.al = g.Circle(E.p, E.a), E.a, 0.0

        def rel(m):
            x = (m - E.c) * cmath.exp(-1j * E.al)
            return complex(x.real / E.a, x.imag / E.b)
        coords = [(lambda m: (cmath.phase(rel(m)) / (2 * pi)) % 1, "eccentric angle")]
        if where == "in":
            coords.append((lambda m: min(1.0, abs(rel(m)) ** 2), "squared relative distance to the centre"))
    pts, more = sample(obj, n, where), sample(obj, n, where)
    for f, what in coords:
        laws([f(m) for m in pts], [f(m) for m in more], what)
    for i in range(0, len(coords) - 1, 2):
        independent([coords[i][0](m) for m in pts], [coords[i + 1][0](m) for m in pts], coords[i][1] + " and " + coords[i + 1][1])


@check("C29", lambda G: G.obj(kind=G.one("circle", "ellipse", "triangle"), e=G.ellipse, T=G.triangle(), where=G.one("in", "on"), n=G.one(999, 1000, 1001, 1024, 2500, 5000, 10001, 20000)), n=40)
def many(case):
    """thousands of points in one call: the right number, all of them different, the last ones like the first ones"""
    kind, n, where = case["kind"], case["n"], case["where"]
    if kind == "triangle":
        obj, c = g.Triangle(*case["T"]), sum(C(p) for p in case["T"]) / 3
    else:
        E = mkell(case["e"])
        obj, c = (g.Circle(E.p, E.a) if kind == "circle" else E.e), E.c
    pts = sample(obj, n, where)
    require(len(set(pts)) == n, "%d repeated points among %d", n - len(set(pts)), n)
    label(kind, where)
    k = n // 3
    a, b = sorted((m - c).real + 0.37 * (m - c).imag for m in pts[:k]), sorted((m - c).real + 0.37 * (m - c).imag for m in pts[-k:])
    # two-sample Kolmogorov-Smirnov, false alarms below 1e-12
    i = j = 0
    D = 0
    while i < k and j < k:
        if a[i] <= b[j]:
            i += 1
        else:
            j += 1
        D = max(D, abs(i - j))
    require(D / k < 5.5 / sqrt(k), "the first and the last points of one call do not have the same law (%s, %s, n=%d)", kind, where, n)


@check("C29", lambda G: G.obj(kind=G.one("circle", "ellipse", "triangle"), n=G.one(0, -3, 2.0, 2.5, "3", None), where=G.one("out", "IN", "", "inside", None)), n=100)
def bad_arguments(case):
    """n_points must be a positive integer, where must be "in" or "on": ValueError otherwise"""
    obj = {"circle": lambda: g.Circle((1, 2), 3), "ellipse": lambda: g.Ellipse((1, 2), 3, 2, 30), "triangle": lambda: g.Triangle((0, 0), (1, 0), (0, 1))}[case["kind"]]()
    expect_value_error(lambda: obj.random_points(case["n"]), "random_points(%r)" % (case["n"],))
    expect_value_error(lambda: obj.random_points(5, case["where"]), "random_points(5, %r)" % (case["where"],))


# ------------------------------------------------------------------ C30
def jiggle(kind, d, e):
    """point data away from round numbers: tiny or huge coordinates, all bits used"""
    if not e:
        return d
    f = lambda p: [x * e[0] + e[1] * (i + 1) for i, x in enumerate(p)]
    if kind in ("P", "V"):
        return f(d)
    if kind in ("PS", "T", "PA"):
        return [f(p) for p in d]
    if kind in ("L", "RE"):
        return [f(d[0]), [x * abs(e[0]) for x in d[1]]] + list(d[2:])
    if kind in ("C", "E", "I", "RO", "SH", "SX", "HO", "SC", "AR"):
        return [f(d[0])] + list(d[1:])
    return d


def s_jiggle(G):
    return G.one([1.1, 1 / 3.0], [1, 1e-9], [0, 1e-7], None, [1e5, 0.1], [1e-3, 1e-12])


def settings():
    """the global settings of numpy that prints depend on"""
    return repr(np.array([1 / 3.0, 1e-20, 123456.789])) + repr(np.arange(1200.0)) + repr(np.array([[1e9, 1], [1e-9, np.inf]]))


def spoil(x, depth=0):
    """what a caller may do to a returned list, dict or array"""
    if isinstance(x, dict):
        for v in x.values():
            spoil(v, depth + 1)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v, depth + 1)
        del x[:]
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fci":
        x[...] = 77


FAILING = [None, "x", [1, 2, 3], -1, [[1, 2], [3]], {"a": 1}, [1 + 1j, 2]]


@check("C30", lambda G: G.obj(calls=G.lst(api.calls(G), 2, 7), k=G.form, rnd=G.integer(0, 4), bad=G.mix(G.one(None), G.tup(G.integer(0, 6), G.integer(0, 6))), e=s_jiggle(G)), n=3000)
def history(case):
    """no call, even one that fails, changes its receiver, its arguments or numpy's settings, and a call gives the same result before, inside and after any history"""
    t = api.table()
    pool, live, runs = {}, [], []
    for c in case["calls"]:
        kinds, fn = t[c["call"]]
        args = []
        try:
            for i, (kd, d) in enumerate(zip(kinds, c["args"])):
                kd = kd.rstrip("!")
                if i == 0 and "." in c["call"] and kd in pool:
                    args.append(pool[kd])                 # the receiver is shared by the whole history
                    label("shared receiver")
                    continue
                x = api.make(kd, jiggle(kd, d, case["e"]), case["k"] if kd != "PS" else 2)
                pool.setdefault(kd, x)
                args.append(x)
        except ValueError:
            continue
        runs.append((c["call"], fn, args))
        live.extend((c["call"], kd, x) for kd, x in zip(kinds, args))
    if len(runs) < 2:
        skip("less than two valid calls")
    first = [api.freeze(x) for _, _, x in live]
    res, given = [], []
    np.set_printoptions(precision=8, threshold=1000, edgeitems=3, linewidth=75, suppress=False, sign="-", floatmode="maxprec")
    del api.SETTINGS[:]
    was = settings()

    def one(i, when):
        name, fn, args = runs[i]
        r = api.outcome(fn, *args)
        o = api.freeze(r)
        given.append((name, r, o))
        for (n0, kd, x), s in zip(live, first):
            if api.freeze(x) != s:
                fail("%s changed an object (%s, argument of %s) %s:\n  before %s\n  after  %s", name, kd, n0, when, s, api.freeze(x))
        return o

    for i in range(len(runs)):
        if case["rnd"]:
            w = ("in", "on")[i % 2]
            o = [g.Circle((0, 0), 1), g.Ellipse((1, 2), 3, 2, 20), g.Triangle((0, 0), (3, 1), (1, 2))][case["rnd"] % 3]
            o.random_points(case["rnd"] + 1, w)
        if case["bad"]:
            name, fn, args = runs[i]
            j = case["bad"][0] % len(args)
            if j or "." not in name:
                label("a failing call")
                api.outcome(fn, *(args[:j] + [FAILING[case["bad"][1]]] + args[j + 1:]))
        np.random.seed(7)
        res.append(one(i, "in the history"))
    for i in reversed(range(len(runs))):
        np.random.seed(7)
        o = one(i, "when replayed")
        if o != res[i]:
            fail("%s gives another result after the history:\n  first %s\n  then  %s", runs[i][0], res[i], o)
    for name, r, o in given:
        require(api.freeze(r) == o, "the result of %s was changed by later calls:\n  %s\n  %s", name, o, api.freeze(r))
    now = settings()
    require(now == was, "the way numpy prints arrays changed: %s / %s", was, now)
    require(not api.SETTINGS, "a call changed a global setting: %s", api.SETTINGS)
    for r in res:
        label("exception" if r[1] == "exc" else "value")


@check("C30", lambda G: G.obj(c=api.calls(G, _names(lambda n: not n.endswith((".show", ".__str__")))), e=s_jiggle(G)), n=12000)
def repeat(case):
    """the same call on equal, freshly built objects gives the same result, whatever was computed before"""
    c = case["c"]
    kinds, fn = api.table()[c["call"]]
    try:
        A, B = [[api.make(kd, jiggle(kd.rstrip("!"), d, case["e"]), 2) for kd, d in zip(kinds, c["args"])] for _ in "ab"]
    except ValueError:
        skip("degenerate arguments")
    before = [api.freeze(x) for x in A]
    np.random.seed(3)
    a1 = api.freeze(api.outcome(fn, *A))
    np.random.seed(3)
    a2 = api.freeze(api.outcome(fn, *A))
    s1 = np.random.get_state()
    np.random.seed(11)
    api.outcome(fn, *B)
    s2 = np.random.get_state()
    require(s1[2] != s2[2] or not np.array_equal(s1[1], s2[1]), "%s resets the global random generator", c["call"])
    np.random.seed(3)
    b = api.freeze(api.outcome(fn, *B))
    require(a1 == a2, "%s called twice:\n  %s\n  %s", c["call"], a1, a2)
    require(a1 == b, "%s on equal objects:\n  %s\n  %s", c["call"], a1, b)
    after = [api.freeze(x) for x in A]
    require(before == after, "%s changed its arguments:\n  %s\n  %s", c["call"], before, after)
    label(a1[1], c["call"], "jiggle %s" % (case["e"],))


RANDOM_SHAPES = [lambda n, w: g.Circle((1, 2), 3).random_points(n, w), lambda n, w: g.Ellipse((1, 2), 3, 2, 30).random_points(n, w), lambda n, w: g.Triangle((0, 0), (3, 1), (1, 2)).random_points(n, w)]


@check("C30", lambda G: G.obj(k=G.integer(0, 2), n=G.integer(1, 40), w=G.one("in", "on"), a=G.integer(0, 99)), n=200)
def random_state(case):
    """random_points does not reset the global random generator either"""
    S = []
    for s in (case["a"], case["a"] + 1):
        np.random.seed(s)
        RANDOM_SHAPES[case["k"]](case["n"], case["w"])
        S.append(np.random.get_state())
    require(S[0][2] != S[1][2] or not np.array_equal(S[0][1], S[1][1]), "random_points resets the global random generator")


@check("C30", lambda G: G.obj(c=api.calls(G, _names(lambda n: not n.endswith((".show", ".__str__")))), e=s_jiggle(G)), n=3000)
def spoiled(case):
    """what the caller does to a returned list, dict or array does not change later results"""
    c = case["c"]
    kinds, fn = api.table()[c["call"]]
    try:
        A, B = [[api.make(kd, jiggle(kd.rstrip("!"), d, case["e"]), 2) for kd, d in zip(kinds, c["args"])] for _ in "ab"]
    except ValueError:
        skip("degenerate arguments")
    np.random.seed(3)
    r = api.outcome(fn, *A)
    if r[0] == "exc" or not isinstance(r[1], (list, dict, np.ndarray, tuple)):
        trivial()
        return
    a1 = api.freeze(r)
    before = api.freeze(A)
    if isinstance(r[1], tuple):
        for x in r[1]:
            spoil(x)
    else:
        spoil(r[1])
    label(c["call"])
    require(api.freeze(A) == before, "changing the result of %s changes its arguments", c["call"])
    for args, w in ((A, "the same"), (B, "equal")):
        np.random.seed(3)
        a2 = api.freeze(api.outcome(fn, *args))
        require(a1 == a2, "%s on %s objects, after its first result was changed:\n  %s\n  %s", c["call"], w, a1, a2)


# ------------------------------------------------------------------ C31
def decode(x):
    """markers for values JSON lacks"""
    if isinstance(x, dict) and "!" in x:
        k = x["!"]
        if k == "complex":
            return 1 + 2j
        if k == "cpoint":
            return [1 + 1j, 2]
        if k == "cpoint2":
            return [1, 2 + 1j]
        if k == "array2":
            return np.array([[1.0, 2.0], [3.0, 4.0]])
        if k == "array3":
            return np.array([1.0, 2.0, 3.0])
        if k == "npbool":
            return np.bool_(True)
        if k == "line":
            return g.Line((0, 0), (1, 2))
        if k == "circle":
            return g.Circle((0, 0), 2)
        if k == "ellipse":
            return g.Ellipse((0, 0), 3, 2, 20)
        if k == "triangle":
            return g.Triangle((0, 0), (1, 0), (0, 1))
        if k == "inversion":
            return g.Inversion((0, 0), 2)
    return x


BAD = {
    "P": [None, 5, "ab", "12", [1], [1, 2, 3], [], ["a", "b"], [1, "2"], [None, 1], {"x": 1}, {"!": "cpoint"}, {"!": "cpoint2"}, {"!": "array2"}, {"!": "array3"}, {"!": "circle"}, [[1, 2], [3, 4]], {"!": "complex"}],
    "X": [None, "1", [1], [1, 2], {"x": 1}, {"!": "complex"}, {"!": "circle"}],
    "R": [None, "1", [1], {"!": "complex"}, 0, -1, -0.5, 0.0],
    "B": [None, 0, 1, "True", 2.5, [True]],
    "K": [2.5, 0, -2, "3", None, 4.0],
    "O": [None, 3, "x", [1, 2], {"!": "triangle"}],
}
BAD["V"], BAD["A"] = BAD["P"], BAD["X"]
BAD["XA"] = BAD["X"] + [90, -90, 100, -1000]
OBJ = {"L": ["circle", "ellipse", "inversion"], "C": ["line", "ellipse", "inversion"], "E": ["line", "inversion"], "I": ["line", "circle", "ellipse"], "GC": ["ellipse", "inversion"], "PL": ["circle", "ellipse"]}


def bads(kind):
    if kind in OBJ:
        r = BAD["O"] + [{"!": k} for k in OBJ[kind]]
        return [x for x in r if not (kind == "PL" and x is None)]
    return BAD[kind]


# inf is an accepted "point" of some calls, but none of the bad values is inf
def _c31(G):
    from hypothesis import strategies as st
    t = api.table()
    alts = []
    for n in sorted(t):
        for i, k in enumerate(t[n][0]):
            if k.endswith("!"):
                alts.append((n, i, k[:-1]))
    # every validated argument position, uniformly; then a bad value for it
    return st.sampled_from(alts).flatmap(lambda a: st.tuples(
        st.tuples(*[api.strat(G, k.rstrip("!")) for k in t[a[0]][0]]).map(list), G.one(*bads(a[2]))).map(
            lambda x: {"call": a[0], "i": a[1], "kind": a[2], "args": x[0], "bad": x[1]}))


@check("C31", _c31, n=4000)
def wrong_kind(case):
    """a point, number, length, flag or object argument of a wrong kind raises ValueError"""
    kinds, fn = api.table()[case["call"]]
    try:
        args = [api.make(k, d, 0) for k, d in zip(kinds, case["args"])]
    except ValueError:
        skip("degenerate arguments")
    if case["call"] == "Line.includes" and case["i"] == 3:
        args[2] = True
    args[case["i"]] = decode(case["bad"])
    label("kind " + case["kind"], case["call"])
    expect_value_error(lambda: fn(*args), "%s with %s as argument %d" % (case["call"], show(args[case["i"]]), case["i"]))


@check("C31", lambda G: G.obj(p=G.pt(6), q=G.pt(6), r=G.grid(0.25, 6, 4), what=G.one("line", "circleAB", "circleOA", "in_circle", "affine", "five", "rotate", "cross", "where"), m=G.one([[1, 2]], [[1, 2, 3, 4]], [[1], [2], [3], [4]], [[[1, 2], [3, 4]]], [1, 2, 3, 4], [[1, 2, 3], [4, 5, 6]], 5, [[1, 2], [3, 4], [5, 6]])), n=500)
def wrong_value(case):
    """coinciding points, a matrix of a wrong shape, wrong batches of points raise ValueError"""
    p, q, w = case["p"], case["q"], case["what"]
    label(w)
    if w == "line":
        expect_value_error(lambda: g.Line(p, list(p)), "Line(A, A)")
    elif w == "circleAB":
        expect_value_error(lambda: g.circleAB(p, tuple(p)), "circleAB(A, A)")
    elif w == "circleOA":
        expect_value_error(lambda: g.circleOA(p, tuple(p)), "circleOA(A, A)")
    elif w == "in_circle":
        c = g.Circle(p, case["r"])
        x = [p[0] + case["r"] / 4, p[1]]
        expect_value_error(lambda: c.orthogonal_through_two_points_in_circle(x, list(x)), "orthogonal_through_two_points_in_circle(P, P)")
    elif w == "affine":
        expect_value_error(lambda: g.Affine(case["m"], p), "Affine(%s, b)" % (case["m"],))
    elif w == "five":
        expect_value_error(lambda: g.Ellipse.from_five_points((0, 0), (1, 0), (0, 1), (3, 4), (0, 1)), "from_five_points with a repeated point")
    elif w == "cross":
        expect_value_error(lambda: g.cross_ratio(p, [p[0] + 1, p[1]], p, [p[0], p[1] + 1]), "cross_ratio with a repeated point")
    else:
        for T in (g.Rotation(p, 30), g.Homothety(p, 2), g.ScalingXY(p, 2, 3), g.Scaling(p, (1, 2), 2), g.Shear(p, (1, 2), 1, 30)):
            for bad in ([[1, 2, 3], [4, 5, 6]], "abc", [[1], [2]], [[[1, 2]]], ["a", "b"], [1, 2, 3]):
                expect_value_error(lambda: T.transform(bad), "%s.transform(%r)" % (type(T).__name__, bad))


@check("C31", lambda G: G.obj(what=G.one("shear", "shear_rad", "in_circle", "power", "where", "matrix", "unimodular", "radius", "count", "chain", "cross", "five"),
                              s=G.boolean, x=G.mix(G.integer(0, 12), G.grid(0, 400, 64), G.grid(0, 1, 1024)), p=G.pt(6), q=G.ipt(5), r=G.grid(0.25, 6, 4), al=G.angle(), k=G.integer(-6, 6), i=G.integer(0, 4), j=G.integer(0, 3)), n=2500)
def out_of_range(case):
    """values just or far outside the documented range raise ValueError, values just inside are accepted"""
    w, p, x, r, s = case["what"], case["p"], case["x"], case["r"], 1 if case["s"] else -1
    label(w)
    al = math.radians(case["al"])
    if w == "shear":
        a = s * (90 + x)
        expect_value_error(lambda: g.Shear(p, (1, 2), r, a), "Shear of angle %s degrees" % (a,))
        b = s * (90 - min(max(x, 0.0625), 89))
        require(isinstance(g.Shear(p, (1, 2), r, b), g.Shear), "Shear of angle %s degrees is not built", b)
    elif w == "shear_rad":
        a = s * (pi / 2 + x / 40)
        expect_value_error(lambda: g.Shear(p, (1, 2), r, a, False), "Shear of angle %s radians" % (a,))
        b = s * (pi / 2 - min(max(x / 40, 0.001), 1.5))
        require(isinstance(g.Shear(p, (1, 2), r, b, False), g.Shear), "Shear of angle %s radians is not built", b)
    elif w == "in_circle":
        c = g.Circle(p, r)
        u = cmath.exp(1j * al)
        bad = gpt(C(p) + r * (1.0009765625 + x) * u)
        good = gpt(C(p) + r * 0.5 * u * 1j)
        P = (bad, good) if case["s"] else (good, bad)
        for f in (False, True):
            expect_value_error(lambda: c.orthogonal_through_two_points_in_circle(P[0], P[1], f), "orthogonal_through_two_points_in_circle with a point outside the circle")
        # a point on the circle is not in its interior (exact coordinates), aligned with the center and the other point or not
        o, n = case["q"], 2 + case["i"]
        on = [[o[0] + n, o[1]], [o[0] - n, o[1]], [o[0], o[1] + n], [o[0], o[1] - n]][case["j"]]
        for good in ([(o[0] + on[0]) / 2, (o[1] + on[1]) / 2], [o[0] - 0.5, o[1] + 0.25], list(o), [o[0] + (o[0] - on[0]) / 4, o[1] + (o[1] - on[1]) / 4]):
            P = (on, good) if case["s"] else (good, on)
            for f in (False, True):
                expect_value_error(lambda: g.Circle(o, n).orthogonal_through_two_points_in_circle(P[0], P[1], f), "orthogonal_through_two_points_in_circle with a point on the circle")
    elif w == "power":
        M = g.Mobius([[2, 1], [case["k"], 3]])
        t = case["k"] + min(max(x % 1, 0.0625), 0.9375)
        expect_value_error(lambda: M.power(t), "Mobius.power(%s)" % (t,))
    elif w == "where":
        for obj in (g.Circle(p, r), g.Ellipse(p, 2 * r, r, case["al"]), g.Triangle(p, [p[0] + r, p[1]], [p[0], p[1] + r])):
            for bad in ("inside", "IN", "On", "", "i", "int", "out", None, True, 1):
                expect_value_error(lambda: obj.random_points(3, bad), "%s.random_points(3, %r)" % (type(obj).__name__, bad))
    elif w == "matrix":
        a, b = r, -(x + 0.0625)
        if case["s"]:
            a = -r
        q, t = math.cos(al), math.sin(al)
        S = [[a * q * q + b * t * t, (a - b) * q * t], [(a - b) * q * t, a * t * t + b * q * q]]
        expect_value_error(lambda: g.Ellipse.from_center_and_matrix(p, np.array(S)), "from_center_and_matrix with eigenvalues %s, %s" % (a, b))
        for S in ([[r, 0.0], [0.0, 0.0]], [[0.0, 0.0], [0.0, r]], [[0.0, 0.0], [0.0, 0.0]]):
            expect_value_error(lambda: g.Ellipse.from_center_and_matrix(p, np.array(S)), "from_center_and_matrix with %s" % (S,))
    elif w == "unimodular":
        for bad in (-abs(case["k"]), 0, case["k"] + 0.5, float(abs(case["k"]) + 1), "3", None):
            expect_value_error(lambda: g.unimodular_matrices(bad), "unimodular_matrices(%r)" % (bad,))
    elif w == "radius":
        bad = [-x, 0, -r][case["i"] % 3]
        expect_value_error(lambda: g.Circle(p, bad), "Circle of radius %s" % (bad,))
        expect_value_error(lambda: g.Arc(p, bad, 0, 90), "Arc of radius %s" % (bad,))
        expect_value_error(lambda: g.Ellipse(p, bad, r, 10), "Ellipse of radii %s, %s" % (bad, r))
        expect_value_error(lambda: g.Ellipse(p, r, bad, 10), "Ellipse of radii %s, %s" % (r, bad))
    elif w == "count":
        for bad in (-abs(case["k"]), 0, case["k"] + 0.5, float(abs(case["k"]) + 1)):
            E = g.Ellipse(p, 2 * r, r, case["al"])
            for obj in (g.Circle(p, r), E, g.Triangle(p, [p[0] + r, p[1]], [p[0], p[1] + r])):
                expect_value_error(lambda: obj.random_points(bad), "%s.random_points(%r)" % (type(obj).__name__, bad))
                expect_value_error(lambda: obj.random_points(bad, "on"), "%s.random_points(%r, 'on')" % (type(obj).__name__, bad))
            expect_value_error(lambda: E.path(bad), "Ellipse.path(%r)" % (bad,))
            expect_value_error(lambda: g.Arc(p, r, 0, 90).path(bad), "Arc.path(%r)" % (bad,))
    elif w == "chain":
        for bad in (-abs(case["k"]), 0, case["k"] + 0.5, float(abs(case["k"]) + 3), "3", None):
            expect_value_error(lambda: g.SteinerChain(g.Circle(p, r), bad, 0.25, 0), "SteinerChain of %r circles" % (bad,))
    else:
        # two equal points, in any two places and any container
        n = 4 if w == "cross" else 5
        z = [gpt(C(p) + (1 + r) * cmath.exp(1j * (al + 1.1 * k))) for k in range(n)]
        i, j = case["i"] % n, case["j"] % n
        if i == j:
            j = (i + 1) % n
        z[j] = form(z[i], case["k"] % 4)
        if w == "cross":
            expect_value_error(lambda: g.cross_ratio(*z), "cross_ratio with points %d and %d equal" % (i, j))
        else:
            expect_value_error(lambda: g.Ellipse.from_five_points(*z), "from_five_points with points %d and %d equal" % (i, j))
            expect_value_error(lambda: g.Ellipse.equation_from_five_points(*z), "equation_from_five_points with points %d and %d equal" % (i, j))


# ------------------------------------------------------------------ C32
# argument codes: the kind, then how a similarity acts on plain numbers:
#   r length   - unchanged   d direction angle (degrees)   2 squared length
EQUI = {
    "Line.projection": "L P", "Line.distance": "L P", "Line.reflection": "L P", "Line.rotate": "L -A P", "Line.translate": "L V", "Line.includes": "L P -B -B",
    "Line.invert": "L I", "Line.intersection_with_circle": "L C", "Line.intersection_with_ellipse": "L E", "Line.intersection_with_line": "L L -B",
    "Line.perpendicular": "L P -B -B", "Line.is_equal": "L L", "Line.is_parallel": "L L", "Line.is_perpendicular": "L L", "intersection_line_line": "L L -B",
    "Circle.is_equal": "C C", "Circle.includes": "C P", "Circle.contains": "C P", "Circle.point_from_angle": "C dA",
    "Circle.orthogonal_through_two_points_in_circle": "C P P -B", "Circle.orthogonal_through_two_points_on_circle": "C rA rA -B",
    "Circle.power": "C P", "Circle.radical_center": "C C", "Circle.radical_axis": "C C", "Circle.intersection_with_line": "C L", "Circle.intersection_with_circle": "C C",
    "Circle.is_orthogonal": "C C", "Circle.angle": "C C", "circleAB": "P P", "circleOA": "P P", "radical_center": "C C C", "mid_circles": "C C",
    "intersection_ellipse_line": "E L", "Ellipse.is_equal": "E E", "Ellipse.point_from_angle": "E -A -B", "Ellipse.includes": "E P", "Ellipse.contains": "E P",
    "Ellipse.theta2t": "E -A -B", "Ellipse.diameter": "E -X -B", "Ellipse.from_five_points": "P P P P P", "Ellipse.LownerJohnEllipse": "PS",
    "Ellipse.path": "E -K", "Arc.path": "AR -K",
    "Inversion.invert": "I P", "Inversion.invert_circle": "I C", "Inversion.invert_line": "I L", "Inversion.on_circle": "C",
    "Inversion.from_swapping_two_circles": "C C -B", "Inversion.from_fixing_two_circles": "C C", "Inversion.from_fixing_three_circles": "C C C",
    "Triangle.flatness": "T", "Triangle.a": "T", "Triangle.b": "T", "Triangle.c": "T", "Triangle.edges": "T", "Triangle.orientation": "T", "Triangle.is_acute": "T",
    "Triangle.angleA": "T", "Triangle.angleB": "T", "Triangle.angleC": "T", "Triangle.incircle": "T", "Triangle.circumcircle": "T", "Triangle.excircles": "T",
    "Triangle.orthic_triangle": "T", "Triangle.malfatti_circles": "T", "Triangle.equal_detour_point": "T", "Triangle.steiner_ellipse": "T",
    "Triangle.steiner_inellipse": "T", "Triangle.contains": "T P", "cross_ratio": "P P P P",
    "Reflection.transform": "RE P", "Projection.project": "PR P", "Rotation.rotate": "RO P", "Homothety.transform": "HO P", "Scaling.transform": "SC P", "Shear.transform": "SH P",
    "Rotation.rotate_ellipse": "RO E", "Scaling.scale_circle": "SC C",
}
DEGREE = {"Line.distance": 1, "Circle.power": 2, "Triangle.a": 1, "Triangle.b": 1, "Triangle.c": 1, "Triangle.edges": 1, "Triangle.equal_detour_point": 1}


class Sim(object):
    """z -> s * i^k * z + t, exact on the generated numbers"""

    def __init__(self, d):
        self.s, self.k, self.t = d["s"], d["k"], C(d["t"])
        self.lin = self.s * [1, 1j, -1, -1j][self.k]

    def pt(self, p):
        z = self.lin * C(p) + self.t
        return [z.real, z.imag]

    def vec(self, p):
        z = self.lin * C(p)
        return [z.real, z.imag]

    def arg(self, code, d):
        if code in ("P",):
            return self.pt(d)
        if code == "V":
            return self.vec(d)
        if code[0] == "-":
            return d
        if code == "dA":
            return d + 90 * self.k
        if code == "rA":
            return d + pi / 2 * self.k
        if code in ("L", "RE"):
            return [self.pt(d[0]), self.vec(d[1]), d[2], d[3]]
        if code == "C":
            return [self.pt(d[0]), self.s * d[1]]
        if code == "E":
            return [self.pt(d[0]), self.s * d[1], self.s * d[2], d[3] + 90 * self.k, d[4]]
        if code == "I":
            return [self.pt(d[0]), self.s ** 2 * d[1]]
        if code in ("T", "PS"):
            return [self.pt(p) for p in d]
        if code == "AR":
            return [self.pt(d[0]), self.s * d[1], d[2] + 90 * self.k, d[3] + 90 * self.k]
        if code in ("RO", "HO"):
            return [self.pt(d[0]), d[1]]
        if code == "SC":
            return [self.pt(d[0]), self.vec(d[1]), d[2]]
        if code == "SH":
            return [self.pt(d[0]), self.vec(d[1]), d[2], d[3]]
        if code == "PR":
            return [self.arg("L", d[0]), None if d[1] is None else self.arg("L", d[1])]
        raise AssertionError(code)

    def z(self, w):
        return self.lin * w + self.t

    def inverse(self):
        t = -self.t / self.lin
        return Sim({"s": 1 / self.s, "k": -self.k % 4, "t": [t.real, t.imag]})


IDSIM = Sim({"s": 1, "k": 0, "t": [0, 0]})


def flat(T):
    """vertices equal, or nearly aligned"""
    z = [C(x) for x in T]
    L = max(abs(z[i] - z[i - 1]) for i in range(3))
    D = abs(cross(z[1] - z[0], z[2] - z[0]))
    return D < 0.02 * L * L or min(abs(z[i] - z[i - 1]) for i in range(3)) == 0


def on_boundary(name, a):
    """Boolean answers flip by rounding on the boundary"""
    if name.endswith(".contains"):
        m = C(a[1])
        if name[0] == "T":
            z = [C(x) for x in a[0]]
            return min(abs(line_dist(z[i - 1], z[i], m)) for i in range(3)) < 1e-9
        if name[0] == "C":
            return abs(abs(m - C(a[0][0])) - a[0][1]) < 1e-9
        A, B = max(a[0][1:3]), min(a[0][1:3])
        return abs(ell_q(C(a[0][0]), A, B, math.radians(a[0][3]), m) - 1) < 1e-9
    if name == "Triangle.is_acute":
        z = [C(x) for x in a[0]]
        return min(abs(dot(z[i] - z[i - 1], z[i] - z[i - 2])) for i in range(3)) < 1e-9
    if name in ("Line.intersection_with_line", "intersection_line_line") and a[2]:
        (o, u), (q, v) = [(C(x[0]), C(x[1])) for x in a[:2]]
        D = cross(u, v)
        if abs(D) < 1e-9:
            return False
        t, r = cross(q - o, v) / D, cross(q - o, u) / D
        return min(abs(t), abs(t - 1), abs(r), abs(r - 1)) < 1e-9
    return False


def canon(x, S, deg):
    """result -> nested structure of the image under S; points as ('p', z)"""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, complex) and not isinstance(x, float):
        return ("n", complex(x))
    if isinstance(x, (int, float, np.number)):
        return ("n", complex(x) * S.s ** deg)
    if isinstance(x, np.ndarray):
        if x.ndim == 2:
            return ("list",) + tuple(("p", S.z(complex(*r))) for r in x.tolist())
        if x.shape == (2,):
            return ("p", S.z(complex(*x.tolist())))
        return ("list",) + tuple(("n", complex(v)) for v in x.ravel().tolist())
    if isinstance(x, g.Line):
        return ("line", S.z(C(x.A)), S.z(C(x.B)), bool(x.extendA), bool(x.extendB))
    if isinstance(x, g.Circle):
        return ("circle", S.z(C(x.center)), S.s * x.radius)
    if isinstance(x, g.Arc):
        u = pi / 180 if x.degrees else 1
        c = C(x.center)
        return ("arc", S.z(c), S.s * x.radius, S.z(c + x.radius * cmath.exp(1j * u * x.alpha1)), S.z(c + x.radius * cmath.exp(1j * u * x.alpha2)))
    if isinstance(x, g.Ellipse):
        al = math.radians(x.alpha) if x.degrees else x.alpha
        return ("ellipse", S.z(C(x.center)), S.s * x.rmajor, S.s * x.rminor, al + cmath.phase(S.lin))
    if isinstance(x, g.Inversion):
        return ("inversion", S.z(C(x.pole)), S.s ** 2 * x.power)
    if isinstance(x, g.Reflection):
        return ("reflection", canon(x.line, S, 0))
    if isinstance(x, g.Triangle):
        return ("triangle", ("p", S.z(C(x.A))), ("p", S.z(C(x.B))), ("p", S.z(C(x.C))))
    if isinstance(x, dict) and set(x) == {"direction", "offset"}:
        return ("n", x["offset"] * cmath.exp(1j * x["direction"]))
    if isinstance(x, dict):
        return ("dict",) + tuple((k, canon(v, S, deg)) for k, v in sorted(x.items()))
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and all(isinstance(v, (int, float)) for v in x):
            return ("p", S.z(complex(*x)))
        return ("list",) + tuple(canon(v, S, deg) for v in x)
    raise AssertionError(type(x).__name__)


def same(a, b, tol):
    """canonical structures; lines as point sets (and flags), lists as sets"""
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return a == b
    if a[0] != b[0]:
        return False
    k = a[0]
    if k in ("p", "n"):
        if cmath.isinf(a[1]) or cmath.isinf(b[1]):
            return a[1] == b[1] or abs(a[1]) > 1e9 and abs(b[1]) > 1e9
        return abs(a[1] - b[1]) <= tol * (1 + abs(a[1]))
    if k == "line":
        if a[3:] != b[3:] and (a[3], a[4]) != (b[4], b[3]):
            return False
        t = tol * (1 + abs(a[1]))
        if not (a[3] and a[4]):
            return (abs(a[1] - b[1]) <= t and abs(a[2] - b[2]) <= t and a[3:] == b[3:]) or (abs(a[1] - b[2]) <= t and abs(a[2] - b[1]) <= t and a[3:] == (b[4], b[3]))
        d = abs(a[2] - a[1])
        return abs(line_dist(a[1], a[2], b[1])) <= t * (1 + abs(b[1] - a[1]) / d) and abs(line_dist(a[1], a[2], b[2])) <= t * (1 + abs(b[2] - a[1]) / d)
    if k == "circle":
        t = tol * (1 + abs(a[1]) + a[2])
        return abs(a[1] - b[1]) <= t and abs(a[2] - b[2]) <= t
    if k == "arc":
        t = tol * (1 + abs(a[1]) + a[2])
        return all(abs(x - y) <= t for x, y in zip(a[1:], b[1:]))
    if k == "ellipse":
        t = tol * (1 + abs(a[1]) + a[2])
        if abs(a[1] - b[1]) > t or abs(a[2] - b[2]) > t or abs(a[3] - b[3]) > t:
            return False
        return abs(sin(a[4] - b[4])) * (a[2] - a[3]) <= t * 3
    if k == "inversion":
        return abs(a[1] - b[1]) <= tol * (1 + abs(a[1])) and abs(a[2] - b[2]) <= tol * (1 + abs(a[2]))
    if k == "reflection":
        return same(a[1], b[1], tol)
    if len(a) != len(b):
        return False
    if k == "dict":
        return all(x[0] == y[0] and same(x[1], y[1], tol) for x, y in zip(a[1:], b[1:]))
    rest = list(b[1:])
    for x in a[1:]:
        for j, y in enumerate(rest):
            if same(x, y, tol):
                rest.pop(j)
                break
        else:
            return False
    return True


def finite(c):
    if isinstance(c, complex):
        return not (cmath.isnan(c) or cmath.isinf(c)) and abs(c) < 1e6
    if isinstance(c, float):
        return c == c and abs(c) < 1e6
    if isinstance(c, tuple):
        return all(finite(x) for x in c)
    return True


def smallest(c):
    """smallest radius in a result (tiny circles and semi-axes are ill-conditioned)"""
    if isinstance(c, tuple):
        if c and c[0] == "circle":
            return c[2]
        if c and c[0] == "ellipse":
            return c[3]
        return min([smallest(x) for x in c] + [1e9])
    return 1e9


@check("C32", lambda G: G.obj(c=api.calls(G, EQUI), S=G.obj(s=G.one(1, 2, 4, 0.5, 0.25, 0.0625, 16, 64, 0.00390625, 2.0 ** -10, 2.0 ** -13, 2.0 ** 13), k=G.integer(0, 3), t=G.mix(G.one([0, 0]), G.ipt(16)))), n=6000)
def equivariance(case):
    """moving the whole configuration by a similarity moves the result likewise"""
    c = case["c"]
    kinds, fn = api.table()[c["call"]]
    S = case["S"]
    S = Sim(dict(S, t=[x * min(1, S["s"]) for x in S["t"]]))
    codes = EQUI[c["call"]].split()
    if c["call"].endswith("two_points_on_circle") and abs(sin((c["args"][1] - c["args"][2]) / 2.0)) < 0.01:
        skip("equal points")
    if codes[0] == "PR" and c["args"][0][1] is not None and cross(C(c["args"][0][0][1]), C(c["args"][0][1][1])) == 0:
        skip("directrix parallel to the line")
    if codes[0] == "T" and flat(c["args"][0]):
        skip("flat triangle")
    if codes[0] == "AR" and abs(sin(math.radians(c["args"][0][3] - c["args"][0][2]) / 2)) < 1e-6:
        skip("arc from a point to itself")
    if on_boundary(c["call"], c["args"]):
        skip("on the boundary")
    try:
        A = [api.make(k, d, 2) for k, d in zip(kinds, c["args"])]
        B = [api.make(k, S.arg(code, d), 2) for k, code, d in zip(kinds, codes, c["args"])]
    except ValueError:
        skip("degenerate arguments")
    np.random.seed(5)
    a = api.outcome(fn, *A)
    np.random.seed(5)
    b = api.outcome(fn, *B)
    for o in (a, b):
        if o[0] == "ok" and isinstance(o[1], g.Ellipse) and o[1].rminor < 1e-3 * o[1].rmajor:
            skip("nearly parabolic")
    if a[0] == "exc" and b[0] == "exc":
        label("both raise")
        require(a[1] == b[1], "%s raises %s, and %s after the similarity", c["call"], a[1], b[1])
        trivial()
        return
    if a[0] != b[0]:
        fail("%s: %s, but %s after the similarity", c["call"], show(a), show(b))
    deg = DEGREE.get(c["call"], 0)
    try:
        # compared at the larger of the two scales
        ca, cb = (canon(a[1], S, deg), canon(b[1], IDSIM, 0)) if S.s >= 1 else (canon(a[1], IDSIM, 0), canon(b[1], S.inverse(), deg))
    except (TypeError, ValueError) as e:
        fail("%s: result %s / %s cannot be read (%s)", c["call"], show(a), show(b), e)
    if not finite(ca) or smallest(ca) < 1e-3:
        skip("result too large or too small")
    label(c["call"])
    if not same(ca, cb, 1e-6):
        fail("%s: result %s is moved to %s, but the moved configuration gives %s", c["call"], show(a[1]), ca, cb)


@check("C32", lambda G: G.obj(c=api.calls(G, EQUI), t=G.tup(G.integer(-9, 9), G.integer(-9, 9)), e=G.one(9, 11, 13, 15)), n=2500)
def far_away(case):
    """the same configuration far from the origin: the same figure, up to rounding"""
    c = case["c"]
    if case["t"] == [0, 0]:
        skip("no translation")
    kinds, fn = api.table()[c["call"]]
    S = Sim(dict(s=1, k=0, t=[x * 2 ** case["e"] for x in case["t"]]))
    codes = EQUI[c["call"]].split()
    if c["call"].endswith("two_points_on_circle") and abs(sin((c["args"][1] - c["args"][2]) / 2.0)) < 0.01:
        skip("equal points")
    if codes[0] == "PR" and c["args"][0][1] is not None and cross(C(c["args"][0][0][1]), C(c["args"][0][1][1])) == 0:
        skip("directrix parallel to the line")
    if codes[0] == "T" and flat(c["args"][0]):
        skip("flat triangle")
    if codes[0] == "AR" and abs(sin(math.radians(c["args"][0][3] - c["args"][0][2]) / 2)) < 1e-6:
        skip("arc from a point to itself")
    if on_boundary(c["call"], c["args"]):
        skip("on the boundary")
    try:
        A = [api.make(k, d, 2) for k, d in zip(kinds, c["args"])]
    except ValueError:
        skip("degenerate arguments")
    B = [api.make(k, S.arg(code, d), 2) for k, code, d in zip(kinds, codes, c["args"])]
    np.random.seed(5)
    a = api.outcome(fn, *A)
    np.random.seed(5)
    b = api.outcome(fn, *B)
    if a[0] == "exc" and b[0] == "exc":
        trivial()
        return
    if a[0] != b[0]:
        fail("%s: %s, but %s after the translation", c["call"], show(a), show(b))
    ca, cb = canon(a[1], IDSIM, 0), canon(b[1], S.inverse(), 0)
    if not finite(ca):
        skip("result too large or too small")
    label(c["call"])
    if not same(ca, cb, max(1e-6, (1e-12 if "invert" in c["call"] else 1e-13) * abs(S.t) ** 2)):
        fail("%s: result %s is %s, but the translated configuration gives %s", c["call"], show(a[1]), ca, cb)


# ------------------------------------------------------------------ C33
@check("C33", lambda G: G.obj(c=G.pt(6), r=G.mix(G.integer(1, 6), G.grid(0.25, 6, 32)), a1=G.angle(), a2=G.angle(), deg=G.boolean, n=G.mix(G.integer(2, 9), G.one(100), G.one(50, 101, 2000)), fr=G.frame, k=G.form, default=G.boolean), n=2500)
def arc_path(case):
    """path(n): n equally spaced points of the circle from the starting to the ending point, counterclockwise"""
    fr = Frame(case["fr"])
    p, r = fr.pt(case["c"]), fr.len(case["r"])
    c = C(p)
    a1, a2 = fr.ang(case["a1"]), fr.ang(case["a2"])
    A = g.Arc(form(p, case["k"]), r, a1, a2) if case["deg"] and case["default"] else \
        g.Arc(form(p, case["k"]), r, a1 if case["deg"] else math.radians(a1), a2 if case["deg"] else math.radians(a2), case["deg"])
    n = case["n"]
    sweep = (a2 - a1) % 360
    sure = 1e-6 < sweep < 360 - 1e-6
    P = [C(x) for x in matrix(A.path() if n == 100 else A.path(n), n, 2, "path")]
    tol = 1e-9 * (abs(c) + r)
    e1, e2 = cmath.exp(1j * math.radians(a1)), cmath.exp(1j * math.radians(a2))
    near(pt(A.starting_point()), c + r * e1, tol, "starting point")
    near(pt(A.ending_point()), c + r * e2, tol, "ending point")
    near(P[0], c + r * e1, tol, "first point of the path")
    near(P[-1], c + r * e2, tol, "last point of the path")
    for z in P:
        near(abs(z - c), r, tol, "distance of a point of the path to the centre")
    if sure:
        for i, z in enumerate(P):
            near(z, c + r * e1 * cmath.exp(1j * math.radians(sweep) * i / (n - 1)), tol * 10, "point %d of the path" % i)
        label("sweep>180" if sweep > 180 else "sweep<180", "alpha2<alpha1" if a2 < a1 else "")
    else:
        label("zero sweep")
    require(len(A.path(1)) == 1, "path(1)")


# ------------------------------------------------------------------ C34
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def printed(obj):
    """text printed by obj.show() (sys.stdout is a StringIO in the worker)"""
    import io
    old, _sys.stdout = _sys.stdout, io.StringIO()
    try:
        r = obj.show()
        return r, _sys.stdout.getvalue()
    finally:
        _sys.stdout = old


@check("C34", lambda G: api.calls(G, _names(lambda n: n.endswith(".show"))), n=1500)
def show_str(case):
    """show() prints the defining data of every object (and nothing fails); str() lists its attributes"""
    kinds, fn = api.table()[case["call"]]
    kd, d = kinds[0], case["args"][0]
    try:
        o = api.make(kd, d, 2)
    except ValueError:
        skip("degenerate")
    if kd == "T" and any(d[i] == d[i - 1] for i in range(3)):
        skip("degenerate")
    label(kd)
    r, txt = printed(o)
    require(r is None, "show() returned %s", show(r))
    nums = [float(x) for x in NUM.findall(txt.replace("inf", ""))]
    want = []
    if kd == "L":
        want = [o.A[0], o.A[1], o.B[0], o.B[1]]
        low = txt.lower()
        kind = "infinite" if d[2] and d[3] else "segment" if not (d[2] or d[3]) else "half-line"
        require(kind in low and sum(k in low for k in ("infinite", "segment", "half-line")) == 1, "show() does not say it is a(n) %s: %r", kind, txt)
        if kind == "half-line":
            require(("origin a" in low) == (not d[2]), "wrong origin of the half-line: %r", txt)
    elif kd == "RE":
        want = list(o.line.A) + list(o.line.B)
    elif kd == "PR":
        want = list(o.D.A) + list(o.D.B) + list(o.Delta.A) + list(o.Delta.B)
        require(("orthogonal" in txt.lower()) == (d[1] is None), "show() about orthogonality: %r", txt)
    elif kd == "M":
        want = [v for z in o.M.ravel().tolist() for v in (z.real, z.imag)]
    elif kd == "F":
        want = o.A.ravel().tolist() + o.b.tolist()
    elif kd == "T":
        want = [v for p in (o.A, o.B, o.C) for v in p]
    else:
        for v in vars(o).values():
            if isinstance(v, bool):
                continue
            want += v.ravel().tolist() if isinstance(v, np.ndarray) else [v]
        if kd == "SH":
            x, y = o.vector
            want = list(o.vertex) + [x, y, -o.ratio * y, o.ratio * x, o.angle]
        if kd in ("E", "RO", "SH"):
            require(("degree" in txt) == bool(o.degrees) and ("radian" in txt) == (not o.degrees), "unit of the angle: %r", txt)
    for v in want:
        if not any(abs(x - float(v)) <= 1e-6 * (1 + abs(x)) for x in nums):
            fail("show() does not print %r: %r", float(v), txt)
    s = str(o)
    for k in vars(o):
        require(k in s, "str() does not mention %s: %r", k, s)


@check("C34", lambda G: G.obj(P=G.lst(G.tup(G.integer(-3, 3), G.integer(-3, 3)), 3, 3), a=G.angle(), b=G.angle(), r=G.grid(0.25, 6, 32), deg=G.boolean, f=G.form), n=800)
def flat_and_arcs(case):
    """show() of a triangle says that it is flat exactly when it is; str() of an arc mentions its data"""
    A, B, D = case["P"]
    if A != B and B != D and A != D:
        T = g.Triangle(*[form(p, case["f"]) for p in case["P"]])
        r, txt = printed(T)
        cr = (B[0] - A[0]) * (D[1] - A[1]) - (B[1] - A[1]) * (D[0] - A[0])
        d2 = ((B[0] - A[0]) ** 2 + (B[1] - A[1]) ** 2) * ((D[0] - A[0]) ** 2 + (D[1] - A[1]) ** 2)
        low = txt.lower()
        label("flat" if cr == 0 else "thin" if cr * cr < 0.02 * d2 else "not flat")
        if cr == 0:
            require("flat" in low and "almost" not in low and "not flat" not in low, "show() of a flat triangle: %r", txt)
        elif cr * cr > 0.02 * d2:
            require("is flat" not in low and "almost" not in low, "show() of a triangle that is not flat: %r", txt)
        else:
            require("is flat" not in low, "show() of a triangle that is not flat: %r", txt)
    X = g.Arc(form(A, case["f"]), case["r"], case["a"], case["b"], case["deg"])
    before = dict(vars(X), center=list(X.center))
    s = str(X)
    require(isinstance(s, str), "str() returned %s", show(s))
    nums = [float(x) for x in NUM.findall(s)]
    for v in list(A) + [case["r"], case["a"], case["b"]]:
        require(any(abs(x - float(v)) <= 1e-6 * (1 + abs(x)) for x in nums), "str() of an arc does not mention %r: %r", v, s)
    require(dict(vars(X), center=list(X.center)) == before, "str() modified the arc")


# ------------------------------------------------------------------ C35
def approx(a, b, tol=1e-9):
    """outcomes on the same data in other containers: same structure, same numbers"""
    if isinstance(a, (bool, str)) or a is None or isinstance(b, (bool, str)) or b is None:
        return a == b
    if isinstance(a, np.bool_) or isinstance(b, np.bool_):
        return bool(a) == bool(b)
    if isinstance(a, (int, float, complex, np.number)):
        if not isinstance(b, (int, float, complex, np.number)):
            return False
        x, y = complex(a), complex(b)
        if cmath.isnan(x) or cmath.isnan(y):
            return cmath.isnan(x) and cmath.isnan(y)
        if cmath.isinf(x) or cmath.isinf(y):
            return cmath.isinf(x) and cmath.isinf(y)
        return abs(x - y) <= tol * (1 + abs(x))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and all(approx(x, y, tol) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(approx(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(approx(x, y, tol) for x, y in zip(a, b))
    if hasattr(a, "__dict__"):
        return type(a) is type(b) and approx(vars(a), vars(b), tol)
    return a == b


@check("C35", lambda G: G.obj(c=api.calls(G, _names(lambda n: not n.endswith((".show", ".__str__")))), k=G.one(0, 1, 3, 4), mixed=G.boolean), n=6000)
def containers(case):
    """tuples, lists, float arrays, integer arrays and numpy scalars give the same result"""
    c = case["c"]
    kinds, fn = api.table()[c["call"]]
    try:
        A = [api.make(k, d, 2) for k, d in zip(kinds, c["args"])]
    except ValueError:
        skip("degenerate arguments")
    try:
        B = [api.make(k, d, case["k"] + (i if case["mixed"] else 0)) for i, (k, d) in enumerate(zip(kinds, c["args"]))]
    except Exception as e:
        fail("arguments of %s are accepted as float arrays but not in container form %d: %s: %s", c["call"], case["k"], type(e).__name__, e)
    np.random.seed(11)
    a = api.outcome(fn, *A)
    np.random.seed(11)
    b = api.outcome(fn, *B)
    if not approx(list(a), list(b)):
        fail("%s: %s with float arrays, %s with container form %d", c["call"], show(a), show(b), case["k"])
    label(("tuples", "lists", "", "arrays of the given type", "numpy scalars")[case["k"]], c["call"] if a[0] == "ok" else "exception")
    if a[0] == "exc":
        trivial()


# ------------------------------------------------------------------ C36
def swapL(x):
    return [[x[0][0] + x[1][0], x[0][1] + x[1][1]], [-x[1][0], -x[1][1]], x[3], x[2]]


SYM = {   # call -> which argument groups may be permuted
    "Line.is_equal": [[0, 1]], "Line.is_parallel": [[0, 1]], "Line.is_perpendicular": [[0, 1]], "Line.intersection_with_line": [[0, 1]], "intersection_line_line": [[0, 1]],
    "Circle.is_equal": [[0, 1]], "Circle.radical_center": [[0, 1]], "Circle.radical_axis": [[0, 1]], "Circle.intersection_with_circle": [[0, 1]], "Circle.is_orthogonal": [[0, 1]],
    "Circle.angle": [[0, 1]], "Circle.orthogonal_through_two_points_in_circle": [[1, 2]], "circleAB": [[0, 1]], "radical_center": [[0, 1, 2]], "mid_circles": [[0, 1]], "intersection_circle_circle": [[0, 1]],
    "Ellipse.is_equal": [[0, 1]], "Ellipse.from_five_points": [[0, 1, 2, 3, 4]], "Inversion.from_fixing_two_circles": [[0, 1]], "Inversion.from_fixing_three_circles": [[0, 1, 2]],
    "Inversion.from_swapping_two_circles": [[0, 1]],
}
# calls whose Line arguments may be given by their points in the other order
SWAP = ["Line.projection", "Line.distance", "Line.reflection", "Line.includes", "Line.invert", "Line.intersection_with_circle", "Line.intersection_with_ellipse", "Line.direction_offset",
        "Line.rotate", "Line.translate", "Line.intersection_with_line", "Line.is_equal", "Line.is_parallel", "Line.is_perpendicular", "Circle.intersection_with_line", "Ellipse.intersection_with_line",
        "Inversion.invert_line", "Affine.transform_line", "Mobius.transform_line", "Reflection.reflect_line", "Rotation.rotate_line"]
# triangle calls, any relabelling of the vertices
TRI = ["Triangle." + n for n in ("incircle", "circumcircle", "excircles", "orthic_triangle", "malfatti_circles", "equal_detour_point", "steiner_ellipse", "steiner_inellipse", "contains", "is_acute", "edges")]
# points mapped to points: the pairs may be listed in any order
MAP3 = ["Affine.from_mapping_three_points", "Mobius.from_mapping_three_points"]


def as_set(x):
    """dictionaries of results -> set of values"""
    if isinstance(x, dict) and set(x) == {"direction", "offset"}:
        return x
    if isinstance(x, dict):
        return [as_set(v) for v in x.values()]
    if isinstance(x, (list, tuple)) and not (len(x) == 2 and all(isinstance(v, (int, float)) for v in x)):
        return [as_set(v) for v in x]
    return x


def perm(n, k):
    import itertools
    P = list(itertools.permutations(range(n)))
    return P[k % len(P)]


@check("C36", lambda G: G.obj(c=api.calls(G, sorted(set(list(SYM) + SWAP + TRI + MAP3))), k=G.integer(1, 119)), n=6000)
def relabelling(case):
    """the order of symmetric arguments, of the two points of a line, of the vertices of a triangle, does not matter"""
    c, k = case["c"], case["k"]
    name = c["call"]
    kinds, fn = api.table()[name]
    args = list(c["args"])
    if name in SYM and not (name in SWAP and k % 2):
        for grp in SYM[name]:
            p = perm(len(grp), k if len(grp) > 2 else 1)
            new = [args[grp[i]] for i in p]
            for i, v in zip(grp, new):
                args[i] = v
        label("arguments permuted")
    elif name in SWAP:
        for i, kd in enumerate(kinds):
            if kd.rstrip("!") == "L" and (k >> (i + 1)) & 1 or kd.rstrip("!") == "L" and sum(x.rstrip("!") == "L" for x in kinds) == 1:
                args[i] = swapL(args[i])
        label("line points swapped")
    elif name in TRI:
        p = perm(3, k)
        args[0] = [args[0][i] for i in p]
        label("vertices relabelled")
    else:
        p = perm(3, k)
        args = [args[i] for i in p] + [args[3 + i] for i in p]
        label("pairs permuted")
    if args == list(c["args"]):
        trivial()
    if kinds[0] == "M" and abs(det2(mat2([c["args"][0][:2], c["args"][0][2:]]))) < 0.01:
        skip("singular matrix")
    try:
        A = [api.make(kd, d, 2) for kd, d in zip(kinds, c["args"])]
        B = [api.make(kd, d, 2) for kd, d in zip(kinds, args)]
    except ValueError:
        skip("degenerate arguments")
    if name in TRI:
        z = [C(x) for x in c["args"][0]]
        if flat(c["args"][0]):
            skip("nearly flat")
    if on_boundary(name, c["args"]):
        skip("on the boundary")
    a, b = api.outcome(fn, *A), api.outcome(fn, *B)
    for o in (a, b):
        if o[0] == "ok" and isinstance(o[1], g.Ellipse) and o[1].rminor < 1e-3 * o[1].rmajor:
            skip("nearly parabolic")
    if a[0] == "exc" and b[0] == "exc":
        trivial()
        return
    if a[0] != b[0]:
        fail("%s: %s, but %s with the arguments in another order %s", name, show(a), show(b), args)
    label(name)
    if name in MAP3:
        if a[1] is None or b[1] is None:
            require(a[1] is b[1], "%s: %s vs %s", name, show(a[1]), show(b[1]))
            return
        if name.startswith("Mobius"):
            Ma, Mb = mobm(a[1]), mobm(b[1])
            na = sum(abs(x) ** 2 for r in Ma for x in r)
            if na == 0 or abs(det2(Ma)) < 1e-4 * na:
                skip("ill-conditioned")
            proj_close(Ma, Mb, 1e-7, name)
        else:
            Fa, Fb = a[1], b[1]
            P = [C(x) for x in c["args"]]
            D = cross(P[1] - P[0], P[2] - P[0])
            if abs(D) < 0.05 * max(abs(P[0] - P[1]), abs(P[0] - P[2]), abs(P[1] - P[2])) ** 2:
                skip("ill-conditioned")
            for q in ((0, 0), (3, 1), (-2, 5)):
                near(pt(Fa.transform(q)), pt(Fb.transform(q)), 1e-8 * (1 + 1000 / abs(D)), name)
        return
    try:
        ca, cb = canon(as_set(a[1]), IDSIM, 0), canon(as_set(b[1]), IDSIM, 0)
    except (TypeError, ValueError) as e:
        fail("%s: result %s / %s cannot be read (%s)", name, show(a), show(b), e)
    if not finite(ca) or smallest(ca) < 1e-3:
        skip("result too large or too small")
    if name.endswith("line_line") or name.endswith("with_line"):
        # two equal lines: one of them is returned
        ca, cb = [x[:3] + (True, True) if isinstance(x, tuple) and x[0] == "line" else x for x in (ca, cb)]
    if not same(ca, cb, 1e-6):
        fail("%s: %s, but %s with the arguments in another order %s", name, show(a[1]), show(b[1]), args)


# calls on which half a turn of an ellipse has a visible effect
HALF = ("Affine.from_ellipse_to_ellipse", "Ellipse.path", "Ellipse.normal", "Ellipse.diameter", "Ellipse.point_from_angle", "Ellipse.point_from_angle(angles)")
REPAR = {"L", "RE", "PR", "SH", "SC", "E", "EC", "GC", "AR", "M", "RO"}


def _repar_calls():
    t = api.table()
    out = []
    for n in t:
        if n.endswith((".show", ".__str__")) or n in ("Projection", "Reflection", "Scaling", "Shear", "Rotation"):
            continue
        if any(k.rstrip("!") in REPAR for k in t[n][0]):
            out.append(n)
    return out


def repar(kind, d, q, name):
    """the same object given by other parameters; None when there is no other choice"""
    t, lam, m, unit_, mu = q["t"], q["lam"], q["m"], q["unit"], q["mu"]
    F = lambda p: np.array(p, dtype=float)
    if kind == "L" or kind == "RE":
        o, v = C(d[0]), C(d[1])
        if d[2] and d[3] or kind == "RE":
            L = g.Line(gpt(o + t * v), gpt(o + (t + lam) * v), True if kind == "L" else unit_, True)
        else:
            L = g.Line(gpt(o + v), gpt(o), d[3], d[2])
        return g.Reflection(L) if kind == "RE" else L
    if kind == "PR":
        f = lambda x: g.Line(gpt(C(x[0]) + t * C(x[1])), gpt(C(x[0]) + (t + lam) * C(x[1])))
        if d[1] is None:
            return g.Projection(f(d[0]), None)
        # the directrix matters by its direction only
        return g.Projection(f(d[0]), g.Line(gpt(C(d[1][0]) + 3 - 2j), gpt(C(d[1][0]) + 3 - 2j + lam * C(d[1][1]))))
    if kind == "SH":
        a = math.radians(d[3]) if unit_ else d[3]
        return g.Shear(F(d[0]), [lam * d[1][0], lam * d[1][1]], d[2], a, not unit_)
    if kind == "SC":
        return g.Scaling(F(d[0]), [lam * d[1][0], lam * d[1][1]], d[2])
    if kind == "RO":
        return g.Rotation(F(d[0]), math.radians(d[1] + 360 * m) if unit_ else d[1] + 360 * m, not unit_)
    if kind == "E":
        al = d[3] + (360 if name in HALF else 180) * m
        a, b = max(d[1], d[2]), min(d[1], d[2])
        return g.Ellipse(F(d[0]), a, b, math.radians(al) if unit_ else al, not unit_)
    if kind == "AR":
        a1, a2 = d[2] + 360 * m, d[3] - 360 * (m // 2)
        return g.Arc(F(d[0]), d[1], math.radians(a1) if unit_ else a1, math.radians(a2) if unit_ else a2, not unit_)
    if kind == "M":
        z = [C(mu) * C(x) for x in d]
        return g.Mobius([z[:2], z[2:]])
    if kind in ("EC", "GC"):
        return None if d[0] == "C" else repar(d[0], d[1], q, name)
    return None


@check("C36", lambda G: G.obj(c=api.calls(G, _repar_calls()), q=G.obj(t=G.grid(-3, 3, 4), lam=G.one(-1, 2, -2, 0.5, -0.25, 3), m=G.integer(-2, 2), unit=G.boolean,
                                                                      mu=G.one([2, 0], [-1, 0], [0, 1], [0, -3], [1, 1], [0.5, 0], [-2, 4]))), n=6000)
def parameters(case):
    """an object given by other parameters (points of a line, length and sign of a direction, whole turns, unit of angles, scale of a matrix) gives the same results"""
    c, q = case["c"], case["q"]
    name = c["call"]
    kinds, fn = api.table()[name]
    kinds = [k.rstrip("!") for k in kinds]
    args = list(c["args"])
    if name == "Mobius.gpower":
        q = dict(q, mu=[abs(q["mu"][0]) or 2, 0])
        z = [C(x) for x in args[0]]
        h, rt = (z[0] + z[3]) / 2, cmath.sqrt((z[0] - z[3]) ** 2 / 4 + z[1] * z[2])
        if any(e.real < 0 and abs(e.imag) < 1e-6 * abs(e) for e in (h + rt, h - rt)):
            skip("eigenvalue on the cut of the power")
    for k, d in zip(kinds, args):
        if k == "M" and abs(det2(mat2([d[:2], d[2:]]))) < 0.01:
            skip("singular matrix")
        if k == "PR" and d[1] is not None and cross(C(d[0][1]), C(d[1][1])) == 0:
            skip("directrix parallel to the line")
        if k == "AR" and abs(sin(math.radians(d[3] - d[2]) / 2)) < 1e-6:
            skip("arc from a point to itself")
    if on_boundary(name, args):
        skip("on the boundary")
    try:
        A = [api.make(k, d, 2) for k, d in zip(kinds, args)]
    except ValueError:
        skip("degenerate arguments")
    B, changed = [], False
    for i, (k, d) in enumerate(zip(kinds, args)):
        r = repar(k, d, q, name)
        B.append(api.make(k, d, 2) if r is None else r)
        if r is not None:
            changed = True
            label(k)
    if not changed:
        trivial()
    np.random.seed(5)
    a = api.outcome(fn, *A)
    np.random.seed(5)
    b = api.outcome(fn, *B)
    if a[0] == "exc" and b[0] == "exc":
        trivial()
        return
    if a[0] != b[0]:
        fail("%s: %s, but %s with the same objects given by other parameters", name, show(a), show(b))
    x, y = a[1], b[1]
    for o in (x, y):
        if isinstance(o, g.Ellipse) and o.rminor < 1e-3 * o.rmajor:
            skip("nearly parabolic")
    label(name)
    if isinstance(x, g.Mobius) and isinstance(y, g.Mobius):
        X = mobm(x)
        n2 = sum(abs(v) ** 2 for r in X for v in r)
        if not abs(det2(X)) > 1e-6 * n2:
            skip("ill-conditioned")
        proj_close(X, mobm(y), 1e-6, name)
        return
    if isinstance(x, g.Affine) and isinstance(y, g.Affine):
        x, y = x.get3x3matrix(), y.get3x3matrix()
    if isinstance(x, np.ndarray) and x.shape == (3, 3):
        if not approx(x, y, 1e-8):
            fail("%s: %s, but %s with the same objects given by other parameters", name, show(a), show(b))
        return
    try:
        ca, cb = canon(x, IDSIM, 0), canon(y, IDSIM, 0)
    except (TypeError, ValueError) as e:
        fail("%s: result %s / %s cannot be read (%s)", name, show(a), show(b), e)
    if not finite(ca) or smallest(ca) < 1e-3:
        skip("result too large or too small")
    if name.endswith("line_line") or name == "Line.intersection_with_line":
        ca, cb = [v[:3] + (True, True) if isinstance(v, tuple) and v[0] == "line" else v for v in (ca, cb)]
    if not same(ca, cb, 1e-6):
        fail("%s: %s, but %s with the same objects given by other parameters", name, show(a), show(b))

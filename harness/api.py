"""Table of the public calls, with the kinds of their arguments.

Kinds: P point, V vector, X number, A angle (degrees), R positive number,
B Boolean, K integer > 0, L Line, C Circle, E Ellipse, I Inversion, T Triangle,
F Affine, M Mobius, RO Rotation, RE Reflection, PR Projection, SH Shear,
SX ScalingXY, HO Homothety, SC Scaling, AR Arc, PS list of points, EC ellipse or circle,
GC circle or line.  A trailing "!" marks an argument documented and checked by
the library: a value of a wrong kind raises ValueError.
"""
from shapes import *

TABLE = {}
SETTINGS = []          # global settings changed by calls since it was last emptied


def _m(name, kinds, fn=None):
    if fn is None:
        meth = name.split(".")[1]
        fn = lambda *a: getattr(a[0], meth)(*a[1:])
    TABLE[name] = (kinds.split(), fn)


def _f(name, kinds):
    """module-level function or class"""
    def fn(*a):
        o = g
        for part in name.split("."):
            o = getattr(o, part)
        return o(*a)
    TABLE[name] = (kinds.split(), fn)


def table():
    if TABLE:
        return TABLE
    _f("Line", "P! P! B B")
    for s in ("Line.is_equal L L!", "Line.is_parallel L L!", "Line.is_perpendicular L L!", "Line.includes L P! B B!", "Line.direction_offset L",
              "Line.perpendicular L P! B! B!", "Line.projection L P!", "Line.distance L P!", "Line.reflection L P!", "Line.rotate L A! P!",
              "Line.translate L V!", "Line.invert L I!", "Line.intersection_with_circle L C!", "Line.intersection_with_ellipse L E!",
              "Line.intersection_with_line L L B"):
        n, k = s.split(" ", 1)
        _m(n, k)
    _f("intersection_line_line", "L L B")
    _f("Circle", "P! R!")
    for s in ("Circle.is_equal C C!", "Circle.includes C P!", "Circle.contains C P!", "Circle.point_from_angle C A!",
              "Circle.orthogonal_through_two_points_in_circle C P! P! B!", "Circle.orthogonal_through_two_points_on_circle C A! A! B!",
              "Circle.power C P!", "Circle.radical_center C C!", "Circle.radical_axis C C!", "Circle.as_ellipse C",
              "Circle.intersection_with_line C L!", "Circle.intersection_with_circle C C!", "Circle.is_orthogonal C C!", "Circle.angle C C"):
        n, k = (s + " ").split(" ", 1)
        _m(n, k)
    for s in ("circleAB P! P!", "circleOA P! P!", "radical_center C! C! C!", "mid_circles C! C!", "intersection_circle_line C! L!",
              "intersection_circle_circle C! C!", "intersection_ellipse_line E! L!", "Arc P! R! A! A! B!", "Ellipse P! R! R! A! B!"):
        n, k = s.split(" ", 1)
        _f(n, k)
    for s in ("Arc.path AR K!", "Arc.starting_point AR", "Arc.ending_point AR",
              "Ellipse.is_equal E E!", "Ellipse.path E K!", "Ellipse.point_from_angle E A B!", "Ellipse.normal E X!", "Ellipse.equation E",
              "Ellipse.includes E P!", "Ellipse.contains E P!", "Ellipse.shape_matrix E", "Ellipse.theta2t E A! B!", "Ellipse.diameter E X! B!",
              "Ellipse.intersection_with_line E L!"):
        n, k = (s + " ").split(" ", 1)
        _m(n, k)
    _f("Ellipse.equation_from_five_points", "P! P! P! P! P!")
    _f("Ellipse.from_five_points", "P! P! P! P! P!")
    _m("Ellipse.from_center_and_matrix", "P! R", lambda p, r: g.Ellipse.from_center_and_matrix(p, np.array([[r, 0.0], [0.0, 2.0 * r]])))
    _m("Ellipse.point_from_angle(angles)", "E AV B", lambda e, a, b: e.point_from_angle(a, b))
    _m("Ellipse.from_center_and_matrix(matrix)", "P M2", lambda p, m: g.Ellipse.from_center_and_matrix(p, m))
    _m("Affine(matrix)", "M2 V", lambda m, v: g.Affine(m, v))
    _m("Mobius(matrix)", "MA", lambda m: g.Mobius(m))
    _m("Mobius(matrix).compose", "MA MA B", lambda m, n, b: g.Mobius(m).compose(g.Mobius(n), b))
    _m("Ellipse.LownerJohnEllipse(bpoints)", "PA PA", lambda a, b: g.Ellipse.LownerJohnEllipse(a, b[:3]))
    _m("Ellipse.from_boundary3", "PA", lambda a: g.Ellipse.from_boundary3(a[:3]))
    _m("Ellipse.from_boundary4", "PA", lambda a: g.Ellipse.from_boundary4(a[:4]))
    _m("Ellipse.LownerJohnEllipse", "PS", lambda ps: g.Ellipse.LownerJohnEllipse(ps))
    _f("Inversion", "P! X!")
    for s in ("Inversion.invert I P!", "Inversion.invert_circle I C!", "Inversion.invert_line I L!", "Inversion.invert_gcircle I GC!", "Inversion.compose I I! B!"):
        n, k = s.split(" ", 1)
        _m(n, k)
    for s in ("Inversion.on_circle C", "Inversion.from_swapping_two_circles C! C! B!", "Inversion.from_fixing_two_circles C! C!",
              "Inversion.from_fixing_three_circles C! C! C!", "SteinerChain C! K! A! X!", "Triangle P! P! P!"):
        n, k = s.split(" ", 1)
        _f(n, k)
    for n in ("flatness", "a", "b", "c", "edges", "orientation", "is_acute", "angleA", "angleB", "angleC"):
        _m("Triangle." + n, "T", (lambda nm: lambda t: getattr(t, nm)() if callable(getattr(t, nm)) else getattr(t, nm))(n))
    for n in ("incircle", "circumcircle", "excircles", "orthic_triangle", "malfatti_circles", "equal_detour_point", "steiner_ellipse", "steiner_inellipse"):
        _m("Triangle." + n, "T")
    _m("Triangle.contains", "T P!")
    _m("Affine", "V!", lambda v: g.Affine([[1, 2], [3, 5]], v))
    for s in ("Affine.get3x3matrix F", "Affine.inverse F", "Affine.compose F F B", "Affine.transform F P", "Affine.transform_line F L", "Affine.transform_ellipse F EC"):
        n, k = s.split(" ", 1)
        _m(n, k)
    _m("Affine.transform(points)", "F PS", lambda f, ps: f.transform(ps))
    _f("Affine.from_mapping_three_points", "P! P! P! P! P! P!")
    _f("Affine.from_ellipse_to_ellipse", "EC EC")
    for s in ("Mobius.compose M M B", "Mobius.inverse M", "Mobius.power M K", "Mobius.gpower M X!", "Mobius.transform M P!", "Mobius.fixed_points M",
              "Mobius.transform_circle M C!", "Mobius.transform_line M L!"):
        n, k = s.split(" ", 1)
        _m(n, k)
    _f("Mobius.from_mapping_three_points", "P! P! P! P! P! P!")
    _f("Mobius.from_mapping_one_circle", "C! C!")
    _f("cross_ratio", "P! P! P! P!")
    _f("Reflection", "L!")
    for s in ("Reflection.transform RE P!", "Reflection.reflect RE P!", "Reflection.reflect_circle RE C", "Reflection.reflect_line RE L", "Reflection.get3x3matrix RE", "Reflection.as_affine RE"):
        n, k = s.split(" ", 1)
        _m(n, k)
    _m("Projection", "L! PL!", lambda d, e: g.Projection(d, e))
    for s in ("Projection.project PR P!", "Projection.transform PR P!", "Projection.get3x3matrix PR", "Projection.as_affine PR"):
        n, k = s.split(" ", 1)
        _m(n, k)
    _f("Rotation", "P! A! B!")
    for s in ("Rotation.rotate RO P", "Rotation.transform RO P", "Rotation.rotate_circle RO C!", "Rotation.transform_circle RO C!", "Rotation.rotate_ellipse RO E!", "Rotation.transform_ellipse RO E!",
              "Rotation.rotate_line RO L!", "Rotation.transform_line RO L!", "Rotation.get3x3matrix RO", "Rotation.as_affine RO"):
        n, k = s.split(" ", 1)
        _m(n, k)
    _f("Shear", "P! V! R! XA! B!")
    for c, k in (("Shear", "SH"), ("ScalingXY", "SX"), ("Homothety", "HO"), ("Scaling", "SC")):
        _m(c + ".transform", k + " P")
        _m(c + ".get3x3matrix", k)
        _m(c + ".as_affine", k)
    for c, k in (("Rotation", "RO"), ("Shear", "SH"), ("ScalingXY", "SX"), ("Homothety", "HO"), ("Scaling", "SC")):
        _m(c + ".transform(points)", k + " PS", lambda t, ps: t.transform(ps))
    _f("ScalingXY", "P! X! X!")
    _f("Homothety", "P! X!")
    _m("Homothety.transform_circle", "HO C!")
    _f("Scaling", "P! V! X!")
    _m("Scaling.scale_circle", "SC C!")
    _f("unimodular_matrices", "K!")
    for c, k in (("Circle", "C"), ("Ellipse", "E"), ("Triangle", "T")):
        # (the points themselves are not compared)
        _m(c + ".random_points", k + " K!", lambda o, n: np.shape(o.random_points(n)))
        _m(c + ".random_points(on)", k + " K", lambda o, n: np.shape(o.random_points(n, "on")))
    # show() / str()
    for c, k in (("Line", "L"), ("Circle", "C"), ("Ellipse", "E"), ("Inversion", "I"), ("Triangle", "T"), ("Affine", "F"), ("Mobius", "M"), ("Reflection", "RE"),
                 ("Projection", "PR"), ("Rotation", "RO"), ("Shear", "SH"), ("ScalingXY", "SX"), ("Homothety", "HO"), ("Scaling", "SC")):
        _m(c + ".show", k)
        _m(c + ".__str__", k)
    return TABLE


# Which kinds of arguments exist is needed by the generators (driver side),
# where the library is not importable: table() itself only builds lambdas.

def strat(G, kind):
    from hypothesis import strategies as st
    num = G.mix(G.integer(-6, 6), G.grid(-6, 6, 4))
    pos = G.mix(G.integer(1, 6), G.grid(0.25, 6, 4))
    p = G.mix(G.ipt(6), st.tuples(num, num).map(list))
    d = G.mix(G.one(0, 30, 45, 90, 180, 270, 360, -90), G.integer(-400, 400))
    v = p.map(lambda x: x if x[0] or x[1] else [1, 0])
    table_ = {
        "P": p, "V": v, "X": num, "A": d, "R": pos, "B": G.boolean, "K": G.integer(3, 8), "XA": G.integer(-80, 80),
        "L": st.tuples(p, v, G.boolean, G.boolean).map(list),
        "C": st.tuples(p, pos).map(list),
        "E": st.tuples(p, pos, pos, d, G.boolean).map(list),
        "I": st.tuples(p, num.map(lambda x: x or 1)).map(list),
        "T": G.mix(st.tuples(p, p, p).map(list), G.triangle()),
        "F": st.tuples(G.lst(G.integer(-4, 4), 4, 4), p).map(list),
        "M": G.lst(G.cint(4), 4, 4),
        "RO": st.tuples(p, d).map(list), "RE": st.tuples(p, v, G.boolean, G.boolean).map(list),
        "PR": st.tuples(st.tuples(p, v, G.boolean, G.boolean).map(list), G.mix(G.one(None), st.tuples(p, v, G.boolean, G.boolean).map(list))).map(list),
        "SH": st.tuples(p, v, pos, G.integer(-80, 80)).map(list), "SX": st.tuples(p, num, num).map(list), "HO": st.tuples(p, num.map(lambda x: x or 2)).map(list),
        "SC": st.tuples(p, v, num.map(lambda x: x or 2)).map(list),
        "AR": st.tuples(p, pos, d, d).map(list),
        "PS": G.lst(p, 3, 7),
        "PA": G.lst(p, 3, 7), "AV": G.lst(d, 1, 5), "M2": G.lst(G.integer(-4, 4), 4, 4), "MA": G.lst(G.cint(4), 4, 4),
    }
    table_["EC"] = G.mix(table_["E"].map(lambda x: ["E", x]), table_["C"].map(lambda x: ["C", x]))
    table_["GC"] = G.mix(table_["L"].map(lambda x: ["L", x]), table_["C"].map(lambda x: ["C", x]))
    table_["PL"] = G.mix(G.one(None), table_["L"])
    return table_[kind]


def calls(G, names=None):
    """strategy: {"call": name, "args": [...]}"""
    from hypothesis import strategies as st
    t = table()
    alts = []
    for n in sorted(names or t):
        ks = [k.rstrip("!") for k in t[n][0]]
        alts.append(st.tuples(*[strat(G, k) for k in ks]).map(lambda a, n=n: {"call": n, "args": list(a)}))
    return st.one_of(*alts)


def make(kind, d, k=0):
    """JSON data -> argument; points in the container form k.  Raises ValueError where the data is degenerate."""
    kind = kind.rstrip("!")
    F = lambda p: form(p, k)
    if kind in ("P", "V"):
        return F(d)
    if kind in ("X", "A", "R", "B", "K", "XA"):
        return d
    if kind in ("L", "RE"):
        L = g.Line(F(d[0]), F([d[0][0] + d[1][0], d[0][1] + d[1][1]]), d[2], d[3])
        return g.Reflection(L) if kind == "RE" else L
    if kind == "C":
        return g.Circle(F(d[0]), d[1])
    if kind == "E":
        a, b = max(d[1], d[2]), min(d[1], d[2])
        return g.Ellipse(F(d[0]), a, b, d[3] if d[4] else math.radians(d[3]), d[4])
    if kind == "I":
        return g.Inversion(F(d[0]), d[1])
    if kind == "T":
        return g.Triangle(F(d[0]), F(d[1]), F(d[2]))
    if kind == "F":
        return g.Affine([d[0][:2], d[0][2:]], F(d[1]))
    if kind == "M":
        z = [C(x) for x in d]
        return g.Mobius([z[:2], z[2:]])
    if kind == "RO":
        return g.Rotation(F(d[0]), d[1])
    if kind == "PR":
        return g.Projection(make("L", d[0], k), None if d[1] is None else make("L", d[1], k))
    if kind == "PL":
        return None if d is None else make("L", d, k)
    if kind == "SH":
        return g.Shear(F(d[0]), F(d[1]), d[2], d[3])
    if kind == "SX":
        return g.ScalingXY(F(d[0]), d[1], d[2])
    if kind == "HO":
        return g.Homothety(F(d[0]), d[1])
    if kind == "SC":
        return g.Scaling(F(d[0]), F(d[1]), d[2])
    if kind == "AR":
        return g.Arc(F(d[0]), d[1], d[2], d[3])
    if kind == "PS":
        if k % 5 in (0, 1, 4):
            return [F(p) for p in d] if k % 5 else tuple(F(p) for p in d)
        return np.array(d, dtype=float) if k % 5 == 2 else np.array(d)
    if kind == "PA":
        return np.array(d, dtype=float)
    if kind == "AV":
        return [list(map(float, d)), tuple(d), np.array(d, dtype=float)][k % 3]
    if kind == "M2":
        m = [list(map(float, d[:2])), list(map(float, d[2:]))]
        return np.array(m) if k % 2 == 0 else m
    if kind == "MA":
        m = [[C(d[0]), C(d[1])], [C(d[2]), C(d[3])]]
        return np.array(m) if k % 2 == 0 else m
    if kind in ("EC", "GC"):
        return make(d[0], d[1], k)
    raise AssertionError(kind)


# ------------------------------------------------------------------ outcomes
def freeze(x, depth=0):
    """value -> nested tuples (exact)"""
    if depth > 8:
        return "..."
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return ("f", repr(float(x)))
    if isinstance(x, complex):
        return ("z", repr(complex(x)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(i, depth + 1) for i in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((freeze(k), freeze(v, depth + 1)) for k, v in x.items())
    if isinstance(x, np.ndarray):
        return ("a", x.shape, x.flags.writeable, freeze(x.tolist(), depth + 1))
    if isinstance(x, np.generic):
        return freeze(x.item(), depth + 1)
    if hasattr(x, "__dict__"):
        # private attributes are not state a caller can see: a cached value that
        # is wrong shows in the results
        return (type(x).__name__, freeze(dict((k, v) for k, v in vars(x).items() if not k.startswith("_")), depth + 1))
    return repr(x)


def outcome(fn, *args):
    """('ok', value) or ('exc', exception class name)"""
    old = np.seterr(all="ignore")
    try:
        return "ok", fn(*args)
    except (KeyboardInterrupt, MemoryError, SystemExit):
        raise
    except Exception as e:
        return "exc", type(e).__name__
    finally:
        if set(np.geterr().values()) != {"ignore"}:
            SETTINGS.append("numpy error handling")
        np.seterr(**old)

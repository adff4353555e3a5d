"""Oracle-side helpers.  Runs under the project's own interpreter
(/opt/venv/bin/python: PyPy 3.9 + numpy 1.24) inside the worker, so no syntax
newer than Python 3.9.  The geometry in here is written with plain complex
numbers and shares no code with the library under test.
"""
import cmath
import importlib
import math
from math import pi, cos, sin, tan, sqrt, atan2, hypot, inf, isinf, isnan, floor

# ----------------------------------------------------------------- registry
REGISTRY = {}          # prop id -> {check name: Check}


class Check(object):
    __slots__ = ("prop", "name", "fn", "strat", "n", "rule")

    def __init__(self, prop, name, fn, strat, n, rule):
        self.prop, self.name, self.fn = prop, name, fn
        self.strat, self.n, self.rule = strat, n, rule


def check(prop, strat, n=1000, name=None, rule=None):
    """Register an oracle.  strat is a function of the generator module `G`
    (only called in the driver, where Hypothesis is importable)."""
    def deco(fn):
        nm = name or fn.__name__
        d = REGISTRY.setdefault(prop, {})
        assert nm not in d, nm
        d[nm] = Check(prop, nm, fn, strat, n, rule or (fn.__doc__ or "").strip())
        return fn
    return deco


class _Lazy(object):
    def __init__(self, name):
        self.__dict__["_n"] = name
        self.__dict__["_m"] = None

    def __getattr__(self, k):
        if self.__dict__["_m"] is None:
            self.__dict__["_m"] = importlib.import_module(self.__dict__["_n"])
        return getattr(self.__dict__["_m"], k)


g = _Lazy("planegeometry.geometry")
np = _Lazy("numpy")


class Fail(Exception):
    """The property is violated on this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted as trivial)."""


class Ctx(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.labels = set()
        self.trivial = False


ctx = Ctx()


def label(*ls):
    for l in ls:
        ctx.labels.add(str(l))


def trivial():
    ctx.trivial = True


def fail(msg, *a):
    raise Fail(msg % a if a else msg)


def require(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def skip(msg="outside the domain"):
    raise Skip(msg)


def expect_value_error(fn, what):
    try:
        r = fn()
    except ValueError:
        return
    except Exception as e:
        raise Fail("%s: raised %s instead of ValueError (%s)" % (what, type(e).__name__, e))
    raise Fail("%s: accepted, returned %s, instead of raising ValueError" % (what, show(r)))


def show(x):
    try:
        if x is None or isinstance(x, (int, float, complex, str)):
            return repr(x)
        if isinstance(x, (list, tuple)):
            return "[" + ", ".join(show(i) for i in x) + "]"
        if hasattr(x, "__dict__"):
            return "%s%s" % (type(x).__name__, {k: show(v) for k, v in vars(x).items()})
        return repr(x)
    except Exception as e:
        return "<%s>" % type(x).__name__


# ------------------------------------------------------------ frames, forms
class Frame(object):
    """A similarity z -> s*e^{i rot}*z + t applied to the unit-scale
    configuration of a case.  The identity frame leaves numbers (and their
    int/float type) exactly as generated."""

    def __init__(self, f):
        self.ident = f is None
        if self.ident:
            self.s, self.rot, self.t, self.mirror = 1.0, 0.0, 0j, False
            self.lin = 1 + 0j
        else:
            self.s = float(f["s"])
            self.rot = math.radians(f["rot"])
            self.t = complex(*f["t"]) * self.s
            self.mirror = bool(f.get("mirror", False))
            if f["rot"] % 90 == 0:
                self.lin = self.s * [1, 1j, -1, -1j][int(f["rot"] // 90) % 4]
            else:
                self.lin = self.s * cmath.exp(1j * self.rot)

    def pt(self, p):
        """-> list of two numbers"""
        if self.ident:
            return [p[0], p[1]]
        z = complex(p[0], p[1])
        if self.mirror:
            z = z.conjugate()
        z = self.lin * z + self.t
        return [z.real, z.imag]

    def vec(self, p):
        if self.ident:
            return [p[0], p[1]]
        z = complex(p[0], p[1])
        if self.mirror:
            z = z.conjugate()
        z = self.lin * z
        return [z.real, z.imag]

    def len(self, r):
        return r if self.ident else self.s * r

    def ang(self, deg):
        """direction angle in degrees"""
        if self.ident:
            return deg
        return (-deg if self.mirror else deg) + math.degrees(self.rot)

    @property
    def size(self):
        """scale of coordinates that a configuration of size ~10 reaches"""
        return 10 * self.s + abs(self.t)


def form(p, k):
    """Pass a point in one of the container types the library accepts."""
    k = k % 5
    if k == 0:
        return (p[0], p[1])
    if k == 1:
        return [p[0], p[1]]
    if k == 2:
        return np.array([p[0], p[1]], dtype=float)
    if k == 3:
        return np.array([p[0], p[1]])          # int array when both are ints
    return (np.float64(p[0]), np.float64(p[1]))


def C(p):
    return complex(p[0], p[1])


# ------------------------------------------------- reading library results
def is_none(x):
    return x is None


def pt(x, what="result"):
    """A library result that must be a finite point -> complex."""
    try:
        n = len(x)
        a, b = float(x[0]), float(x[1])
    except Exception:
        raise Fail("%s is not a point: %s" % (what, show(x)))
    if n != 2 or isinstance(x, (dict, str)):
        raise Fail("%s is not a point: %s" % (what, show(x)))
    if isnan(a) or isnan(b) or isinf(a) or isinf(b):
        raise Fail("%s is not a finite point: %s" % (what, show(x)))
    return complex(a, b)


def is_pt(x):
    try:
        pt(x)
        return True
    except Fail:
        return False


def num(x, what="result"):
    try:
        if isinstance(x, complex) and x.imag != 0:
            raise TypeError
        if isinstance(x, (list, tuple, dict, str)) or x is None:
            raise TypeError
        v = float(x)
    except Exception:
        raise Fail("%s is not a real number: %s" % (what, show(x)))
    if isnan(v):
        raise Fail("%s is nan" % what)
    return v


def boolean(x, what="result"):
    if x is True or x is False:
        return x
    try:
        if isinstance(x, np.bool_):
            return bool(x)
    except Exception:
        pass
    raise Fail("%s is not a Boolean: %s" % (what, show(x)))


def circ(x, what="result"):
    if not isinstance(x, g.Circle):
        raise Fail("%s is not a Circle: %s" % (what, show(x)))
    r = num(x.radius, what + ".radius")
    c = pt(x.center, what + ".center")
    if not (r > 0) or isinf(r):
        raise Fail("%s has radius %r" % (what, r))
    return c, r


def line(x, what="result"):
    if not isinstance(x, g.Line):
        raise Fail("%s is not a Line: %s" % (what, show(x)))
    a, b = pt(x.A, what + ".A"), pt(x.B, what + ".B")
    if a == b:
        raise Fail("%s is a degenerate Line at %r" % (what, a))
    return a, b


def ell(x, what="result"):
    """-> center, rmajor, rminor, alpha (radians)"""
    if not isinstance(x, g.Ellipse):
        raise Fail("%s is not an Ellipse: %s" % (what, show(x)))
    c = pt(x.center, what + ".center")
    a, b = num(x.rmajor, what + ".rmajor"), num(x.rminor, what + ".rminor")
    al = num(x.alpha, what + ".alpha")
    if not (a > 0 and b > 0) or isinf(a) or isinf(b):
        raise Fail("%s has semi-axes %r, %r" % (what, a, b))
    return c, a, b, math.radians(al) if x.degrees else al


def gcirc(x, what="result"):
    """generalized circle -> ('c', c, r) or ('l', a, b)"""
    if isinstance(x, g.Circle):
        return ("c",) + circ(x, what)
    if isinstance(x, g.Line):
        return ("l",) + line(x, what)
    raise Fail("%s is neither a Circle nor a Line: %s" % (what, show(x)))


def instance(x, cls, what="result"):
    if not isinstance(x, cls):
        raise Fail("%s is not a %s: %s" % (what, cls.__name__, show(x)))
    return x


def matrix(x, n, m, what="matrix"):
    try:
        a = np.asarray(x)
        sh = a.shape
        rows = a.tolist()
    except Exception:
        raise Fail("%s is not an array: %s" % (what, show(x)))
    if tuple(sh) != (n, m):
        raise Fail("%s has shape %s instead of %s" % (what, sh, (n, m)))
    for r in rows:
        for v in r:
            w = complex(v)
            if isnan(w.real) or isnan(w.imag) or isinf(w.real) or isinf(w.imag):
                raise Fail("%s has a non-finite entry: %s" % (what, rows))
    return rows


# --------------------------------------------------------- plain geometry
def dot(u, v):
    return u.real * v.real + u.imag * v.imag


def cross(u, v):
    return u.real * v.imag - u.imag * v.real


def line_dist(a, b, m):
    """signed distance from m to the line (a, b)"""
    return cross(b - a, m - a) / abs(b - a)


def foot(a, b, m):
    d = b - a
    return a + d * (dot(m - a, d) / dot(d, d))


def on_gcirc_residual(gc, m):
    if gc[0] == "c":
        return abs(m - gc[1]) - gc[2]
    return line_dist(gc[1], gc[2], m)


def gc_points(gc, n=7, spread=1.0, base=0.3):
    """points on a generalized circle"""
    if gc[0] == "c":
        return [gc[1] + gc[2] * cmath.exp(1j * (base + 2 * pi * k / n)) for k in range(n)]
    a, b = gc[1], gc[2]
    return [a + (b - a) * spread * t for t in (-2.3, -0.7, 0.0, 0.41, 1.0, 1.9, 3.1)[:n]]


def gpt(p):
    """Complex -> tuple for feeding the library"""
    return (p.real, p.imag)


def near(a, b, tol, what):
    """|a-b| <= tol for complex/real a, b"""
    d = abs(a - b)
    if not d <= tol:
        raise Fail("%s: got %s, expected %s (difference %.3g > %.3g)" % (what, fmt(a), fmt(b), d, tol))


def fmt(z):
    if isinstance(z, complex):
        return "(%.12g, %.12g)" % (z.real, z.imag)
    return "%.12g" % z


def ell_point(c, a, b, al, t):
    return c + cmath.exp(1j * al) * complex(a * cos(t), b * sin(t))


def ell_q(c, a, b, al, m):
    """quadratic form: 1 on the ellipse, <1 inside"""
    w = (m - c) * cmath.exp(-1j * al)
    return (w.real / a) ** 2 + (w.imag / b) ** 2


def same_ellipse(e, c, a, b, al, tol, what="ellipse", major=True):
    """e (library Ellipse) is the point set {c, a, b, al}; with major=True
    also require that e.rmajor/e.rminor are the larger/smaller semi-axis."""
    ce, ae, be, ale = ell(e, what)
    A, B = max(a, b), min(a, b)
    near(ce, c, tol * A, what + " center")
    near(max(ae, be), A, tol * A, what + " major radius")
    near(min(ae, be), B, tol * A, what + " minor radius")
    if major and ae < be * (1 - 1e-9):
        raise Fail("%s: rmajor %r is smaller than rminor %r" % (what, ae, be))
    for k in range(8):
        m = ell_point(ce, ae, be, ale, 0.2 + 2 * pi * k / 8)
        q = ell_q(c, a, b, al, m)
        if not abs(q - 1) <= 4 * tol * (A / B) ** 1 * 2:
            raise Fail("%s: a point of the result, %s, is not on the expected ellipse "
                       "(quadratic form %.9g)" % (what, fmt(m), q))


def gfrom(gc):
    """('c', c, r)/('l', a, b) -> library object"""
    if gc[0] == "c":
        return g.Circle(gpt(gc[1]), gc[2])
    return g.Line(gpt(gc[1]), gpt(gc[2]))


def same_circle(x, c, r, tol, what):
    c2, r2 = circ(x, what)
    near(c2, c, tol, what + " center")
    near(r2, r, tol, what + " radius")


def same_line(x, a, b, tol, what, unit=None):
    """library Line x lies on the line (a, b) up to tol at distance `unit`"""
    p, q = line(x, what)
    u = (q - p) / abs(q - p)
    for z in (p, q):
        near(line_dist(a, b, z), 0, tol * max(1.0, (abs(z - a) / unit) if unit else 1.0),
             what + " distance of a defining point from the expected line")
    near(abs(cross(u, (b - a) / abs(b - a))), 0, tol / (unit or 1.0) * 10, what + " direction")


def gfree(mod):
    return mod


# ---------------------------------------------- exact inversions of objects
def inv_pt(p, k, m):
    d = m - p
    return p + k * d / (d.real * d.real + d.imag * d.imag)


def inv_circle(p, k, c, r):
    """image of a circle not through p"""
    D = abs(c - p) ** 2 - r * r
    return p + k / D * (c - p), abs(k / D) * r


def mob(M, z):
    """M = [[a,b],[c,d]] complex; z complex or None (infinity)"""
    (a, b), (c, d) = M
    if z is None:
        return None if c == 0 else a / c
    den = c * z + d
    if den == 0:
        return None
    return (a * z + b) / den


def mat2(M):
    return [[complex(*x) if isinstance(x, (list, tuple)) else complex(x) for x in row] for row in M]


def det2(M):
    return M[0][0] * M[1][1] - M[0][1] * M[1][0]


def proj_close(M, N, tol, what):
    """equal as projective maps"""
    v = [M[0][0], M[0][1], M[1][0], M[1][1]]
    w = [N[0][0], N[0][1], N[1][0], N[1][1]]
    nv, nw = sqrt(sum(abs(x) ** 2 for x in v)), sqrt(sum(abs(x) ** 2 for x in w))
    if nv == 0 or nw == 0 or isnan(nv) or isnan(nw):
        raise Fail("%s: null or nan matrix" % what)
    ip = sum(x.conjugate() * y for x, y in zip(v, w)) / (nv * nw)
    # sin of the angle between the two complex lines
    res = sqrt(sum(abs(y / nw - ip * x / nv) ** 2 for x, y in zip(v, w)))
    if not res <= tol:
        raise Fail("%s: matrices %s and %s are not proportional (%.3g)" % (what, M, N, res))


def mobm(m, what="Mobius"):
    """library Mobius -> nested list of complex"""
    instance(m, g.Mobius, what)
    return matrix(m.M, 2, 2, what + ".M")


def is_infinite_result(x):
    try:
        return (not hasattr(x, "__len__")) and isinf(float(x))
    except Exception:
        return False

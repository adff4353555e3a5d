"""Realisation of generated configurations (used by several property modules)."""
from h import *


class Pair(object):
    pass


def mkpair(d, congruent=False):
    """circle_pair() data -> two circles in a known mutual position"""
    fr = Frame(d["frame"])
    r1 = d["r1"]
    rho, u, kind = d["rho"], d["u"], d["kind"]
    if 0.9 < rho < 1.1 and kind in ("int", "inside", "concentric"):
        rho *= 2
    if 0.9 < rho < 1.1:
        u = max(u, 0.03)
    r2 = r1 if congruent else r1 * rho
    lo, hi = abs(r1 - r2), r1 + r2
    dist = {"separate": hi * (1 + 2 * u), "ext": hi, "two": lo + u * (hi - lo), "int": lo,
            "inside": lo * u, "concentric": 0, "ortho": sqrt(r1 * r1 + r2 * r2)}[kind]
    th = d["dir"]
    o = d["o"]
    if th % 90 == 0:
        k = int(th // 90) % 4
        o2 = [o[0] + dist * [1, 0, -1, 0][k], o[1] + dist * [0, 1, 0, -1][k]]
    else:
        o2 = [o[0] + dist * cos(math.radians(th)), o[1] + dist * sin(math.radians(th))]
    P = Pair()
    P.kind = kind
    P.fr = fr
    P.p1, P.p2 = fr.pt(o), fr.pt(o2)
    P.r1, P.r2 = fr.len(r1), fr.len(r2)
    P.c1, P.c2 = C(P.p1), C(P.p2)
    P.d = fr.len(dist)
    P.size = max(abs(P.c1) + P.r1, abs(P.c2) + P.r2)
    P.k1 = g.Circle(form(P.p1, d.get("f1", 0)), P.r1)
    P.k2 = g.Circle(form(P.p2, d.get("f2", 0)), P.r2)
    label(kind)
    if not congruent and 0.9 < rho < 1.1:
        label("nearly equal radii")
    if kind in ("two", "separate", "inside") and not 0.01 < u < 0.99:
        label("nearly tangent")
    if fr.ident:
        label("plain numbers")
    return P


class Ell(object):
    pass


def mkell(d):
    """ellipse data -> library ellipse and its parameters"""
    fr = Frame(d["frame"])
    E = Ell()
    E.fr = fr
    E.p = fr.pt(d["c"])
    E.c = C(E.p)
    b = d["a"] * d["e"]
    E.a, E.b = fr.len(d["a"]), fr.len(b)
    al = fr.ang(d["al"])
    E.al = math.radians(al)
    E.e = g.Ellipse(form(E.p, d.get("f", 0)), E.a, E.b, al if d["deg"] else E.al, d["deg"])
    E.size = abs(E.c) + E.a
    E.round = E.a == E.b
    label("circular" if E.round else "elongated" if d["e"] < 0.3 else "moderate")
    return E


def mktri(d, frame):
    """three 2-lists -> transformed points (lists), Triangle"""
    fr = Frame(frame)
    P = [fr.pt(p) for p in d]
    z = [C(p) for p in P]
    return fr, P, z, g.Triangle(P[0], P[1], P[2])


def unit(deg):
    if deg % 90 == 0:
        return [1, 1j, -1, -1j][int(deg // 90) % 4]
    return cmath.exp(1j * math.radians(deg))

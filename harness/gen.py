"""Hypothesis strategies.  Every case is plain JSON data (ints, floats,
strings, lists, dicts), so it can be shipped to the worker, hashed, shrunk and
saved as a replay file.  All randomness comes from Hypothesis."""
from hypothesis import strategies as st


def obj(**kw):
    return st.fixed_dictionaries(kw)


def one(*xs):
    """sampled constants"""
    return st.sampled_from(xs)


def mix(*strats):
    return st.one_of(*strats)


def tup(*xs):
    return st.tuples(*xs).map(list)


def lst(s, lo, hi):
    return st.lists(s, min_size=lo, max_size=hi)


def integer(lo, hi):
    return st.integers(lo, hi)


boolean = st.booleans()
form = st.integers(0, 4)


def grid(lo, hi, k):
    """numbers n/k in [lo, hi]; ints stay ints for k == 1"""
    a, b = int(-((-lo * k) // 1)), int((hi * k) // 1)
    if k == 1:
        return st.integers(a, b)
    return st.integers(a, b).map(lambda n: n / k)


def real(lo, hi):
    """real numbers in [lo, hi]: small integers, quarters, decimals and a fine
    dyadic grid (resolution 2**-16: two values are equal or clearly apart)."""
    if hi - lo >= 2:
        return st.one_of(grid(lo, hi, 1), grid(lo, hi, 4), grid(lo, hi, 1000), grid(lo, hi, 65536))
    return st.one_of(grid(lo, hi, 20), grid(lo, hi, 1000), grid(lo, hi, 65536))


def pos(lo, hi):
    return real(lo, hi)


def signed(lo, hi):
    """|x| in [lo, hi], either sign"""
    return st.tuples(st.booleans(), real(lo, hi)).map(lambda t: -t[1] if t[0] else t[1])


def pt(R=10):
    return st.tuples(real(-R, R), real(-R, R)).map(list)


def ipt(R=10):
    return st.tuples(st.integers(-R, R), st.integers(-R, R)).map(list)


# angles in degrees
def angle(lim=720):
    return st.one_of(
        st.integers(-(lim // 90), lim // 90).map(lambda k: 90 * k),
        st.integers(-(lim // 15), lim // 15).map(lambda k: 15 * k),
        st.integers(-lim, lim),
        st.integers(-lim * 64, lim * 64).map(lambda n: n / 64),
    )


def angle360():
    return st.one_of(
        st.integers(0, 23).map(lambda k: 15 * k),
        st.integers(0, 359),
        st.integers(0, 360 * 64 - 1).map(lambda n: n / 64),
        st.integers(0, 360 * 64 - 1).map(lambda n: n / 64),
        st.sampled_from([0.001, 359.998, 90.001, 89.998, 180.002, 179.999, 270.001, 269.995, 0.03, 90.02]),
    )


_scale = st.one_of(
    st.sampled_from([0.1, 0.5, 1.0, 2.0, 3.0, 10.0, 50.0, 1e-3, 2e-4, 1e3, 3e4]),
    st.integers(7, 640).map(lambda n: n / 64),
)

_t = st.one_of(
    st.just([0, 0]),
    st.tuples(st.integers(-5, 5), st.integers(-5, 5)).map(list),
    st.tuples(st.integers(-320, 320), st.integers(-320, 320)).map(lambda t: [t[0] / 16, t[1] / 16]),
)

_frame = st.fixed_dictionaries(dict(
    s=_scale,
    rot=st.one_of(st.sampled_from([0, 90, 180, 270]), st.integers(0, 359)),
    t=_t,
    mirror=st.booleans(),
))

# None = identity frame (numbers are passed exactly as generated)
frame = st.one_of(st.none(), _frame, _frame)


def cplx(R=5):
    return st.tuples(real(-R, R), real(-R, R)).map(list)


def cint(R=4):
    return st.tuples(st.integers(-R, R), st.integers(-R, R)).map(list)


# --- triangles by construction: never nearly flat ---------------------------
def triangle():
    """three vertices of a triangle with smallest height/longest side >= 0.05:
    base of length L on the x-axis, apex at (u*L, v*L)."""
    base = st.fixed_dictionaries(dict(
        L=st.one_of(st.integers(1, 8), grid(0.5, 8, 64)),
        u=st.one_of(st.sampled_from([0, 0.5, 1, 0.25, -1, 2, 1e-5, -1e-5, 1e-4, -1e-4, 1.0001, 0.9999]), grid(-2, 3, 64), grid(-2, 3, 64)),
        v=st.one_of(st.sampled_from([0.5, 1, 2, 0.25, 0.75]), grid(0.15, 3, 64)),
        o=st.tuples(real(-3, 3), real(-3, 3)).map(list),
        turn=st.integers(0, 5),
    ))
    iso = st.fixed_dictionaries(dict(
        L=st.integers(1, 8), u=st.just(0.5), v=st.sampled_from([0.8660254037844386, 0.5, 1.0, 0.25]),
        o=st.tuples(real(-3, 3), real(-3, 3)).map(list), turn=st.integers(0, 5)))
    return st.one_of(base, base, base, iso).map(_mk_triangle)


def _mk_triangle(d):
    L, u, v, (x, y) = d["L"], d["u"], d["v"], d["o"]
    P = [[x, y], [x + L, y], [x + u * L, y + v * L]]
    k = d["turn"]
    P = P[k % 3:] + P[:k % 3]
    if k >= 3:
        P = [P[1], P[0], P[2]]
    return P


def thin_triangle():
    """a very short side, or nearly flat (down to 1/200), next to ordinary ones"""
    thin = st.fixed_dictionaries(dict(
        L=st.one_of(st.integers(1, 8), grid(0.5, 8, 64)),
        u=st.sampled_from([0, 0.02, 0.05, 0.95, 1, 0.5, 0.3, 1.1]), v=st.sampled_from([0.005, 0.02, 0.05, 0.1]),
        o=st.tuples(real(-3, 3), real(-3, 3)).map(list), turn=st.integers(0, 5)))
    return st.one_of(triangle(), thin.map(_mk_triangle))


# --- pairs of circles by mutual position -------------------------------------
def circle_pair(kinds, r1=None, ratio=None):
    """unit-scale description; see props.pairs.pair() for the realisation"""
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(kinds),
        o=pt(5),
        r1=r1 if r1 is not None else st.one_of(st.integers(1, 5), grid(0.5, 5, 64)),
        rho=ratio if ratio is not None else st.one_of(st.sampled_from([0.5, 2, 3, 0.25, 1.001, 0.999, 1.0002, 100, 0.01]),
                                                      grid(0.2, 0.9, 64), grid(1.125, 4, 64)),
        u=st.one_of(grid(0.03, 0.97, 64), grid(0.03, 0.97, 64), st.sampled_from([3e-4, 1 - 3e-4, 3e-3, 1 - 3e-3])),
        dir=st.one_of(st.integers(0, 3).map(lambda k: 90 * k), angle360()),
        frame=frame,
    ))


ellipse = st.fixed_dictionaries(dict(
    c=pt(6),
    a=st.one_of(st.integers(1, 8), grid(0.5, 8, 64)),
    e=st.one_of(st.sampled_from([0.5, 0.25, 0.2, 0.75, 1]), grid(0.1, 0.98, 64)),
    al=angle(),
    deg=st.booleans(),
    frame=frame,
))

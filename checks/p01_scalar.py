"""P01: elementwise transforms - value, inverse, range and density bookkeeping."""
import itertools

import numpy as np

from mc.lib import generic, prod, shapes_broadcasting_to

PROPERTY = "P01"
RULE = (
    "Exhaustive product of {15 elementwise transforms} x {all parameter tuples of a finite alphabet} "
    "x {grid of points incl. near-edge points}, and of {transform} x {batch shapes} x {event shapes} x "
    "{every parameter shape that broadcasts to batch+event} x {both directions}; oracle is an independent "
    "numpy/scipy closed form of the map and of its derivative."
)
ASSUMPTIONS = [
    "float64 arithmetic; points where the map is flat to working precision are compared with a "
    "condition-number-scaled tolerance",
    "parameter/point values are a finite alphabet; shape space is complete up to rank 2+2",
]


def _np():
    import scipy.special as sp

    return sp


def softplus(a):
    return np.logaddexp(0.0, a)


def sigmoid(a):
    sp = _np()
    return sp.expit(a)


_I = lambda a: a  # noqa: E731


def _cubic_inv(y, a, b):
    """real root of a x + b x^3 = y (a,b>0) by bisection + newton in float64"""
    y, a, b = np.broadcast_arrays(*(np.asarray(v, float) for v in (y, a, b)))
    hi = np.maximum(np.cbrt(np.abs(y) / b), 0) + 1e-3
    lo = -hi
    lo, hi = lo.copy(), hi.copy()
    for _ in range(200):
        m = 0.5 * (lo + hi)
        v = a * m + b * m**3 - y
        lo = np.where(v < 0, m, lo)
        hi = np.where(v < 0, hi, m)
    return 0.5 * (lo + hi)


# name -> (params dict name->(raw alphabet, default numpy transform), f(x,**p), logdf(x,**p), domain kind, range)
def table():
    sp = _np()
    T = {}
    T["GaussianCDF"] = (
        dict(scale=([0.2, 0.5413248546129181, 2.0], softplus), mean=([-1.5, 0.0, 0.7], _I)),
        lambda x, scale, mean: sp.ndtr((x - mean) / scale),
        lambda x, scale, mean: -0.5 * ((x - mean) / scale) ** 2 - np.log(scale) - 0.5 * np.log(2 * np.pi),
        "R3", (0, 1))
    T["Tan"] = (dict(), lambda x: np.tan(np.pi * (x - 0.5)),
                lambda x: np.log(np.pi) - 2 * np.log(np.cos(np.pi * (x - 0.5))), "U", (-np.inf, np.inf))
    T["Sigmoid"] = (dict(), sigmoid, lambda x: -np.logaddexp(0, x) - np.logaddexp(0, -x), "R", (0, 1))
    T["Tanh"] = (dict(), np.tanh, lambda x: -2 * np.log(np.cosh(x)), "R7", (-1, 1))
    T["Exponential"] = (dict(), np.exp, lambda x: x, "R", (0, np.inf))
    T["SoftPlus"] = (dict(), softplus, lambda x: -np.logaddexp(0, -x), "R", (0, np.inf))
    T["Power"] = (dict(exponent=([-2.0, 0.5, 1.0, 3.0], np.abs)),
                  lambda x, exponent: x**exponent,
                  lambda x, exponent: np.log(exponent) + (exponent - 1) * np.log(x), "P", (0, np.inf))
    T["Sinh"] = (dict(), np.sinh, lambda x: np.log(np.cosh(x)), "R", (-np.inf, np.inf))
    T["AffineLinear"] = (dict(scale=([-1.3, 0.0, 0.9], np.exp), shift=([-2.0, 0.0, 0.6], _I)),
                         lambda x, scale, shift: scale * x + shift,
                         lambda x, scale, shift: np.log(scale) + 0 * x, "R", (-np.inf, np.inf))
    T["Scaling"] = (dict(scale=([-2.0, -0.5, 0.3, 1.0, 4.0], _I)),
                    lambda x, scale: scale * x,
                    lambda x, scale: np.log(np.abs(scale)) + 0 * x, "R", (-np.inf, np.inf))
    T["Shift"] = (dict(shift=([-2.0, 0.0, 0.6], _I)), lambda x, shift: x + shift,
                  lambda x, shift: 0 * x + 0 * shift, "R", (-np.inf, np.inf))
    T["BetaStretch"] = (
        dict(a=([-1.0, 0.5413248546129181, 1.7], softplus)),
        lambda x, a: x**a / (x**a + (1 - x) ** a),
        lambda x, a: np.log(a) + (a - 1) * (np.log(x) + np.log1p(-x)) - 2 * np.log(x**a + (1 - x) ** a),
        "U", (0, 1))

    def sigtr(v):
        low, high = -1 + 1e-3, 8 - 1e-3
        d = high - low
        return low + d * sp.expit(v + sp.logit(-low / d))

    def cr(x, loc, alpha, beta):
        z = x - loc
        return z + alpha * z / (1 + beta * z**2) + loc

    def crd(x, loc, alpha, beta):
        z = x - loc
        q = 1 + beta * z**2
        return np.log(1 + alpha * (1 - beta * z**2) / q**2)

    T["CubicRational"] = (
        dict(loc=([-0.5, 0.0, 0.8], _I), alpha=([-1.2, 0.0, 1.1], sigtr),
             beta=([-1.5, 0.0, 1.3], lambda b: 0.1 + softplus(b + 1))),
        cr, crd, "R", (-np.inf, np.inf))

    def sc(x, loc, alpha, beta, mu, nu):
        z = (x - loc) / alpha
        return np.arcsinh(np.exp(mu) * (np.exp(nu) * np.sinh(z) + beta)) * alpha + loc

    def scd(x, loc, alpha, beta, mu, nu):
        z = (x - loc) / alpha
        arg = np.exp(mu) * (np.exp(nu) * np.sinh(z) + beta)
        return mu + nu + np.log(np.cosh(z)) - 0.5 * np.log1p(arg**2)

    T["SinhConjugation"] = (
        dict(loc=([-0.5, 0.7], _I), alpha=([-1.0, 0.9], lambda v: softplus(v) + 0.01),
             beta=([-1.2, 0.0, 0.8], _I), mu=([-0.8, 0.0, 1.1], np.arcsinh),
             nu=([-0.6, 0.0, 0.9], np.arcsinh)),
        sc, scd, "R", (-np.inf, np.inf))

    def cc(x, loc, beta, a, b):
        z = x - loc
        return _cubic_inv(a * z + b * z**3 + beta, a, b) + loc

    def ccd(x, loc, beta, a, b):
        z = x - loc
        w = _cubic_inv(a * z + b * z**3 + beta, a, b)
        return np.log((a + 3 * b * z**2) / (a + 3 * b * w**2))

    T["CubicConjugation"] = (
        dict(loc=([-0.5, 0.7], _I), beta=([-1.2, 0.0, 0.8], _I), a=([-0.8, 1.1], softplus),
             b=([-0.6, 0.9], softplus)),
        cc, ccd, "R", (-np.inf, np.inf))
    return T


NAMES = ["GaussianCDF", "Tan", "Sigmoid", "Tanh", "Exponential", "SoftPlus", "Power", "Sinh",
         "AffineLinear", "Scaling", "Shift", "BetaStretch", "CubicRational", "SinhConjugation",
         "CubicConjugation"]

GRID = {
    "R": [-9.0, -4.0, -2.5, -1.0, -0.7, -1e-3, 0.0, 1e-6, 0.3, 1.0, 1.9, 3.3, 6.0, 11.0],
    "R7": [-7.0, -4.0, -2.5, -1.0, -0.7, -1e-3, 0.0, 1e-6, 0.3, 1.0, 1.9, 3.3, 6.0],
    "R3": [-3.0, -2.2, -1.0, -0.7, -1e-3, 0.0, 1e-6, 0.3, 1.0, 1.9, 2.8],
    "U": [1e-6, 1e-3, 0.02, 0.2, 0.37, 0.5, 0.61, 0.8, 0.97, 0.999, 1 - 1e-6],
    "P": [1e-6, 1e-2, 0.3, 0.999, 1.0, 1.7, 4.0, 30.0],
}
SPAN = {"R": (-2.5, 2.5), "R7": (-2.0, 2.0), "R3": (-2.0, 2.0), "U": (0.05, 0.95), "P": (0.1, 3.0)}


def cases(tier):
    for n in NAMES:
        yield "values", dict(name=n)
    big = tier == "thorough"
    batches = [(), (2,), (2, 3)] + ([(0,), (1,), (3, 1)] if big else [(0,)])
    events = [(), (3,), (2, 3)] + ([(1,), (1, 3), (2, 1, 2)] if big else [(1,)])
    for n in NAMES:
        for b in batches:
            for e in events:
                if not big and len(b) == 2 and e != (3,):
                    continue
                yield "shapes", dict(name=n, batch=list(b), event=list(e))
        yield "kwargs", dict(name=n)
        yield "init", dict(name=n)
        yield "specs", dict(name=n)
    for n in ("GaussianCDF", "Sigmoid", "Tanh", "Exponential", "SoftPlus", "Sinh", "AffineLinear", "Scaling", "Shift", "CubicRational", "SinhConjugation", "CubicConjugation"):
        yield "tail", dict(name=n)
    for n in ("Power", "AffineLinear", "Scaling", "GaussianCDF", "BetaStretch", "SoftPlus", "Exponential", "Sinh"):
        yield "raw", dict(name=n)
    for n in WIDE:
        yield "wide", dict(name=n)
    for b in batches:
        yield "custom", dict(name="custom", batch=list(b))


def weight(f, c):
    return {"values": 3, "shapes": 1 + len(c.get("batch", [])) + len(c.get("event", []))}.get(f, 1)


def _cubic_root(t, a, b):
    """Real root of a z + b z^3 = t in extended precision."""
    t = np.asarray(t, dtype=np.longdouble)
    a, b = np.longdouble(a), np.longdouble(b)
    z = np.where(np.abs(t) * np.sqrt(b / a) < a, t / a, np.cbrt(t / b))
    for _ in range(100):
        z = z - (a * z + b * z**3 - t) / (a + 3 * b * z * z)
    return z


def _w_sinh(x, loc, alpha, beta, mu, nu):
    z = (x - loc) / alpha
    arg = np.exp(mu) * (np.exp(nu) * np.sinh(z) + beta)
    return np.arcsinh(arg) * alpha + loc, mu + nu + np.logaddexp(z, -z) - np.log(2) - np.log(np.hypot(1, arg))


def _w_rational(x, loc, alpha, beta):
    z = x - loc
    q = 1 + beta * z * z
    return z + alpha * z / q + loc, np.log1p(alpha * (1 - beta * z * z) / q**2)


def _w_cubic(x, loc, beta, a, b):
    z = x.astype(np.longdouble) - loc
    w = _cubic_root(a * z + b * z**3 + beta, a, b)
    return np.asarray(w + loc, dtype=float), np.asarray(np.log((a + 3 * b * z * z) / (a + 3 * b * w * w)), dtype=float)


def _w_beta(x, a):
    with np.errstate(all="ignore"):
        t = a * (np.log(x) - np.log1p(-x))
        e = np.exp(-np.abs(t))
        y = np.where(t >= 0, 1 / (1 + e), e / (1 + e))
        edge = 0.0 if a == 1 else (a - 1) * (np.log(x) + np.log1p(-x))
        return y, np.log(a) + edge - 2 * np.logaddexp(a * np.log(x), a * np.log1p(-x))


_XS = [-1e3, -300.0, -40.0, -25.0, -16.0, -14.5, -9.0, -2.0, -1e-3, 0.0, 1e-6, 0.3, 3.0, 13.0, 14.9, 15.5, 29.9, 30.1, 40.0, 300.0, 1e3]
# parameters over many orders of magnitude, as used after their transformation
WIDE = {
    "SinhConjugation": (_w_sinh, dict(loc=[0.0, 3.0], alpha=[0.3, 1.0, 4.0], beta=[-1e3, -1.0, 0.0, 30.0, 1e5],
                                      mu=[-7.0, -2.0, 0.0, 3.0, 7.0], nu=[-7.0, 0.0, 2.0, 7.0]), [x for x in _XS if abs(x) < 100]),
    "CubicRational": (_w_rational, dict(loc=[-3.0, 0.0, 50.0], alpha=[-0.99, -0.5, 0.0, 1.0, 7.9], beta=[1e-4, 0.1, 1.0, 30.0, 1e3]), _XS + [-1e8, 1e6, 1e20]),
    "CubicConjugation": (_w_cubic, dict(loc=[0.0, 50.0], beta=[-1e3, -0.1, 0.0, 100.0], a=[1e-2, 1.0, 1e3], b=[1e-2, 1.0, 1e3]), _XS + [1e8]),
    "BetaStretch": (_w_beta, dict(a=[0.05, 0.3, 1.0, 2.0, 14.0, 100.0, 1500.0]),
                    [0.0, 1e-30, 1e-9, 1e-6, 1e-3, 0.1, 0.3, 0.499, 0.5, 0.51, 0.7, 0.9, 0.999, 1 - 1e-6, 1.0]),
}


def wide(name, rec):
    import jax
    import jax.numpy as jnp

    import bijx

    ref, grid, xs = WIDE[name]
    free = {"SinhConjugation": ("alpha", "mu", "nu"), "CubicRational": ("loc", "alpha", "beta"), "CubicConjugation": ("a", "b"), "BetaStretch": ("a",)}[name]
    combos = list(itertools.product(*grid.values()))
    x = np.array(xs)
    X = np.broadcast_to(x, (len(combos), x.size))
    raw = {k: np.array([c[i] for c in combos])[:, None] for i, k in enumerate(grid)}
    bij = getattr(bijx, name)(**{k: jnp.asarray(v) for k, v in raw.items()}, **{f"{k}_transform" if name != "BetaStretch" else f"transform_{k}": None for k in free})
    want = [ref(x, **dict(zip(grid, c))) for c in combos]
    wy, wl = np.stack([w[0] for w in want]), np.stack([w[1] for w in want])
    ld0 = generic(X.shape, salt=4)
    asym = asym_inv = 0.0
    if name == "SinhConjugation":  # the documented asymptotic forms for |z| > 30
        asym = 4 * np.abs(raw["beta"]) * np.exp(-30 - raw["nu"]) + 4 * np.exp(-60 - 2 * raw["mu"] - 2 * raw["nu"])
        asym_inv = 4 * np.abs(raw["beta"]) * np.exp(-30 + raw["mu"]) + 4 * np.exp(-60 + 2 * raw["mu"] + 2 * raw["nu"])
    amp = raw.get("alpha", 1.0) if name == "SinhConjugation" else 1.0
    for tag, fn in (("eager", lambda g: g), ("jit", jax.jit)):
        y, l = (np.asarray(t) for t in fn(lambda x, l: bij.forward(x, l))(jnp.asarray(X), jnp.asarray(ld0)))
        # log-densities: rounding, and the documented regularisation of the cubic's derivative
        slack = 1e-8 * (1 + np.abs(np.where(np.isfinite(wl), wl, 0))) + (2e-12 * np.exp(-wl) if name == "CubicConjugation" else 0) + asym
        bad = ~(np.abs(y - wy) <= 1e-9 * (1e-300 + np.abs(wy)) + (1e-9 if name != "BetaStretch" else 0) + amp * asym)
        rec.expect(not bad.any(), f"wide:value:{tag}", at=[(combos[i], x[j]) for i, j in np.argwhere(bad)[:3]])
        fin = np.isfinite(wl)
        rec.expect(np.array_equal(l[~fin], -wl[~fin]), f"wide:density-limit:{tag}", got=l[~fin][:5], want=-wl[~fin][:5])
        bad = fin & ~(np.abs(l - (ld0 - np.where(fin, wl, 0))) <= slack)
        rec.expect(not bad.any(), f"wide:density:{tag}", at=[(combos[i], x[j], l[i, j] - ld0[i, j], -wl[i, j]) for i, j in np.argwhere(bad)[:3]])
        xr, lr = (np.asarray(t) for t in fn(lambda x, l: bij.reverse(x, l))(jnp.asarray(wy), jnp.asarray(ld0)))
        with np.errstate(over="ignore", invalid="ignore"):
            t = 1e-10 * (1 + np.abs(X)) + 256 * np.finfo(float).eps * (1 + np.abs(wy)) * np.exp(-wl)
        t = np.where(fin, t, 1e-10) + amp * asym_inv
        if name == "BetaStretch":  # values that round to an end point come back as that end point
            t = np.where((wy == 0) | (wy == 1), 1.0, t)
            rec.expect(np.all((xr >= 0) & (xr <= 1)), f"wide:inverse-range:{tag}")
            rec.expect(np.all(xr[wy == 1] == 1) and np.all(xr[wy == 0] == 0), f"wide:inverse-ends:{tag}")
        bad = ~(np.abs(xr - X) <= t)
        rec.expect(not bad.any(), f"wide:inverse:{tag}", at=[(combos[i], x[j], xr[i, j]) for i, j in np.argwhere(bad)[:3]])
        if name != "BetaStretch":
            lt = 1e-7 * (1 + np.abs(wl)) + 1e3 * t / (1e-3 + np.abs(X)) + asym + (2e-12 * np.exp(-wl) if name == "CubicConjugation" else 0)
            bad = ~(np.abs(lr - ld0 - wl) <= lt)
            rec.expect(not bad.any(), f"wide:inverse-density:{tag}", at=[(combos[i], x[j], lr[i, j] - ld0[i, j], wl[i, j]) for i, j in np.argwhere(bad)[:3]])
        rec.step(2 * X.size)
    for c in combos:
        rec.state("wide", name, c)
        rec.trace()


def _build(name, raw):
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    cls = getattr(bijx, name)
    kw = {k: nnx.Param(jnp.asarray(v)) for k, v in raw.items()}
    return cls(**kw, rngs=nnx.Rngs(0)) if raw else cls()


def _tol(logd, y):
    # error in x caused by rounding y, via conditioning
    return 1e-8 + 64 * np.finfo(float).eps * (np.abs(y) + 1e-300) * np.exp(-logd)


def custom(rec, b):
    """A transformation supplied by the user through fwd / rev / log_jac, with a keyword argument that changes the slope."""
    import jax
    import jax.numpy as jnp

    import bijx

    def make(uses):
        class Mine(bijx.ScalarBijection):
            def fwd(self, x, *, c=0.3, **kw):
                return jnp.sinh(x * jnp.exp(c))

            def rev(self, y, *, c=0.3, **kw):
                return jnp.arcsinh(y) * jnp.exp(-c)

            def log_jac(self, x, y, *, c=0.3, **kw):
                return c + (jnp.log(jnp.cosh(x * jnp.exp(c))) if uses == "x" else 0.5 * jnp.log1p(y * y))

        return Mine()

    for uses in ("x", "y"):
        m = make(uses)
        for e in [(), (3,), (2, 3), (1, 2)]:
            x, ld = generic(b + e, -1.2, 1.2, salt=2), generic(b, salt=3)
            for kw in ({}, {"c": -0.4}, {"c": 0.2, "other": 5}):
                c = kw.get("c", 0.3)
                y = np.sinh(x * np.exp(c))
                want = (c + np.log(np.cosh(x * np.exp(c)))).sum(tuple(range(len(b), len(b) + len(e))))
                for tag, obj, inv in (("direct", m, False), ("inverted", m.invert(), True), ("chained", bijx.Chain(m), False)):
                    for fn in (lambda g: g, jax.jit):
                        f = fn(lambda a, l: obj.forward(a, l, **kw))
                        r = fn(lambda a, l: obj.reverse(a, l, **kw))
                        y1, l1 = (r if inv else f)(jnp.asarray(x), jnp.asarray(ld))
                        x1, l2 = (f if inv else r)(jnp.asarray(y), jnp.asarray(ld))
                        rec.close(y1, y, "custom:value", kw=kw, tag=tag, uses=uses)
                        rec.close(l1, ld - want, "custom:density", kw=kw, tag=tag, uses=uses)
                        rec.close(x1, x, "custom:inverse", kw=kw, tag=tag, uses=uses)
                        rec.close(l2, ld + want, "custom:inverse-density", kw=kw, tag=tag, uses=uses)
                        rec.step(2)
                rec.state("custom", b, e, uses, str(kw))
                rec.trace()


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp

    import bijx

    T = table()
    name = case["name"]
    if family == "custom":
        return custom(rec, tuple(case["batch"]))
    params, f, logdf, dom, rng = T[name]

    if family == "wide":
        return wide(name, rec)

    if family == "raw":
        # parameters used as given (no transformation), of either sign where the map allows it; wide ranges
        tabs = {
            "Power": (dict(transform_exponent=None), dict(exponent=[-3.0, -1.0, -0.4, 0.3, 1.0, 2.5]), [1e-3, 0.2, 0.9, 1.0, 1.4, 3.0, 40.0]),
            "AffineLinear": (dict(transform_scale=None), dict(scale=[-2.0, -0.3, 0.4, 5.0], shift=[-3.0, 0.0, 40.0]), [-50.0, -2.0, 0.0, 0.7, 90.0]),
            "Scaling": (dict(), dict(scale=[-40.0, -1.0, -1e-3, 1e-3, 1.0, 40.0]), [-50.0, -2.0, 0.0, 0.7, 90.0]),
            "GaussianCDF": (dict(transform_scale=None), dict(scale=[0.1, 1.0, 7.0], mean=[-4.0, 0.0, 9.0]), None),
            "BetaStretch": (dict(transform_a=None), dict(a=[0.1, 0.5, 1.0, 8.0, 14.0, 25.0]), [0.25, 0.4, 0.5, 0.58, 0.7]),
            "SoftPlus": (dict(), {}, [-34.0, -20.0, -3.0, 0.0, 8.0, 31.0, 45.0, 300.0]),
            "Exponential": (dict(), {}, [-34.0, -20.0, -3.0, 0.0, 8.0, 31.0, 45.0, 300.0]),
            "Sinh": (dict(), {}, [-300.0, -20.0, -3.0, 0.0, 8.0, 31.0, 300.0]),
        }
        kw, alph, xs = tabs[name]
        for combo in itertools.product(*alph.values()):
            p = dict(zip(alph, combo))
            x = np.array(xs) if xs is not None else p["mean"] + p["scale"] * np.array([-3.0, -1.2, 0.0, 0.4, 2.5])
            if name == "Power":
                y, wl = x ** p["exponent"], np.log(abs(p["exponent"])) + (p["exponent"] - 1) * np.log(x)
            elif name in ("AffineLinear", "Scaling"):
                y, wl = p["scale"] * x + p.get("shift", 0.0), np.log(abs(p["scale"])) + 0 * x
            elif name == "Sinh":
                y, wl = np.sinh(x), np.logaddexp(x, -x) - np.log(2)
            else:
                y, wl = f(x, **p), logdf(x, **p)
            bij = getattr(bijx, name)(**{k: jnp.asarray(v) for k, v in p.items()}, **kw, **(dict(rngs=__import__("flax").nnx.Rngs(0)) if p else {}))
            ld0 = generic(x.shape, salt=4)
            t = _tol(wl, y) * 10 * (1 + np.abs(x)) + 1e-7 * np.abs(x)
            for tag, fn in (("eager", lambda g: g), ("jit", jax.jit)):
                got, l = fn(bij.forward)(jnp.asarray(x), jnp.asarray(ld0))
                rec.close(got, y, f"raw:value:{tag}", rtol=1e-7, atol=1e-300, p=p)
                rec.close(l, ld0 - wl, f"raw:density:{tag}", rtol=1e-6, atol=2e-6, p=p)
                xr, lr = fn(bij.reverse)(jnp.asarray(y), jnp.asarray(ld0))
                rec.expect(np.all(np.abs(np.asarray(xr) - x) <= t), f"raw:inverse:{tag}", p=p, got=xr, want=x)
                rec.expect(np.all(np.abs(np.asarray(lr) - ld0 - wl) <= (2e-6 + 50 * t) * (1 + np.abs(wl))), f"raw:inverse-density:{tag}", p=p)
                rec.step(2 * x.size)
            rec.state("raw", name, combo)
            rec.trace()
        return

    if family == "tail":
        # far out the image saturates (or grows), but the density keeps following the derivative
        xs = {"SinhConjugation": [-90.0, -40.0, -30.0, -19.0, -14.0, 13.0, 19.0, 30.0, 40.0, 90.0]}.get(name, [-700.0, -300.0, -120.0, -38.0, -25.0, -19.5, -9.5, 9.5, 19.5, 25.0, 38.0, 120.0, 300.0, 700.0])
        keys = list(params)
        combos = list(itertools.product(*[params[k][0] for k in keys])) or [()]
        raw = {k: np.array([c[i] for c in combos])[:, None] for i, k in enumerate(keys)}
        p = {k: params[k][1](raw[k]) for k in keys}
        X = np.broadcast_to(np.array(xs), (len(combos), len(xs)))
        bij = _build(name, raw)
        ld0 = generic(X.shape, salt=4)
        wy, wl = f(X, **p), np.broadcast_to(logdf(X, **p), X.shape)
        for tag, fn in (("eager", lambda g: g), ("jit", jax.jit)):
            y, ld = fn(lambda x, l: bij.forward(x, l))(jnp.asarray(X), jnp.asarray(ld0))
            rec.close(y, wy, "tail:value", rtol=1e-7, atol=1e-300, tag=tag)
            rec.close(ld, ld0 - wl, "tail:density", rtol=1e-7, atol=1e-7, tag=tag)
            g = jax.grad(lambda x: bij.forward(x, jnp.asarray(ld0))[1].sum())(jnp.asarray(X))
            rec.expect(np.all(np.isfinite(np.asarray(g))), "tail:density-gradient", tag=tag)
            rec.step(2 * X.size)
        for c in combos:
            rec.state("tail", name, c)
        rec.trace()
        return

    if family == "values":
        keys = list(params)
        combos = list(itertools.product(*[params[k][0] for k in keys])) or [()]
        raw = {k: np.array([c[i] for c in combos])[:, None] for i, k in enumerate(keys)}
        p = {k: params[k][1](raw[k]) for k in keys}
        x = np.array(GRID[dom])
        X = np.broadcast_to(x, (len(combos), len(x)))
        bij = _build(name, raw)
        want_y = f(X, **p)
        want_l = np.broadcast_to(logdf(X, **p), X.shape)
        for mode in ("eager", "jit"):
            ld0 = generic(X.shape, salt=4)
            fw = (lambda x, l: bij.forward(x, l)) if mode == "eager" else jax.jit(lambda x, l: bij.forward(x, l))
            rv = (lambda x, l: bij.reverse(x, l)) if mode == "eager" else jax.jit(lambda x, l: bij.reverse(x, l))
            y, ld = fw(jnp.asarray(X), jnp.asarray(ld0))
            rec.step(X.size)
            rec.close(y, want_y, f"{mode}:map-value", rtol=1e-7, atol=1e-9)
            rec.close(ld, ld0 - want_l, f"{mode}:density-forward", rtol=1e-6, atol=2e-6)
            y = np.asarray(y)
            rec.expect(np.all(y >= rng[0]) and np.all(y <= rng[1]), f"{mode}:range")
            pos = name != "Scaling"
            if pos:
                rec.expect(np.all(np.diff(y, axis=1) > 0), f"{mode}:monotone")
            xr, ldr = rv(jnp.asarray(want_y), jnp.asarray(ld0))
            rec.step(X.size)
            t = _tol(want_l, want_y) * (1 + np.abs(X)) * 10
            rec.expect(np.all(np.abs(np.asarray(xr) - X) <= t + 1e-7 * np.abs(X)), f"{mode}:inverse-value",
                       got=np.asarray(xr), want=X)
            tl = 2e-6 + t * 50
            rec.expect(np.all(np.abs(np.asarray(ldr) - ld0 - want_l) <= tl * (1 + np.abs(want_l))),
                       f"{mode}:density-reverse", got=np.asarray(ldr) - ld0, want=want_l)
            xb, lb = rv(*fw(jnp.asarray(X), jnp.asarray(ld0)))
            rec.step(2 * X.size)
            rec.expect(np.all(np.abs(np.asarray(xb) - X) <= t + 1e-7 * np.abs(X)), f"{mode}:roundtrip-x")
            rec.expect(np.all(np.abs(np.asarray(lb) - ld0) <= tl * (1 + np.abs(want_l))), f"{mode}:roundtrip-density",
                       got=np.asarray(lb), want=ld0)
        for c in combos:
            rec.state(name, c)
            rec.trace(len(x))
        for v in np.asarray(want_y).ravel()[:50]:
            rec.outcome(name, float(v))
        # the inverse wrapper must be the same map read backwards
        inv = bij.invert()
        yi, li = inv.forward(jnp.asarray(want_y), jnp.asarray(ld0))
        rec.close(yi, xr, "invert:value", rtol=1e-9, atol=1e-9)
        rec.close(li, ldr, "invert:density", rtol=1e-9, atol=1e-9)

    elif family == "shapes":
        b, e = tuple(case["batch"]), tuple(case["event"])
        full = b + e
        keys = list(params)
        pshapes = shapes_broadcasting_to(full) if keys else [()]
        if len(pshapes) > 14:
            # all shapes with a single reduced/dropped pattern plus event-only shapes
            ev = set(shapes_broadcasting_to(e))
            pshapes = [s for s in pshapes if s in ev or s.count(1) <= 1]
        lo, hi = SPAN[dom]
        x = generic(full, lo, hi, salt=1)
        ld0 = generic(b, -1, 1, salt=5)
        axes = tuple(range(len(b), len(full)))
        for ps in pshapes:
            raw = {}
            for i, k in enumerate(keys):
                al = params[k][0]
                r = generic(ps, min(al), max(al), salt=2 + i)
                if name in ("Scaling", "Power"):
                    r = np.sign(r) * (np.abs(r) + 0.2)
                raw[k] = r
            p = {k: params[k][1](raw[k]) for k in keys}
            bij = _build(name, raw)
            y, ld = bij.forward(jnp.asarray(x), jnp.asarray(ld0))
            wy = np.broadcast_to(f(x, **p), full)
            wl = np.broadcast_to(logdf(x, **p), full)
            rec.step(2)
            rec.trace(1)
            rec.state(name, b, e, ps)
            rec.close(y, wy, "shape:value", rtol=1e-7, atol=1e-8, params=ps)
            rec.close(ld, ld0 - wl.sum(axis=axes), "shape:density-forward", rtol=1e-6, atol=1e-6, params=ps)
            x2, l2 = bij.reverse(jnp.asarray(wy), jnp.asarray(ld0))
            rec.close(x2, x, "shape:inverse", rtol=1e-6, atol=1e-6, params=ps)
            rec.close(l2, ld0 + wl.sum(axis=axes), "shape:density-reverse", rtol=1e-5, atol=1e-5, params=ps)

    elif family == "kwargs":
        # unrelated keyword arguments shared by a whole chain must be tolerated and change nothing
        raw = {k: np.asarray(v[0][-1]) for k, v in params.items()}
        bij = _build(name, raw)
        lo, hi = SPAN[dom]
        x = jnp.asarray(generic((2, 3), lo, hi, salt=1))
        ld = jnp.zeros(2)
        a = bij.forward(x, ld)
        b = bij.forward(x, ld, condition=jnp.ones(3))
        rec.close(a[0], b[0], "kwargs:value")
        rec.close(a[1], b[1], "kwargs:density")
        c = bij.reverse(a[0], a[1], condition=jnp.ones(3))
        rec.close(c[0], x, "kwargs:inverse", rtol=1e-6, atol=1e-6)
        rec.close(c[1], ld, "kwargs:inverse-density", rtol=1e-6, atol=1e-6)
        rec.step(3)
        rec.trace()
        rec.state(name, "kwargs")

    elif family == "init":
        # documented default initialisation (identity-like) for transforms with learnable parameters
        from flax import nnx


        want = {"GaussianCDF": dict(scale=1.0, mean=0.0), "Power": dict(exponent=1.0),
                "AffineLinear": dict(scale=1.0, shift=0.0), "Scaling": dict(scale=1.0),
                "Shift": dict(shift=0.0), "BetaStretch": dict(a=1.0)}.get(name)
        rec.state(name, "init")
        cls = getattr(bijx, name)
        x = generic((4,), *SPAN[dom], salt=3)
        for shape in [(), (4,)]:
            bij = cls(**{k: shape for k in keys_of(params)}, rngs=nnx.Rngs(1)) if params else cls()
            y, ld = bij.forward(jnp.asarray(x), jnp.zeros(()))
            rec.step()
            if want is not None:
                rec.close(y, f(x, **want), "init:value", rtol=1e-7, atol=1e-9)
                rec.close(ld, -np.sum(logdf(x, **want)), "init:density", rtol=1e-7, atol=1e-8)
            xr, l0 = bij.reverse(y, ld)
            rec.close(xr, x, "init:roundtrip", rtol=1e-6, atol=1e-6)
            rec.close(l0, 0.0, "init:roundtrip-density", rtol=1e-6, atol=1e-6)
            rec.trace()

    elif family == "specs":
        # Param / Const / jax array / numpy array parameter specifications, and explicit (or no) transforms
        from flax import nnx


        cls = getattr(bijx, name)
        keys = keys_of(params)
        x = generic((4,), *SPAN[dom], salt=3)
        rec.state(name, "specs")
        tname = {"GaussianCDF": "transform_{}", "Power": "transform_{}", "AffineLinear": "transform_{}",
                 "Scaling": "transform_{}", "Shift": "transform_{}", "BetaStretch": "transform_{}",
                 "CubicRational": "{}_transform"}.get(name)
        base = {k: params[k][0][-1] for k in keys}
        p = {k: params[k][1](np.asarray(base[k])) for k in keys}
        if keys:
            for form in ("param", "const", "jax", "numpy"):
                w = {"param": lambda v: nnx.Param(jnp.asarray(v)), "const": lambda v: bijx.Const(jnp.asarray(v)),
                     "jax": jnp.asarray, "numpy": np.asarray}[form]
                bij = cls(**{k: w(v) for k, v in base.items()}, rngs=nnx.Rngs(0))
                y, ld = bij.forward(jnp.asarray(x), jnp.zeros(()))
                rec.close(y, f(x, **p), f"spec:{form}:value", rtol=1e-7, atol=1e-8)
                rec.close(ld, -np.sum(np.broadcast_to(logdf(x, **p), x.shape)), f"spec:{form}:density", rtol=1e-6, atol=1e-6)
                rec.step()
                rec.trace()
        if tname:
            # custom transform: identity on an already-constrained value
            vals = {"scale": [0.4, 2.0], "mean": [0.3], "exponent": [0.5, 2.0], "shift": [-0.4], "a": [0.6, 1.8],
                    "alpha": [-0.5, 2.0], "beta": [0.7], "loc": [0.2]}
            if name in ("Scaling", "AffineLinear"):
                vals["scale"] = [0.4, 2.0, -1.5]
            for combo in itertools.product(*[vals[k] for k in keys]):
                v = dict(zip(keys, combo))
                bij = cls(**{k: jnp.asarray(a) for k, a in v.items()},
                          **{tname.format(k): None for k in keys}, rngs=nnx.Rngs(0))
                y, ld = bij.forward(jnp.asarray(x), jnp.zeros(()))
                if name == "AffineLinear":
                    wl = np.log(np.abs(v["scale"])) * x.size
                else:
                    wl = np.sum(np.broadcast_to(logdf(x, **v), x.shape))
                rec.close(y, f(x, **v), "spec:raw:value", rtol=1e-7, atol=1e-8, v=v)
                rec.close(ld, -wl, "spec:raw:density", rtol=1e-6, atol=1e-6, v=v)
                xr, l0 = bij.reverse(y, ld)
                rec.close(xr, x, "spec:raw:roundtrip", rtol=1e-6, atol=1e-6, v=v)
                rec.step(2)
                rec.trace()


def keys_of(params):
    return list(params)

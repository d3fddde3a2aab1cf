"""P31: the derivatives that training uses are finite and correct at every point, special points included."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P31"
RULE = (
    "Reverse-mode derivatives of images, inverses, log densities, observables and field outputs with respect to inputs and to every parameter array are compared with one-sided "
    "difference quotients (both sides, two step sizes). Elementwise transforms: all parameter tuples x grid and far points x both directions x every parameter; splines: parameter "
    "words x {every knot, interval ends, bin interiors, outside} x minimum-size settings x both directions x every parameter entry, and image slope = exp(log density change) exactly; "
    "radial layers: dimension x radius map x {centre, near, generic, far}; every kind of module x {generic, zero, one, +-50, centre} x every parameter array; "
    "in 32-bit mode every elementwise derivative stays finite on the same grid and those of all modules agree; every observable x {generic, zero/identity, constant} configurations x every argument."
)
ASSUMPTIONS = [
    "where left and right derivatives differ (kinks) anything between them is accepted; where the difference quotients do not converge (jumps, genuinely infinite derivatives) nothing is required",
    "solvers with their own adjoint (fixed-step Runge-Kutta, group integration) are decided by P09 and P10",
]
EPS = np.finfo(float).eps


def quotients(f, h, rev=False):
    """f: step (scalar multiple of h) -> array; left and right second-order quotients at two step sizes."""
    f0 = f(0.0)
    out, vals = [], [f0]
    for s in (1.0, -1.0):
        for c in (1.0, 0.25):
            a, b = f(s * c), f(2 * s * c)
            vals += [a, b]
            with np.errstate(all="ignore"):
                out.append((-3 * f0 + 4 * a - b) / (2 * s * c * h))
    with np.errstate(all="ignore"):
        noise = 30 * EPS * np.max([np.abs(v) for v in vals], 0) / h
    return f0, out, noise


def judge(f0, q, noise, got, xnoise=0.0, rtol=1e-5):
    """(bad, comparable): got lies within the bracket of the quotients wherever they converge"""
    with np.errstate(all="ignore"):
        lo, hi = np.min(q, 0), np.max(q, 0)
        mag = np.maximum(np.abs(lo), np.abs(hi))
        tol = rtol * (1e-3 + mag) + noise + xnoise
        # both sides have a limit
        conv = np.isfinite(mag) & np.isfinite(f0)
        conv &= (np.abs(q[0] - q[1]) <= 1e-3 * mag + tol) & (np.abs(q[2] - q[3]) <= 1e-3 * mag + tol)
        conv &= noise + xnoise <= 1e-3 * (1 + mag)
        tol = tol + 2 * (np.abs(q[0] - q[1]) + np.abs(q[2] - q[3]))
        bad = conv & ~((got >= lo - tol) & (got <= hi + tol))
    return bad, conv


def cases(tier):
    from checks import p01_scalar

    full = tier == "thorough"
    for n in p01_scalar.NAMES:
        yield "scalar", dict(name=n)
        yield "single", dict(name=n)
    for K in (1, 2, 3) + ((4, 6) if full else ()):
        for i in range(3):
            yield "spline", dict(K=K, mins=i, full=full)
    for n in (1, 2, 3) + ((4, 5) if full else ()):
        for r in ("scaling", "power", "ray-affine", "ray-softplus", "ray-sinh", "ray-conj", "ray-exp", "ray-chain", "spline"):
            yield "radial", dict(n=n, rad=r)
    for n in KINDS:
        yield "kind", dict(name=n)
    from checks import p30_single

    for n in p30_single.OBS:
        if n not in NOFUNC:
            yield "function", dict(name=n)


# custom adjoints (P09, P10); no floating point argument
NOKIND = ("rk4", "cgflow", "autojac", "convcnf", "identity")
NOFUNC = ("momenta", "lap", "resize", "rk4", "rk4_back", "cg_euclid", "moving")
KINDS = [
    "affine", "scaling", "shift", "power", "gausscdf", "beta", "cubic", "sinhconj", "cubicconj", "rqs", "const", "notransform", "chain", "inverse", "condinv", "frozen",
    "scan", "partial_", "expand", "reshape", "ray", "radial", "radcond", "diffrax", "coupling", "coupling-mult", "spectrum", "freeconst", "spectral", "tofourier",
    "convvf", "normal", "uniform", "mvn", "mvn-cov", "diag", "mixture", "gmm", "transformed", "haar", "mlp", "resnet", "convnet", "convsym", "gauss", "kfourier",
    "kreduced", "ffeat", "pfeat",
]


def weight(f, c):
    return {"kind": 3, "scalar": 3, "spline": 4, "radial": 2}.get(f, 1)


def run_case(family, case, rec):
    import jax

    globals()["run_" + family](rec, **case)
    jax.clear_caches()


# ------------------------------------------------------------------ elementwise
EXTRA = {
    "R": [40.0, -40.0, 15.0, 30.0, -30.0, 200.0, -200.0, 800.0, -800.0, 1e4, -1e4], "R7": [-20.0, 20.0, 40.0, -40.0, 100.0], "R3": [-8.0, 8.0, -20.0, 20.0],
    "U": [1e-12, 1e-30, 1 - 1e-12], "P": [1e-30, 1e-12, 1e6, 1e12],
}


def run_scalar(rec, name):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    from checks import p01_scalar as P

    params, f, logdf, dom, rng = P.table()[name]
    keys = list(params)
    combos = list(itertools.product(*[params[k][0] for k in keys])) or [()]
    raw = {k: np.array([c[i] for c in combos])[:, None] for i, k in enumerate(keys)}
    x = np.array(list(P.GRID[dom]) + EXTRA[dom])
    X = np.broadcast_to(x, (len(combos), len(x)))
    gd, st = nnx.split(P._build(name, raw))
    st = jax.tree.map(lambda v: jnp.broadcast_to(v, X.shape) + 0.0 if np.ndim(v) == 2 else v, st)
    leaves, td = jax.tree.flatten(st)
    idx = [i for i, v in enumerate(leaves) if v.shape == X.shape and v.dtype == jnp.float64]
    rec.expect(len(idx) == len(keys), "elementwise:parameters", name=name, got=len(idx))

    for rev in (False, True):
        def run(ps, v):
            ll = list(leaves)
            for i, p in zip(idx, ps):
                ll[i] = p
            b = nnx.merge(gd, jax.tree.unflatten(td, ll))
            return (b.reverse if rev else b.forward)(v, jnp.zeros(v.shape))

        F = jax.jit(run)
        G = jax.jit(lambda ps, v: [jax.grad(lambda a: jnp.sum(run(*a)[k]))((ps, v)) for k in (0, 1)])
        p0 = [leaves[i] for i in idx]
        at = X
        lo, hi = {"U": (0, 1), "P": (0, np.inf)}.get(dom, (-np.inf, np.inf))
        if rev:
            b0 = nnx.merge(gd, st)
            at = np.asarray(b0.forward(jnp.asarray(X), jnp.zeros(X.shape))[0])
            lo, hi = rng
        inside = np.isfinite(at) & (at > lo) & (at < hi)
        safe = np.where(inside, at, np.max(at, -1, keepdims=True, initial=-np.inf, where=inside))
        rec.expect(np.isfinite(safe).all(), "elementwise:points", name=name)
        grads = G(p0, jnp.asarray(safe))
        h_in = 1e-5 * np.minimum(np.maximum(1e-3, np.abs(safe)), np.minimum(safe - lo, hi - safe))
        for j in range(len(idx) + 1):
            is_x = j == len(idx)
            h = h_in if is_x else np.full(X.shape, 1e-5)
            cache = {}

            def val(c):
                if c not in cache:
                    ps = [p + c * h if i == j else p for i, p in enumerate(p0)]
                    cache[c] = [np.asarray(q) for q in F(ps, jnp.asarray(safe + c * h) if is_x else jnp.asarray(safe))]
                return cache[c]

            # error of the arguments (the point itself is rounded): relative eps of x times the slope
            slope = [np.abs(np.asarray(grads[k][1])) for k in (0, 1)]
            for k, what in enumerate(("image", "density")):
                f0, q, noise = quotients(lambda c: val(c)[k], h)
                got = np.asarray(grads[k][1] if is_x else grads[k][0][j])
                with np.errstate(all="ignore"):
                    xn = 8 * EPS * np.abs(safe) * np.where(np.isfinite(slope[k]), slope[k], 0) / h
                bad, conv = judge(f0, q, noise, got, xn)
                bad |= ~np.isfinite(got) & np.isfinite(f0) & inside
                info = {}
                if bad.any():
                    a, b = np.argwhere(bad)[0]
                    info = dict(params=dict(zip(keys, combos[a])), at=safe[a, b], x=x[b], got=got[a, b], quotients=[v[a, b] for v in q], count=int(bad.sum()))
                rec.expect(not bad.any(), f"elementwise:{'reverse' if rev else 'forward'}:{what}:{'input' if is_x else 'parameter'}", name=name, param=None if is_x else j, **info)
                # the comparison may not silently lose its grip
                rec.expect(conv[:, : len(P.GRID[dom])].mean() > 0.5, "elementwise:comparable", name=name, k=k, j=j, frac=conv.mean())
                rec.step(int(conv.sum()))
                rec.outcome(name, rev, j, k, np.round(np.nan_to_num(got), 6).tobytes())
        for c in combos:
            rec.state(name, rev, c)
    rec.trace(len(combos))


def run_single(rec, name):
    """in JAX's default 32-bit mode the derivatives stay finite wherever the exact ones and the values are"""
    import jax
    import jax.numpy as jnp
    from flax import nnx

    from checks import p01_scalar as P
    from checks.p30_single import FAR, down, rounded, single

    params, f, logdf, dom, rng = P.table()[name]
    keys = list(params)
    combos = list(itertools.product(*[params[k][0] for k in keys])) or [()]
    raw = {k: rounded(np.array([c[i] for c in combos])[:, None]) for i, k in enumerate(keys)}
    x = rounded(np.array(list(P.GRID[dom]) + FAR[dom]))
    x = x[(x > 0) & (x < 1)] if dom == "U" else x
    X = np.broadcast_to(x, (len(combos), len(x)))
    gd, st = nnx.split(P._build(name, raw))
    st = jax.tree.map(lambda v: jnp.asarray(rounded(jnp.broadcast_to(v, X.shape))) if np.ndim(v) == 2 else v, st)

    def run(s, v, rev):
        b = nnx.merge(gd, s)
        return (b.reverse if rev else b.forward)(v, jnp.zeros(v.shape))

    with np.errstate(over="ignore"):
        y = rounded(np.asarray(run(st, jnp.asarray(X), False)[0]))
    ordinary = lambda v: np.isfinite(v) & (((np.abs(v) > 1e-30) & (np.abs(v) < 1e30)) | (v == 0))  # noqa: E731
    for rev, at in ((False, X), (True, y)):
        ok0 = ordinary(at) & ordinary(np.asarray(run(st, jnp.asarray(at), rev)[0]))
        if rev:
            ok0 &= (at > rng[0]) & (at < rng[1])
        for k, what in enumerate(("image", "density")):
            G = jax.grad(lambda a: jnp.sum(run(a[0], a[1], rev)[k]), allow_int=True)  # noqa: B023
            want = jax.tree.leaves(G((st, jnp.asarray(at))))
            with single():
                got = jax.tree.leaves(jax.jit(G)((down(st), jnp.asarray(at, jnp.float32))))
            for j, (a, b) in enumerate(zip(got, want)):
                b = np.asarray(b)
                if b.dtype.kind != "f" or b.shape != X.shape:
                    continue
                ok = ok0 & np.isfinite(b) & (np.abs(b) < 1e30)
                bad = ok & ~np.isfinite(np.asarray(a))
                info = {}
                if bad.any():
                    i, n = np.argwhere(bad)[0]
                    info = dict(params=dict(zip(keys, combos[i])), at=at[i, n], want=b[i, n], count=int(bad.sum()))
                rec.expect(not bad.any(), f"single:{'reverse' if rev else 'forward'}:{what}", name=name, leaf=j, **info)
                rec.step(int(ok.sum()))
                rec.outcome(np.asarray(a).tobytes())
        for c in combos:
            rec.state(name, rev, c)
    rec.trace(len(combos))


# ------------------------------------------------------------------ splines
MINS = [(1e-3, 1e-3, 1e-3), (0.1, 0.05, 0.2), (0.02, 0.2, 0.01)]


def run_spline(rec, K, mins, full):
    import jax
    import jax.numpy as jnp
    from bijx.bijections.splines import rational_quadratic_spline as rq

    from checks import p04_spline

    mw, mh, ms = MINS[mins]
    kw = dict(min_bin_width=mw, min_bin_height=mh, min_slope=ms)
    V = np.array(p04_spline.vectors(K, "thorough" if full else "quick"))
    if len(V) > 700 and not full:
        # all words with at most two letters different from zero, and the three constant words
        V = np.array([v for v in V if (v != 0).sum() <= 2 or len(set(v)) == 1])
    kx, ky, *_ = p04_spline.ref_knots(V[:, :K], V[:, K:2 * K], V[:, 2 * K:], mw, mh, ms)
    mid = (kx[:, :-1] + kx[:, 1:]) / 2
    more = np.broadcast_to([0.0, 1.0, 0.25, 0.5, 0.75, 1e-9, 1 - 1e-9, -0.5, 1.5], (len(V), 9))
    x = np.concatenate([kx[:, 1:-1], mid, 0.9 * kx[:, :-1] + 0.1 * kx[:, 1:], more], 1)
    my = (ky[:, :-1] + ky[:, 1:]) / 2
    y = np.concatenate([ky[:, 1:-1], my, 0.9 * ky[:, :-1] + 0.1 * ky[:, 1:], more], 1)
    ends = lambda v: (np.abs(v) < 1e-3) | (np.abs(v - 1) < 1e-3)  # noqa: E731
    for inv, at in ((False, x), (True, y)):
        def run(p, v):  # parameters individually for every point: (P, X, n)
            return rq(v, p[..., :K], p[..., K:2 * K], p[..., 2 * K:], inverse=inv, **kw)

        F = jax.jit(run)
        G = jax.jit(lambda p, v: [jax.grad(lambda a: jnp.sum(run(*a)[k]))((p, v)) for k in (0, 1)])
        P0 = np.broadcast_to(V[:, None, :], (*at.shape, V.shape[1]))
        g = G(jnp.asarray(P0), jnp.asarray(at))
        val, ld = (np.asarray(q) for q in F(jnp.asarray(P0), jnp.asarray(at)))
        slope = np.asarray(g[0][1])
        bad = ~(np.abs(slope - np.exp(ld)) <= 1e-8 * np.exp(ld))
        info = {}
        if bad.any():
            a, b = np.argwhere(bad)[0]
            info = dict(params=V[a], at=at[a, b], got=slope[a, b], want=np.exp(ld[a, b]), count=int(bad.sum()))
        rec.expect(not bad.any(), f"spline:slope:{'reverse' if inv else 'forward'}", K=K, mins=(mw, mh, ms), **info)
        h = 1e-6
        for j in range(V.shape[1] + 1):
            is_x = j == V.shape[1]
            e = 0.0 if is_x else (np.arange(V.shape[1]) == j) * h
            cache = {}

            def vals(c):
                if c not in cache:
                    cache[c] = [np.asarray(q) for q in F(jnp.asarray(P0 + c * e), jnp.asarray(at + c * h if is_x else at))]
                return cache[c]

            for k, what in enumerate(("image", "density")):
                f0, q, noise = quotients(lambda c: vals(c)[k], h)
                got = np.asarray(g[k][1] if is_x else g[k][0][..., j])
                bad, conv = judge(f0, q, noise * 20, got, rtol=1e-3 if k else 1e-4)
                bad |= ~np.isfinite(got)
                info = {}
                if bad.any():
                    a, b = np.argwhere(bad)[0]
                    info = dict(params=V[a], at=at[a, b], got=got[a, b], quotients=[v[a, b] for v in q], count=int(bad.sum()))
                rec.expect(not bad.any(), f"spline:{'reverse' if inv else 'forward'}:{what}:{'input' if is_x else 'parameter'}", K=K, mins=(mw, mh, ms), entry=j, **info)
                rec.expect(conv[~ends(at)].mean() > 0.6, "spline:comparable", frac=conv.mean(), k=k, j=j, K=K)
                rec.step(int(conv.sum()))
            rec.outcome(K, inv, j, np.round(np.asarray(g[0][1] if is_x else g[0][0][..., j]), 6).tobytes())
        for v in V:
            rec.state(K, mins, inv, tuple(v))
    rec.trace(len(V))


# ------------------------------------------------------------------ anything with one direction per array
class Along:
    """f(list of arrays) -> list of arrays.  Derivative along one generic direction per array (two for the last one)."""

    def __init__(self, f, arrays, compiled=True):
        import jax
        import jax.numpy as jnp

        self.dirs = []
        for i, a in enumerate(arrays):
            for rep in range(2 if i == len(arrays) - 1 else 1):
                v = generic(np.shape(a), salt=5 + i + 17 * rep)
                if np.iscomplexobj(a):
                    v = v + 1j * generic(np.shape(a), salt=11 + i + 17 * rep)
                self.dirs.append((i, jnp.asarray(v)))

        def total(t, a):
            a = list(a)
            for n, (i, v) in enumerate(self.dirs):
                a[i] = a[i] + (t[n] * v).astype(a[i].dtype)
            out = []
            for o in f(a):
                w = generic(o.shape, 0.5, 1.5, salt=9)
                o = jnp.real(o) + 0.7 * jnp.imag(o) if jnp.iscomplexobj(o) else o
                out.append(jnp.sum(jnp.asarray(w) * o))
            return jnp.stack(out)

        self.total = total
        self.F, self.J = total, jax.jacrev(total)
        if compiled:
            self.F, self.J = jax.jit(self.F), jax.jit(self.J)

    def check(self, rec, label, arrays, h=1e-5, rtol=1e-5, **info):
        import jax.numpy as jnp

        arrays = [jnp.asarray(a) for a in arrays]
        D = len(self.dirs)
        J = np.asarray(self.J(jnp.zeros(D), arrays))
        n = 0
        for d in range(D):
            e = np.eye(D)[d] * h
            f0, q, noise = quotients(lambda c: np.asarray(self.F(jnp.asarray(c * e), arrays)), h)
            bad, conv = judge(f0, q, noise * 10, J[:, d], rtol=rtol)
            if not np.isfinite(f0).all():
                # an infinite density next to the image: no gradient to speak of
                continue
            # several kinks may meet in one sum: any choice of sides
            kink = np.abs(q[1] - q[3]) > 1e-3 * (1e-3 + np.abs(q[1]))
            bad &= ~(kink & np.isfinite(J[:, d]))
            rec.expect(not bad.any(), label, array=self.dirs[d][0], of=len(arrays), outputs=np.flatnonzero(bad).tolist(), got=J[:, d], left=q[3], right=q[1], **info)
            n += int(conv.sum())
            rec.state(label, d, *(str(v) for v in info.values()))
        rec.step(n)
        rec.outcome(label, np.round(np.nan_to_num(J), 5).tobytes())
        return n / max(1, J.size)


# ------------------------------------------------------------------ radial layers
def run_radial(rec, n, rad):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    import bijx
    from checks import p07_radial

    if rad == "spline":
        # the identity's own scale near the centre; a spline below one
        inner = bijx.MonotoneRQSpline(3, (), rngs=nnx.Rngs(0))
        st = nnx.state(inner)
        leaves, td = jax.tree.flatten(st)
        nnx.update(inner, jax.tree.unflatten(td, [jnp.asarray(generic(v.shape, salt=3 + i)) for i, v in enumerate(leaves)]))
    else:
        inner = p07_radial.scal(rad)
    gd, st = nnx.split(bijx.Radial(inner, center=jnp.zeros(n), scale=jnp.zeros(n)))
    leaves, td = jax.tree.flatten(st)

    def make(rev):
        def f(a):
            m = nnx.merge(gd, jax.tree.unflatten(td, a[:-1]))
            return list((m.reverse if rev else m.forward)(a[-1], jnp.zeros(())))

        return f

    fs = [make(rev) for rev in (False, True)]
    al = [Along(f, [*leaves, np.zeros(n)]) for f in fs]
    jac = [jax.jit(jax.jacrev(lambda v, a, f=f: f([*a, v])[0])) for f in fs]
    for aniso, moved in itertools.product((0, 1), (0, 1)):
        c = generic((n,), salt=3) * moved
        layer = bijx.Radial(inner, center=jnp.asarray(c), scale=jnp.asarray(generic((n,), -0.3, 0.3, salt=6) if aniso else np.zeros(n)))
        leaves = jax.tree.leaves(nnx.split(layer)[1])
        for tag, off in (("centre", 0 * c), ("near", 1e-3 * generic((n,), salt=1)), ("generic", generic((n,), -0.4, 0.4, salt=2)), ("axis", 0.3 * np.eye(n)[0]), ("far", 6 * generic((n,), salt=4))):
            for rev in (0, 1):
                pt = jnp.asarray(c + off)
                info = dict(n=n, rad=rad, aniso=aniso, moved=moved)
                frac = al[rev].check(rec, f"radial:{tag}:{'reverse' if rev else 'forward'}", [*leaves, pt], rtol=1e-4, **info)
                if tag == "generic":
                    rec.expect(frac == 1, "radial:comparable", frac=frac)
                J = np.asarray(jac[rev](pt, leaves))
                l = -float(fs[rev]([*leaves, pt])[1])
                if np.isfinite(l):
                    rec.expect(np.isfinite(J).all() and abs(np.linalg.slogdet(J)[1] - l) <= 1e-7 * (1 + abs(l)), f"radial:jacobian:{tag}", J=J, want=l, rev=rev, **info)
        rec.trace()


# ------------------------------------------------------------------ modules
def run_kind(rec, name):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    from checks import p27_state

    build, kind, es = p27_state.kinds()[name]
    m = build()
    gd, st = nnx.split(m)
    leaves, td = jax.tree.flatten(st)
    real = lambda v: hasattr(v, "dtype") and not jax.dtypes.issubdtype(v.dtype, jax.dtypes.prng_key) and jnp.issubdtype(v.dtype, jnp.floating)  # noqa: E731
    idx = [i for i, v in enumerate(leaves) if real(v)]
    # networks initialise in single precision
    leaves = [jnp.asarray(v, jnp.float64) if i in idx else v for i, v in enumerate(leaves)]

    def run(a):
        ll = list(leaves)
        for i, v in zip(idx, a):
            ll[i] = v
        mm, x = nnx.merge(gd, jax.tree.unflatten(td, ll)), a[-1]
        if kind == "dist":
            q, l = mm.sample((2,), rng=jax.random.key(3))
            return [q, l, mm.log_density(x + 0 * q[0])]
        if name == "tofourier":
            return list(mm.forward(x, jnp.zeros(())))
        if kind == "bij":
            return [*mm.forward(x, jnp.zeros(())), *mm.reverse(x, jnp.zeros(()))]
        return [o for o in p27_state.probe(kind, mm, x) if jnp.issubdtype(o.dtype, jnp.inexact)]

    points = dict(generic=generic(es, 0.2, 0.8), spread=generic(es, -1.5, 1.2, salt=1), zero=np.zeros(es), one=np.ones(es), large=np.full(es, 50.0), minus=np.full(es, -50.0))
    if kind == "dist" and name == "haar":
        points = dict(generic=generic(es, 0.2, 0.8))
    if hasattr(m, "center"):
        points["centre"] = np.broadcast_to(np.asarray(m.center.get_value()), es)
    al = Along(run, [*(leaves[i] for i in idx), points["generic"]])
    for tag, x in points.items():
        frac = al.check(rec, f"module:{tag}", [*(leaves[i] for i in idx), x], name=name, rtol=SLACK.get(name, 1e-5))
        if tag == "generic":
            rec.expect(frac == 1, "module:comparable", name=name, frac=frac)
            if name not in ("diffrax", "haar"):
                from checks.p30_single import single

                arr = [*(leaves[i] for i in idx), x]
                want = np.asarray(al.J(jnp.zeros(len(al.dirs)), [jnp.asarray(v) for v in arr]))
                with single():
                    down = lambda v: jnp.asarray(np.asarray(v), jnp.float32)  # noqa: E731
                    got = np.asarray(jax.jacrev(al.total)(jnp.zeros(len(al.dirs), jnp.float32), [down(v) for v in arr]))
                if kind == "dist":  # the noise itself depends on the precision
                    got, want = got[2:], want[2:]
                rec.expect(np.abs(got - want).max() <= 2e-3 * (1 + np.abs(want).max()), "module:single", name=name, got=got, want=want)
        rec.trace()


SLACK = dict(diffrax=1e-4)


# ------------------------------------------------------------------ functions
def run_function(rec, name):
    import jax
    import jax.numpy as jnp

    from checks import p30_single

    f, args = p30_single.functions()[name]
    special = {"generic": args, "special": [], "constant": []}
    for a in args:
        mat = np.iscomplexobj(a)
        special["special"].append(np.broadcast_to(np.eye(a.shape[-1]) + 0j, a.shape) if mat else np.zeros(a.shape))
        special["constant"].append(a + 0 * a if mat else np.full(a.shape, 0.7))
    al = Along(lambda a: [o for o in jax.tree.leaves(f(*a)) if jnp.issubdtype(o.dtype, jnp.inexact)], args, compiled=name != "pdiv")
    for tag, pt in special.items():
        frac = al.check(rec, f"function:{tag}", pt, name=name)
        if tag == "generic":
            rec.expect(frac == 1, "function:comparable", name=name, frac=frac)
        rec.trace()

"""P30: single precision computes the same functions as double precision."""
import contextlib
import itertools
import warnings

import numpy as np

from mc.lib import generic

PROPERTY = "P30"
RULE = (
    "JAX's default 32-bit mode is entered for every evaluation; the 64-bit evaluation of the same object (parameters and inputs rounded to 32 bit first) "
    "is the reference. Every elementwise transform x parameter alphabet x input grid x direction, with an error bound derived from the 64-bit condition numbers; "
    "splines at interior points, knots and boundaries; every kind of transform, distribution, network, field and flow x input alphabet x two directions; "
    "every observable and group helper on an alphabet of configurations."
)
ASSUMPTIONS = ["no reference to how an expression is evaluated: an error of some hundred units in the last place, amplified by the conditioning, is accepted"]
EPS = float(np.finfo(np.float32).eps)
F32 = np.float32


@contextlib.contextmanager
def single():
    import jax

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from jax.experimental import disable_x64

        with disable_x64():
            yield


def down(t):
    """the same tree with 32-bit numbers (call inside single())"""
    import jax
    import jax.numpy as jnp

    def f(v):
        if hasattr(v, "dtype") and jax.dtypes.issubdtype(v.dtype, jax.dtypes.prng_key):
            return v
        v = np.asarray(v)
        return jnp.asarray(v.astype({"f": F32, "c": np.complex64, "i": np.int32}.get(v.dtype.kind, v.dtype)))

    return jax.tree.map(f, t)


def rounded(v):
    v = np.asarray(v)
    return v.astype(np.complex64).astype(np.complex128) if np.iscomplexobj(v) else v.astype(F32).astype(float) if v.dtype.kind == "f" else v


def cases(tier):
    from checks import p01_scalar, p27_state

    full = tier == "thorough"
    for n in p01_scalar.NAMES:
        yield "scalar", dict(name=n)
        yield "far", dict(name=n)
    for k in (1, 2, 5, 16):
        yield "spline", dict(knots=k)
    for n in KINDS:
        if full or n not in ("convcnf",):
            yield "kind", dict(name=n)
    for n in OBS:
        yield "function", dict(name=n)


KINDS = [
    "identity", "affine", "scaling", "shift", "power", "gausscdf", "beta", "cubic", "sinhconj", "cubicconj", "rqs", "const", "notransform", "chain",
    "inverse", "condinv", "frozen", "scan", "partial_", "expand", "reshape", "ray", "radial", "radcond", "diffrax", "rk4", "cgflow", "autojac", "coupling",
    "coupling-mult", "spectrum", "freeconst", "spectral", "tofourier", "convcnf", "convvf", "normal", "uniform", "mvn", "mvn-cov", "diag", "mixture", "gmm",
    "transformed", "haar", "mlp", "resnet", "convnet", "convsym", "gauss", "kfourier", "kreduced", "ffeat", "pfeat",
]


def weight(f, c):
    return {"kind": 3, "scalar": 4, "spline": 4}.get(f, 1)


def run_case(family, case, rec):
    globals()["run_" + family](rec, **case)


# ------------------------------------------------------------------ elementwise
FAR = {
    "R": [s * v for v in (20.0, 45.0, 88.0, 300.0, 1e4, 1e6, 1e8, 1e11) for s in (-1, 1)],
    "R7": [-11.0, -9.0, 9.0, 20.0, 100.0], "R3": [-5.0, -4.0, 4.0, 5.0, 7.0],
    "U": [1e-30, 1e-20, 1e-12, 1e-8, 1 - 1e-7],
    "P": [1e-30, 1e-20, 1e-12, 1e3, 1e6, 1e12, 1e20],
}


TINY, HUGE = 1e-37, 1e37


def run_far(rec, name):
    """magnitudes far outside the usual range, where only 32-bit numbers run out of exponent or digits"""
    run_scalar(rec, name, FAR)


def run_scalar(rec, name, grid=None):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    from checks import p01_scalar as P

    params, f, logdf, dom, rng = P.table()[name]
    keys = list(params)
    combos = list(itertools.product(*[params[k][0] for k in keys])) or [()]
    raw = {k: rounded(np.array([c[i] for c in combos])[:, None]) for i, k in enumerate(keys)}
    x = rounded(np.array((grid or P.GRID)[dom]))
    x = x[(x > 0) & (x < 1)] if dom == "U" else x
    X = np.broadcast_to(x, (len(combos), len(x)))
    ld0 = rounded(generic(X.shape, salt=4))
    gd, st = nnx.split(P._build(name, raw))
    st = jax.tree.map(lambda v: jnp.asarray(rounded(v)), st)
    leaves, td = jax.tree.flatten(st)

    def run(s, v, ld, rev):
        b = nnx.merge(gd, s)
        return (b.reverse if rev else b.forward)(v, ld)

    def condition(v, rev):
        """sum over all inputs a of |a| |d out / d a|, for the image and for the density"""
        z = jnp.zeros(v.shape)
        h = [jax.jvp(lambda q: run(st, q, z, rev), (v,), (jnp.abs(v) + 1,))[1]]
        for i, leaf in enumerate(leaves):
            d = [jnp.zeros_like(q) for q in leaves]
            d[i] = jnp.abs(leaf)
            h.append(jax.jvp(lambda s: run(s, v, z, rev), (st,), (jax.tree.unflatten(td, d),))[1])
        return [sum(np.abs(np.asarray(t[k])) for t in h) for k in (0, 1)]

    V = jnp.asarray(X)
    y64 = np.asarray(run(st, V, jnp.zeros(X.shape), False)[0])
    Y = rounded(y64)
    # images that still lie inside the range after rounding
    inside = np.isfinite(Y) & (Y > rng[0]) & (Y < rng[1])
    if grid:
        inside &= (np.abs(Y) > TINY) & (np.abs(Y) < HUGE)
    mid = Y[:, [X.shape[1] // 2]]
    Y = np.where(inside, Y, rounded(np.asarray(run(st, jnp.full((len(combos), 1), P.GRID[dom][len(P.GRID[dom]) // 2]), jnp.zeros((len(combos), 1)), False)[0])) if grid else mid)
    for rev, at in ((False, X), (True, Y)):
        want = [np.asarray(v) for v in run(st, jnp.asarray(at), jnp.asarray(ld0), rev)]
        cond = condition(jnp.asarray(at), rev)
        with single():
            s32 = down(st)
            got = {}
            for tag in ("eager", "jit"):
                fn = lambda s, v, l: run(s, v, l, rev)  # noqa: E731
                out = (jax.jit(fn) if tag == "jit" else fn)(s32, jnp.asarray(at, F32), jnp.asarray(ld0, F32))
                rec.expect(all(v.dtype == jnp.float32 for v in out), "elementwise:type", name=name)
                got[tag] = [np.asarray(v, float) for v in out]
        for tag, g in got.items():
            for k, what in enumerate(("image", "density")):
                extra = np.abs(ld0) + 1 if k else 0.03 * (rev and dom == 'U')
                bound = 300 * EPS * (np.abs(want[k]) + cond[k] + extra) + 1e-30
                bad = ~(np.abs(g[k] - want[k]) <= bound)
                if grid:
                    # results outside of the exponent range of 32-bit numbers need not agree
                    bad &= (np.abs(want[0]) > TINY) & (np.abs(want[0]) < HUGE)
                info = {}
                if bad.any():
                    i, j = np.argwhere(bad)[0]
                    info = dict(params=dict(zip(keys, combos[i])), at=at[i, j], got=g[k][i, j], want=want[k][i, j], bound=bound[i, j], count=int(bad.sum()))
                rec.expect(not bad.any(), f"elementwise:{'reverse' if rev else 'forward'}:{what}", name=name, tag=tag, **info)
            rec.step(X.size)
        for c in combos:
            rec.state(name, rev, c)
        rec.outcome(got["jit"][0].tobytes())
    rec.trace(len(combos))


# ------------------------------------------------------------------ splines
def run_spline(rec, knots):
    import jax
    import jax.numpy as jnp
    from bijx.bijections.splines import rational_quadratic_spline as rq

    n = 3 * knots - 1
    AL = (-2.5, 0.0, 3.0)
    if knots == 1:
        V = list(itertools.product(AL, repeat=n))
    else:
        V = [[0.0] * n]
        # one and two entries differ from zero, and periodic words of all periods up to three
        for pos in itertools.chain(itertools.combinations(range(n), 1), itertools.combinations(range(n), 2) if n <= 15 else ()):
            for val in itertools.product((-2.5, 3.0), repeat=len(pos)):
                v = [0.0] * n
                for i, q in zip(pos, val):
                    v[i] = q
                V.append(v)
        for per in (1, 2, 3):
            for w in itertools.product(AL, repeat=per):
                V.append([w[i % per] for i in range(n)])
    V = rounded(np.array(V))
    mins = [(1e-3, 1e-3, 1e-3), (0.02, 0.01, 0.1)]
    pts = sorted({*np.linspace(0, 1, 21), -0.5, 1.5, 1e-6, 1 - 1e-6})
    delta = 200 * knots * EPS
    for mw, mh, ms in mins:
        kw = dict(min_bin_width=mw, min_bin_height=mh, min_slope=ms)
        for scale in (1.0, 0.4):
            a = [q[:, None] for q in np.split(rounded(scale * V), [knots, 2 * knots], -1)]
            # grid points and both neighbours of all knots
            e = np.exp(a[0] - a[0].max(-1, keepdims=True))
            kx = np.cumsum(mw + (1 - mw * knots) * e / e.sum(-1, keepdims=True), -1)[:, 0]
            x = rounded(np.concatenate([np.broadcast_to(pts, (len(V), len(pts))), kx - 1e-6, kx, kx + 1e-6], 1))
            edge = lambda v: (np.abs(v) < delta) | (np.abs(v - 1) < delta)  # noqa: E731
            J = [jnp.asarray(q) for q in a]
            ev = lambda v, inv: [np.asarray(q) for q in rq(jnp.asarray(v), *J, inverse=inv, **kw)]  # noqa: E731
            y = rounded(ev(x, False)[0])
            for inv, at in ((False, x), (True, y)):
                want = ev(at, inv)
                # the values within the uncertainty of the argument; identity outside of the domain
                near = [ev(np.clip(at + d * delta, 0, 1), inv) for d in np.linspace(-1, 1, 9)]
                lo = [np.min([q[k] for q in near] + [want[k]], 0) for k in (0, 1)]
                hi = [np.max([q[k] for q in near] + [want[k]], 0) for k in (0, 1)]
                with single():
                    f = lambda v, *q: rq(v, *q, inverse=inv, **kw)  # noqa: E731
                    args = [jnp.asarray(at, F32)] + [jnp.asarray(q, F32) for q in a]
                    got = {"eager": f(*args), "jit": jax.jit(f)(*args)}
                    for t, g in got.items():
                        rec.expect(all(q.dtype == jnp.float32 for q in g), "spline:type")
                    got = {t: [np.asarray(q, float) for q in g] for t, g in got.items()}
                for t, g in got.items():
                    for k, what in enumerate(("image", "density")):
                        if k:
                            # slack relative to the variation of the density within the uncertainty
                            tol = 0.5 * (hi[k] - lo[k]) + 2 * delta * (1 + np.abs(want[k]))
                            # the density jumps at the domain boundary
                            ok = edge(at)
                        else:
                            tol = 0.25 * (hi[k] - lo[k]) + delta
                            ok = np.zeros(at.shape, bool)
                        bad = ~((g[k] >= lo[k] - tol) & (g[k] <= hi[k] + tol)) & ~(ok & np.isfinite(g[k]))
                        out = (at < 0) | (at > 1)
                        bad |= out & ~edge(at) & (np.abs(g[k] - want[k]) > 1e-30)
                        info = {}
                        if bad.any():
                            i, j = np.argwhere(bad)[0]
                            info = dict(params=V[i] * scale, at=at[i, j], got=g[k][i, j], want=want[k][i, j], lo=lo[k][i, j], hi=hi[k][i, j], count=int(bad.sum()))
                        rec.expect(not bad.any(), f"spline:{'reverse' if inv else 'forward'}:{what}", knots=knots, tag=t, mins=(mw, mh, ms), scale=scale, **info)
                    rec.step(at.size)
                rec.outcome(got["jit"][0].tobytes())
            for v in V:
                rec.state(knots, mw, scale, tuple(v))
            rec.trace(len(V))


# ------------------------------------------------------------------ modules
SENSITIVE = dict(haar=3e-4, diffrax=3e-4)


def run_kind(rec, name):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    from checks import p27_state

    build, kind, es = p27_state.kinds()[name]
    gd, st = nnx.split(build())
    st = jax.tree.map(lambda v: v if hasattr(v, "dtype") and jax.dtypes.issubdtype(v.dtype, jax.dtypes.prng_key) else jnp.asarray(rounded(v)), st)
    for j, (lo, hi) in enumerate(((0.2, 0.8), (-1.5, 1.2), (-0.01, 0.01))):
        x = rounded(generic(es, lo, hi, salt=j)) if es else float(F32(0.3 + 0.2 * j))
        if name in ("uniform",):
            x = np.abs(x) % 1

        def run(s, v):
            m = nnx.merge(gd, s)
            if kind == "dist":
                if name == "haar":
                    return [m.log_density(v + 0j)]
                # densities at given points, and of own samples as the sampler reports them
                q, l = m.sample((2,), rng=jax.random.key(3))
                return [m.log_density(v), l - m.log_density(q)]
            return p27_state.probe(kind, m, v)

        want = [np.asarray(v) for v in run(st, jnp.asarray(x))]
        with single():
            s32 = down(st)
            x32 = jnp.asarray(x, F32)
            for tag, f in (("eager", run), ("jit", jax.jit(run))):
                got = f(s32, x32)
                rec.expect(len(got) == len(want), "module:arity", name=name)
                for i, (g, w) in enumerate(zip(got, want)):
                    rec.expect(g.dtype in (jnp.float32, jnp.complex64), "module:type", name=name, i=i, dtype=str(g.dtype))
                    rec.expect(g.shape == w.shape, "module:shape", name=name, i=i)
                    g = np.asarray(g)
                    fin = np.isfinite(w)
                    rec.expect((np.isfinite(g) == fin).all(), "module:finite", name=name, i=i, tag=tag, x=x, got=g, want=w)
                    tol = SENSITIVE.get(name, 1e-4) * (1 + np.abs(w[fin]).max(initial=0))
                    err = np.abs(g - w)[fin].max(initial=0)
                    rec.expect(err <= tol, "module:value", name=name, i=i, tag=tag, err=err, tol=tol, x=x, got=g, want=w)
                rec.step()
        rec.state(name, j)
        rec.outcome(*(np.round(v, 4).tobytes() for v in want))
    rec.trace(3)


# ------------------------------------------------------------------ functions
def functions():
    """name -> (function, arguments); every argument array is rounded to 32 bit first"""
    import bijx
    import jax
    import jax.numpy as jnp
    from bijx import cg, fourier, lie, solvers
    from bijx.lattice import gauge, scalar
    from bijx.nn import conv

    from checks import p19_gauge

    phi = generic((3, 4), -1.2, 1.2)
    ens = generic((5, 3, 4), -1.2, 1.2, 3)

    def u(shape, n, salt=0):
        h = generic((*shape, n, n), salt=salt) + 1j * generic((*shape, n, n), salt=salt + 1)
        q, r = np.linalg.qr(h)
        return q / np.linalg.det(q)[..., None, None] ** (1 / n)

    lat = u((2, 3, 2), 2)
    lat3 = u((2, 2, 2, 3), 3, 5)
    A, B = u((2,), 2, 7), u((2,), 2, 9)
    gens = lambda: jnp.asarray(np.asarray(lie.SU2_GEN))  # noqa: E731  (in the precision of the mode)
    act = lambda v: jnp.sum((v @ v).real ** 2) + jnp.trace(v).real  # noqa: E731
    vf = lambda t, y: jnp.tanh(y) * (1 + t)  # noqa: E731
    rot = lambda t, y: 1j * jnp.array([[t, 1 - t], [1 - t, -t]]) + 0 * y  # noqa: E731
    T = dict(
        kinetic=(scalar.kinetic_term, [phi]), phi4=(lambda p: scalar.phi4_term(p, -1.3, 0.7), [phi]), phi4_alt=(lambda p: scalar.phi4_term_alt(p, 0.24, 0.02), [phi]),
        phi4_free=(lambda p: scalar.phi4_term(p, 0.5), [phi]), poly=(lambda p: scalar.poly_term(p, jnp.array([0.3, -1.0, 2.0]), even=True), [phi]),
        poly_odd=(lambda p: scalar.poly_term(p, jnp.array([0.3, -1.0, 2.0])), [phi]),
        corr=(scalar.cyclic_corr, [phi, ens[0]]), tensor=(scalar.cyclic_tensor, [phi, ens[1]]),
        corr_mat=(scalar.cyclic_corr_mat, [generic((2, 3, 2, 3))]), two_point=(scalar.two_point, [ens]), central=(scalar.two_point_central, [ens]),
        corr_len=(scalar.correlation_length, [np.cosh(0.4 * (np.arange(8) - 4.0))[None] + np.zeros((3, 1))]),
        wilson=(lambda v: gauge.wilson_action(v, 2.1), [lat]), wilson3=(lambda v: gauge.wilson_log_prob(v, 5.5), [lat3]),
        swap=(gauge.swap_axes, [u((3, 3, 2), 2)]), flip=(lambda v: gauge.flip_axis(v, 1), [lat]), rotate=(gauge.rotate_lat, [u((3, 3, 2), 2)]),
        gauge=(gauge.apply_gauge_sym, [lat, u((2, 3), 2, 4)]),
        contract=(lambda a, b: lie.contract(a, b, a), [A, B]), trace=(lambda a, b: lie.contract(a, b, trace=True), [A, B]), product=(lie.scalar_prod, [A, B]),
        haar=(lie.compute_haar_density, [generic((4, 2), -3, 3)]), lie_grad=(lie.grad(act), [A[0]]),
        curve=(lambda v: lie.curve_grad(act, gens()[0])(v), [A[0]]), div=(lambda v: lie.value_grad_divergence(act, v, gens()), [A[0]]),
        path=(lambda v: lie.path_grad(act, gens(), v), [A[0]]), path2=(lambda v: lie.path_grad2(act, gens(), v), [A[0]]), pdiv=(lambda v: lie.path_div(lambda w: jnp.stack([jnp.trace(g @ w).real for g in gens()]), gens(), v), [A[0]]),
        ess=(bijx.effective_sample_size, [generic((50,), -3, 3), generic((50,), -3, 3, 2)]), dkl=(bijx.reverse_dkl, [generic((50,)), generic((50,), salt=2)]),
        moving=(lambda v: bijx.moving_average(v, 5), [generic((200,)) + 100]),
        rk4=(lambda y: solvers.odeint_rk4(vf, y, 1.3, step_size=0.1), [generic((3,))]), rk4_back=(lambda y: solvers.odeint_rk4(vf, y, 0.0, step_size=0.01, start_time=1.0), [generic((3,))]),
        cg_euclid=(lambda y: cg.crouch_grossmann(vf3(vf), y, None, 0.0, 1.3, 0.1, cg.Euclidean(), cg.CG3), [generic((3,))]),
        momenta=(lambda: fourier.fft_momenta((3, 4)), []), lap=(lambda: fourier.fft_momenta((4, 6), lattice=True), []),
        fourier=(lambda v: fourier.FourierData.from_real(v, (3, 4), to=fourier.FFTRep.comp_real).data, [ens]),
        resize=(lambda v: conv.resize_kernel_weights(v, (5, 5)), [generic((3, 3, 1, 2))]),
    )
    return T


def vf3(f):
    return lambda t, y, args: f(t, y)


def run_function(rec, name):
    import jax
    import jax.numpy as jnp

    f, args = functions()[name]
    args = [rounded(v) for v in args]
    want = [np.asarray(v) for v in jax.tree.leaves(f(*[jnp.asarray(v) for v in args]))]
    with single():
        f, _ = functions()[name]
        a = [jnp.asarray(v.astype(np.complex64 if np.iscomplexobj(v) else F32)) for v in args]
        for tag, g in (("eager", f), ("jit", jax.jit(f)))[: 1 if name == "resize" else 2]:
            got = jax.tree.leaves(g(*a))
            rec.expect(len(got) == len(want), "function:arity", name=name)
            for i, (p, w) in enumerate(zip(got, want)):
                rec.expect(p.shape == w.shape, "function:shape", name=name, i=i, got=p.shape, want=w.shape)
                rec.expect(isinstance(p, np.ndarray) or p.dtype in (jnp.float32, jnp.complex64), "function:type", name=name, i=i, dtype=str(p.dtype))
                p = np.asarray(p)
                tol = 1e-4 * (1 + np.abs(w).max(initial=0))
                rec.expect(np.isfinite(p).all() and (np.abs(p - w) <= tol).all(), "function:value", name=name, i=i, tag=tag, got=p, want=w)
            rec.step()
            rec.state(name, tag)
    rec.outcome(name, *(np.round(v, 4).tobytes() for v in want))
    rec.trace()


OBS = [
    "kinetic", "phi4", "phi4_alt", "phi4_free", "poly", "poly_odd", "corr", "tensor", "corr_mat", "two_point", "central", "corr_len", "wilson", "wilson3", "swap",
    "flip", "rotate", "gauge", "contract", "trace", "product", "haar", "lie_grad", "curve", "div", "path", "path2", "pdiv", "ess", "dkl", "moving", "rk4",
    "rk4_back", "cg_euclid", "momenta", "lap", "fourier", "resize",
]

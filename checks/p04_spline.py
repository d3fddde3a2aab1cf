"""P04: monotone rational-quadratic splines against an independent reference."""
import itertools

import numpy as np

from mc.lib import generic, shapes_broadcasting_to

PROPERTY = "P04"
RULE = (
    "All spline parameter vectors over a 3-letter alphabet for 1..3 bins (larger bin counts: all vectors with at most "
    "two non-default entries), times all minimum-size settings, times a point set containing every knot, both sides "
    "of every knot, every bin interior, both boundaries and points outside the domain; both directions; plus all "
    "batch/event shapes of the layer form.  Oracle: independent numpy implementation of the spline and bisection inverse."
)
ASSUMPTIONS = ["float64; parameter alphabet {-2.5, 0, 3}"]
AL = [-2.5, 0.0, 3.0]


def ref_knots(w, h, s, mw, mh, ms):
    def sm(a):
        a = np.exp(a - a.max(-1, keepdims=True))
        return a / a.sum(-1, keepdims=True)

    K = w.shape[-1]
    bw = mw + (1 - mw * K) * sm(w)
    bh = mh + (1 - mh * K) * sm(h)
    z = np.zeros(bw.shape[:-1] + (1,))
    kx = np.concatenate([z, np.cumsum(bw, -1)], -1)
    ky = np.concatenate([z, np.cumsum(bh, -1)], -1)
    sc = np.log(2) / (1 - ms)
    d = ms + np.logaddexp(0, sc * s) / sc
    o = np.ones(bw.shape[:-1] + (1,))
    return kx, ky, np.concatenate([o, d, o], -1), bw, bh


def ref_eval(x, kx, ky, d, bw, bh):
    """x (P, X); knots (P, K+1)"""
    K = bw.shape[-1]
    xc = np.clip(x, 0, 1)
    idx = np.clip((xc[..., None] >= kx[:, None, :]).sum(-1) - 1, 0, K - 1)
    g = lambda a, i: np.take_along_axis(a, i, axis=1)  # noqa: E731
    w, h = g(bw, idx), g(bh, idx)
    t = np.clip((xc - g(kx, idx)) / w, 0, 1)
    dl, dr = g(d, idx), g(d, idx + 1)
    s = h / w
    den = s + (dl + dr - 2 * s) * t * (1 - t)
    y = g(ky, idx) + h * (s * t**2 + dl * t * (1 - t)) / den
    dy = s**2 * (dr * t**2 + 2 * s * t * (1 - t) + dl * (1 - t) ** 2) / den**2
    inside = (x >= 0) & (x <= 1)
    return np.where(inside, y, x), np.where(inside, np.log(dy), 0.0)


def vectors(K, tier):
    n = 3 * K - 1
    if K <= 2 or (K == 3 and tier == "thorough"):
        return list(itertools.product(AL, repeat=n))
    out = [tuple([0.0] * n)]
    for r in (1, 2):
        for pos in itertools.combinations(range(n), r):
            for val in itertools.product([-2.5, 3.0], repeat=r):
                v = [0.0] * n
                for p, q in zip(pos, val):
                    v[p] = q
                out.append(tuple(v))
    out.append(tuple(3.0 if i % 2 else -2.5 for i in range(n)))
    out.append(tuple(-2.5 if i % 3 else 3.0 for i in range(n)))
    return out


MINS = [(1e-3, 1e-3, 1e-3), (0.1, 1e-3, 1e-3), (1e-3, 0.15, 1e-3), (1e-3, 1e-3, 0.3), (0.05, 0.1, 0.2)]


def cases(tier):
    for K in (1, 2, 3, 4) + ((5, 8) if tier == "thorough" else ()):
        for i in range(len(MINS)):
            if MINS[i][0] * K < 1 and MINS[i][1] * K < 1:
                yield "function", dict(K=K, mins=i, tier=tier)
                yield "layer", dict(K=K, mins=i)
    for K in (17, 33):
        yield "function", dict(K=K, mins=0, tier=tier)
        yield "layer", dict(K=K, mins=0)
    for b in [(), (2,), (2, 3), (0,)]:
        for e in [(), (3,), (2, 2), (1,)]:
            yield "shapes", dict(batch=list(b), event=list(e))


def weight(f, c):
    return c.get("K", 1) if f == "function" else 1


def points(kx, ky):
    P = kx.shape[0]
    mid = [0.5, 0.1, 0.93]
    ins = [kx[:, :-1] + f * np.diff(kx, axis=1) for f in mid]
    eps = 1e-9
    common = np.array([-3.0, -1e-6, 0.0, 1e-12, 0.25, 0.5, 1 - 1e-12, 1.0, 1.0 + 1e-6, 2.5])
    X = np.concatenate([kx, kx[:, 1:] - eps, kx[:, :-1] + eps, *ins, np.broadcast_to(common, (P, len(common)))], 1)
    return np.sort(X, axis=1)


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    if family == "function":
        K = case["K"]
        mw, mh, ms = MINS[case["mins"]]
        V = np.array(vectors(K, case["tier"]))
        w, h, s = V[:, :K], V[:, K:2 * K], V[:, 2 * K:]
        kx, ky, d, bw, bh = ref_knots(w, h, s, mw, mh, ms)
        X = points(kx, ky)
        wy, wl = ref_eval(X, kx, ky, d, bw, bh)
        kw = dict(min_bin_width=mw, min_bin_height=mh, min_slope=ms)
        spline = jax.jit(bijx.rational_quadratic_spline,
                         static_argnames=("inverse", "min_bin_width", "min_bin_height", "min_slope"))
        a = [jnp.asarray(q)[:, None, :] for q in (w, h, s)]
        y, l = spline(jnp.asarray(X), *a, **kw)
        y, l = np.asarray(y), np.asarray(l)
        rec.step(X.size)
        rec.trace(len(V))
        for v in V:
            rec.state(K, case["mins"], tuple(v))
        rec.outcome(np.round(y, 9).tobytes())
        # at a knot either adjacent bin may be used: value and slope agree there
        rec.close(y, wy, "value", rtol=1e-9, atol=1e-9)
        rec.close(l, wl, "logdet", rtol=1e-6, atol=1e-6)
        rec.expect(np.all(np.diff(y, axis=1) >= -4e-15), "monotone")  # up to rounding next to a knot
        big = np.diff(X, axis=1) > 1e-7
        rec.expect(np.all(np.diff(y, axis=1)[big] > 0), "strictly-monotone")
        out = (X < 0) | (X > 1)
        rec.expect(np.all(y[out] == X[out]) and np.all(l[out] == 0), "identity-outside")
        ins = ~out
        rec.expect(np.all((y[ins] >= -1e-12) & (y[ins] <= 1 + 1e-12)), "range")
        # knots are interpolated
        yk, lk = spline(jnp.asarray(kx), *a, **kw)
        rec.close(yk, ky, "knots", rtol=1e-9, atol=1e-9)
        rec.close(np.asarray(lk)[:, 1:-1], np.log(d[:, 1:-1]), "knot-slopes", rtol=1e-6, atol=1e-6)
        rec.close(np.asarray(lk)[:, [0, -1]], 0 * d[:, [0, -1]], "boundary-slopes", atol=1e-6)
        # inverse
        tol = 1e-8 + 1e-12 / np.exp(wl)
        xi, li = spline(jnp.asarray(wy), *a, inverse=True, **kw)
        rec.step(X.size)
        rec.expect(np.all(np.abs(np.asarray(xi) - X) <= 3e-6), "inverse-value", worst=np.abs(np.asarray(xi) - X).max())
        rec.expect(np.all(np.abs(np.asarray(xi) - X)[wl > -3] <= 1e-7 + 0 * tol[wl > -3]), "inverse-value-tight",
                   worst=np.abs(np.asarray(xi) - X)[wl > -3].max())
        # log-det of the inverse at y: -log f'(x); slope varies fast so compare at the returned x
        _, wl2 = ref_eval(np.asarray(xi), kx, ky, d, bw, bh)
        near = np.min(np.abs(np.asarray(xi)[:, :, None] - kx[:, None, :]), -1) < 1e-8
        edge = near & ((np.abs(X) < 1e-8) | (np.abs(X - 1) < 1e-8))
        rec.expect(np.all(np.abs(np.asarray(li) + wl2)[~edge] <= 1e-5 * (1 + np.abs(wl2[~edge]))), "inverse-logdet",
                   worst=np.abs(np.asarray(li) + wl2)[~edge].max())
        rec.expect(np.all(np.asarray(li)[out] == 0) and np.all(np.asarray(xi)[out] == wy[out]), "inverse-identity-outside")
        # points exactly at the boundaries
        for v in (0.0, 1.0):
            for inv in (False, True):
                yb, lb = spline(jnp.full((len(V),), v), *[q[:, 0] for q in a], inverse=inv, **kw)
                rec.close(yb, np.full(len(V), v), "boundary-fixed", atol=1e-9)
                rec.close(lb, np.zeros(len(V)), "boundary-logdet", atol=1e-6)

    elif family == "layer":
        K = case["K"]
        mw, mh, ms = MINS[case["mins"]]
        bij = bijx.MonotoneRQSpline(K, (3,), min_bin_width=mw, min_bin_height=mh, min_slope=ms,
                                    widths_init=lambda k, s: jnp.asarray(generic(s, -3, 3, 1)),
                                    heights_init=lambda k, s: jnp.asarray(generic(s, -3, 3, 2)),
                                    slopes_init=lambda k, s: jnp.asarray(generic(s, -3, 3, 3)) if np.prod(s) else jnp.zeros(s),
                                    rngs=nnx.Rngs(0))
        w, h = generic((3, K), -3, 3, 1), generic((3, K), -3, 3, 2)
        s = generic((3, K - 1), -3, 3, 3) if K > 1 else np.zeros((3, 0))
        kx, ky, d, bw, bh = ref_knots(w, h, s, mw, mh, ms)
        X = points(kx, ky)
        wy, wl = ref_eval(X, kx, ky, d, bw, bh)
        ld0 = generic((X.shape[1],), salt=4)
        y, l = jax.jit(lambda x, l: bij.forward(x, l))(jnp.asarray(X.T), jnp.asarray(ld0))
        rec.close(y, wy.T, "layer:value", rtol=1e-9, atol=1e-9)
        rec.close(l, ld0 - wl.sum(0), "layer:density", rtol=1e-6, atol=1e-6)
        x2, l2 = jax.jit(lambda x, l: bij.reverse(x, l))(y, l)
        rec.close(x2, X.T, "layer:roundtrip", rtol=1e-6, atol=1e-6)
        ok = np.min(np.abs(X[:, :, None] - np.array([0.0, 1.0])), axis=(0, 2)) > 1e-8
        rec.close(np.asarray(l2)[ok], ld0[ok], "layer:roundtrip-density", rtol=1e-5, atol=1e-5)
        sp = bij.param_splits
        rec.expect(sum(sp) == bij.param_count == 3 * K - 1, "layer:param-count")
        rec.state("layer", K, case["mins"])
        rec.step(2)
        rec.trace()

    elif family == "shapes":
        b, e = tuple(case["batch"]), tuple(case["event"])
        K = 3
        mk = lambda k: (lambda key, s: jnp.asarray(generic(s, -2, 2, k)))  # noqa: E731
        for ps in [s for s in shapes_broadcasting_to(e)]:
            bij = bijx.MonotoneRQSpline(K, ps, widths_init=mk(1), heights_init=mk(2), slopes_init=mk(3), rngs=nnx.Rngs(0))
            x = generic(b + e, -0.2, 1.2, salt=5)
            ld0 = generic(b, salt=6)
            W = [np.broadcast_to(generic(ps + (k,), -2, 2, i), e + (k,)).reshape(-1, k) for i, k in ((1, K), (2, K), (3, K - 1))]
            kn = ref_knots(*W, 1e-3, 1e-3, 1e-3)
            n = int(np.prod(b))
            fx = x.reshape(n, int(np.prod(e)))
            wy, wl = ref_eval(fx.T, *kn)
            wy, wl = wy.T.reshape(b + e), wl.T.reshape(b + e)
            ax = tuple(range(len(b), len(b + e)))
            for m in ("eager", "jit") if b == (2,) else ("jit",):
                f = bij.forward if m == "eager" else jax.jit(lambda x, l: bij.forward(x, l))
                r = bij.reverse if m == "eager" else jax.jit(lambda x, l: bij.reverse(x, l))
                y, l = f(jnp.asarray(x), jnp.asarray(ld0))
                rec.close(y, wy, f"shapes:{m}:value", atol=1e-9, ps=ps)
                rec.close(l, ld0 - wl.sum(ax), f"shapes:{m}:density", atol=1e-7, ps=ps)
                xb, lb = r(jnp.asarray(wy), jnp.asarray(ld0))
                rec.close(xb, x, f"shapes:{m}:inverse", atol=1e-7, ps=ps)
                rec.close(lb, ld0 + wl.sum(ax), f"shapes:{m}:inverse-density", atol=1e-6, ps=ps)
                rec.step(2)
            rec.state("shape", b, e, ps)
            rec.trace()

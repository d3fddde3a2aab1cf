"""P25: scalar embeddings."""
import itertools

import numpy as np

from mc.lib import generic, prod

PROPERTY = "P25"
RULE = (
    "Every embedding kind x every admissible size up to the bound x value ranges (none, unit, offset, reversed) x option switches, evaluated on the "
    "complete grid of interesting inputs (end points, every basis position and midpoint, outside near and far) and on all input shapes and number "
    "types, against the closed formulas; structural laws (size as advertised, partition of unity, at most two active, exact interpolation, period, "
    "linear reduction, nesting); every feature kind x channels x mask x coupling layout against closed values and derivatives; every word of polynomial powers up to the bound (any order, repetitions); gradients finite and equal to the analytic ones; the same values compiled and vectorised."
)
ASSUMPTIONS = ["KernelLin from two basis positions on, PositionalEmbedding for positive even sizes"]

RANGES = [None, (0.0, 1.0), (-1.0, 3.0), (2.0, -2.0)]


def cases(tier):
    hi = 9 if tier == "quick" else 17
    for n in list(range(1, hi)) + [21, 49]:
        yield "gauss", dict(n=n)
        yield "fourier", dict(n=n)
        if n > 1:
            yield "lin", dict(n=n)
    for n in list(range(2, 2 * hi, 2)) + [64]:
        yield "pos", dict(n=n)
    for k in ("gauss", "fourier", "lin", "pos", "posapp", "reduced"):
        yield "reduced", dict(kernel=k)
    yield "range", dict()
    for kind in ("fourier", "poly", "concat", "nested"):
        for C in (1, 2, 3):
            yield "features", dict(kind=kind, channels=C)
    for r in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        yield "powers", dict(length=r)


def weight(f, c):
    return {"gauss": 3, "reduced": 4}.get(f, 1)


def rescale(v, r):
    v = np.asarray(v, float)
    return v if r is None else (v - r[0]) / (r[1] - r[0])


def softplus(x):
    return np.log1p(np.exp(-abs(x))) + np.maximum(x, 0)


def f_gauss(v, n, r, w, norm):
    pos = np.linspace(0, 1, n)
    a = -((rescale(v, r)[..., None] - pos) ** 2) * softplus(w) * (n - 1)
    if not norm:
        return np.exp(a)
    a = a - a.max(-1, keepdims=True)
    return np.exp(a) / np.exp(a).sum(-1, keepdims=True)


def f_lin(v, n, r):
    pos = np.linspace(0, 1, n)
    return np.maximum(1 - np.abs(rescale(v, r)[..., None] - pos) * (n - 1), 0)


def f_fourier(v, n, r):
    k = np.arange(1, (n - 1) // 2 + 1)
    z = 2 * np.pi * rescale(v, r)[..., None] * k
    return np.concatenate([np.sin(z), np.cos(z), np.ones(z.shape[:-1] + (1,))], -1)


def f_pos(v, n, m, app):
    h = n // 2
    w = m ** (-np.arange(h) / max(h - 1, 1))
    z = np.asarray(v, float)[..., None] * w
    out = [np.sin(z), np.cos(z)] + ([np.asarray(v, float)[..., None]] if app else [])
    return np.concatenate(out, -1)


def inputs(n, r):
    p = np.linspace(0, 1, max(n, 2))
    u = np.concatenate([p, (p[1:] + p[:-1]) / 2, [-0.3, 1.4, 1e-9, 1 - 1e-9, 0.123, 7.0, -40.0, 300.0]])
    return u if r is None else r[0] + u * (r[1] - r[0])


def shapes(rec, emb, ref, count, label, vals):
    """All input shapes and number types against the same reference."""
    import jax
    import jax.numpy as jnp
    from flax import nnx

    rec.expect(emb.feature_count == count, label + ":count", got=emb.feature_count, want=count)
    v = np.asarray(vals)
    want = ref(v)
    rec.expect(want.shape[-1] == count, label + ":size")
    gd, st = nnx.split(emb)
    got = np.asarray(jax.jit(lambda s, x: nnx.merge(gd, s)(x))(st, jnp.asarray(v)))
    rec.close(got, want, label + ":value", atol=1e-9)
    rec.step(len(v))
    return got


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from bijx.nn import embeddings as E
    from flax import nnx

    if family == "features":
        from checks import p24_vf

        return p24_vf.features(case["kind"], case["channels"], rec)
    if family == "powers":
        # every word of powers, in the order given, repetitions included
        from bijx.nn import features as F

        x = generic((2, 3, 2), -1.5, 1.5, salt=4)
        x[0, 0, 0] = 0.0
        for word in itertools.product((0, 1, 2, 3, 6), repeat=case["length"]):
            K = len(word)
            f = F.PolynomialFeatures(list(word), 2)
            rec.expect(f.out_channel_size == 2 * K, "powers:size", word=word)
            w = np.stack([x**p for p in word], -1)
            dw = np.stack([p * x ** max(p - 1, 0) if p else 0 * x for p in word], -1)
            L = generic((2, 2, K), -1, 1, salt=K)
            y, div = f(jnp.asarray(x), jnp.asarray(L))
            rec.expect(y.shape == (2, 3, 2 * K), "powers:shape", word=word, got=y.shape)
            rec.close(y, w.reshape(2, 3, 2 * K), "powers:value", atol=1e-9, word=word)
            rec.close(div, np.einsum("...cf,ccf->...", dw, L).reshape(2, -1).sum(1), "powers:divergence", atol=1e-9, word=word)
            rec.step(2)
            rec.state(word)
        rec.trace()
        return
    if family == "range":
        for r in RANGES + [(0.0, 5.0), (-3.0, -1.0)]:
            v = generic((2, 3), -4, 4)
            rec.close(E.rescale_range(jnp.asarray(v), r), rescale(v, r), "rescale", r=r)
            if r is not None:
                rec.close(E.rescale_range(r[0], r), 0.0, "rescale:min", atol=1e-12)
                rec.close(E.rescale_range(r[1], r), 1.0, "rescale:max", atol=1e-12)
            rec.state(r)
        rec.trace()
        return

    rngs = nnx.Rngs(0)
    if family == "reduced":
        mk = {
            "gauss": (lambda: E.KernelGauss(5), 5, lambda v: f_gauss(v, 5, None, np.log(np.e - 1), True)),
            "fourier": (lambda: E.KernelFourier(6), 5, lambda v: f_fourier(v, 6, None)),
            "lin": (lambda: E.KernelLin(4, val_range=(0.0, 2.0)), 4, lambda v: f_lin(v, 4, (0.0, 2.0))),
            "pos": (lambda: E.PositionalEmbedding(6), 6, lambda v: f_pos(v, 6, 1e4, False)),
            "posapp": (lambda: E.PositionalEmbedding(4, append_input=True), 5, lambda v: f_pos(v, 4, 1e4, True)),
            "reduced": None,
        }
        for m in (1, 2, 4, 5, 8):
            if case["kernel"] == "reduced":
                inner = E.KernelReduced(E.KernelFourier(5), 3, rngs=rngs)
                S0 = np.asarray(inner.superposition.get_value()) / 5
                base, k, ref = inner, 3, lambda v: f_fourier(v, 5, None) @ S0.T
            else:
                f, k, ref = mk[case["kernel"]]
                base = f()
            emb = E.KernelReduced(base, m, rngs=rngs)
            S = np.asarray(emb.superposition.get_value())
            rec.expect(S.shape == (m, k), "reduced:shape")
            g = S @ S.T if m <= k else S.T @ S
            rec.close(g, np.eye(min(m, k)), "reduced:orthogonal", atol=1e-6)
            v = np.concatenate([np.linspace(-0.5, 2.5, 11)])
            shapes(rec, emb, lambda v: ref(v) @ S.T / k, m, "reduced", v)
            A = generic((m, k), -1, 1)
            emb.superposition.set_value(jnp.asarray(A))
            rec.close(emb(jnp.asarray(v)), ref(v) @ A.T / k, "reduced:linear", atol=1e-9)
            for shp in [(), (1,), (2, 3)]:
                x = generic(shp, 0, 1)
                rec.close(emb(jnp.asarray(x)), ref(x) @ A.T / k, "reduced:batch", atol=1e-9, shp=shp)
            rec.state(case["kernel"], m)
        rec.trace()
        return

    n = case["n"]
    batch = [(), (1,), (2, 3), (2, 1, 2), (0,)]
    if family == "gauss":
        opts = [dict(adaptive_width=a, norm=o, one_width=w, width_factor=f) for a, o, w, f in
                [(True, True, True, None), (True, False, True, -1.0), (True, True, False, None), (True, False, False, 2.0), (False, True, True, 0.5), (False, False, True, None), (False, True, False, None)]]
        for r in RANGES:
            for o in opts if r in (None, (-1.0, 3.0)) else opts[:2]:
                kw = {k: v for k, v in o.items() if v is not None}
                emb = E.KernelGauss(n, val_range=r, rngs=rngs, **kw)
                w = np.log(np.e - 1) if o["width_factor"] is None else o["width_factor"]
                if o["adaptive_width"]:
                    rec.expect(isinstance(emb.width_factor, nnx.Param) and emb.width_factor.get_value().shape == (() if o["one_width"] else (n,)), "gauss:param")
                    if not o["one_width"]:
                        w = generic((n,), -1, 2)
                        emb.width_factor.set_value(jnp.asarray(w))
                else:
                    rec.expect(not isinstance(emb.width_factor, nnx.Param), "gauss:const")
                v = inputs(n, r)
                got = shapes(rec, emb, lambda v: f_gauss(v, n, r, w, o["norm"]), n, "gauss", v)
                if o["norm"]:
                    rec.close(got.sum(-1), np.ones(len(v)), "gauss:norm")
                rec.state(n, r, str(o))
                ref = lambda v: f_gauss(v, n, r, w, o["norm"])  # noqa: E731
    elif family == "lin":
        for r in RANGES:
            emb = E.KernelLin(n, val_range=r)
            v = inputs(n, r)
            ref = lambda v: f_lin(v, n, r)  # noqa: E731
            got = shapes(rec, emb, ref, n, "lin", v)
            u = rescale(v, r)
            inside = (u >= 0) & (u <= 1)
            rec.close(got[inside].sum(-1), np.ones(inside.sum()), "lin:partition", atol=1e-9)
            rec.close(got[inside] @ np.linspace(0, 1, n), u[inside], "lin:interpolation", atol=1e-9)
            rec.expect(np.all((got > 1e-12).sum(-1) <= 2), "lin:two-active")
            rec.close(got[:n], np.eye(n), "lin:nodes", atol=1e-9)
            rec.state(n, r)
    elif family == "fourier":
        for r in RANGES:
            emb = E.KernelFourier(n, val_range=r)
            cnt = 2 * ((n - 1) // 2) + 1
            v = inputs(n, r)
            ref = lambda v: f_fourier(v, n, r)  # noqa: E731
            got = shapes(rec, emb, ref, cnt, "fourier", v)
            P = 1.0 if r is None else r[1] - r[0]
            rec.close(emb(jnp.asarray(v[:5] + P)), got[:5], "fourier:period", atol=1e-8)
            rec.close(got[:, -1], np.ones(len(v)), "fourier:constant", rtol=0, atol=0)
            # orthogonality over one period: distinct frequencies 1..k
            t = (np.arange(2 * cnt + 1) / (2 * cnt + 1)) * P + (0 if r is None else r[0])
            B = np.asarray(emb(jnp.asarray(t)))
            rec.close(B.T @ B / len(t), np.diag([0.5] * (cnt - 1) + [1.0]), "fourier:orthogonal", atol=1e-9)
            rec.state(n, r)
    else:
        for m, app in itertools.product((10000.0, 10.0, 1.0), (False, True)):
            kw = {} if m == 10000.0 else dict(max_positions=m)
            emb = E.PositionalEmbedding(n, append_input=app, **kw)
            v = np.concatenate([np.arange(-2.0, 6.0), [0.5, 123.4]])
            ref = lambda v: f_pos(v, n, m, app)  # noqa: E731
            shapes(rec, emb, ref, n + app, "pos", v)
            rec.close(emb(jnp.arange(5)), ref(np.arange(5)), "pos:integers", atol=1e-6)
            rec.close(emb(jnp.asarray([0, 3], jnp.int32)), ref(np.array([0, 3])), "pos:int32", atol=1e-5)
            rec.state(n, m, app)
        if n == 4:
            for bad in (1, 3, 5):
                try:
                    E.PositionalEmbedding(bad)
                    rec.expect(False, "pos:odd-accepted")
                except AssertionError:
                    rec.expect(True, "pos:odd")
    # last configuration: all input shapes, python numbers, derivative
    cnt = emb.feature_count
    if n in (2, 3, 4, 5):
        for shp in batch:
            x = generic(shp, 0.05, 0.95, salt=2)
            y = emb(jnp.asarray(x))
            rec.close(y, ref(x) if prod(shp) else np.zeros(shp + (cnt,)), family + ":batch", atol=1e-9, shp=shp)
            rec.state(family, "batch", shp)
        rec.close(emb(0.3), ref(np.asarray(0.3)), family + ":python-float", atol=1e-6)
        rec.close(emb(1), ref(np.asarray(1.0)), family + ":python-int", atol=1e-6)
        g = np.asarray(jax.jacfwd(lambda x: emb(x))(jnp.asarray(0.317)))
        h = 1e-4
        fd = (8 * (ref(np.asarray(0.317 + h)) - ref(np.asarray(0.317 - h))) - (ref(np.asarray(0.317 + 2 * h)) - ref(np.asarray(0.317 - 2 * h)))) / (12 * h)
        rec.close(g, fd, family + ":derivative", rtol=1e-5, atol=1e-6)
        rec.close(jax.vmap(emb)(jnp.asarray([0.1, 0.7])), ref(np.array([0.1, 0.7])), family + ":vmap", atol=1e-9)
    rec.trace()

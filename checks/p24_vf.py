"""P24: velocity fields and their divergence."""
import itertools
from functools import partial

import numpy as np

from mc.lib import fd_jac, generic, prod

PROPERTY = "P24"
RULE = (
    "Convolutional field: kernel x lattice shapes (smaller, equal and larger than the kernel, 1..4 dimensions) x channel shapes x feature sets x "
    "reduction switches x bias x symmetry x times x batch shapes; the returned rate is compared with minus the trace of the full Jacobian of the "
    "returned velocity, and the velocity with an explicit periodic sum in numpy; all translations and hypercubic symmetries.  Automatic divergence: "
    "event ranks 0..3 x batch shapes x dtypes x keyword arguments against finite differences.  Feature maps: all kinds, nestings, masks and "
    "couplings against explicit derivatives.  Flows: log density of the integrated field against the log determinant of the flow."
)
ASSUMPTIONS = ["batches are not empty", "convolutional fields are built with one of the two documented orbit functions (or a custom one whose first orbit is the centre)"]

CONV = [((1,), (1,)), ((3,), (1,)), ((3,), (2,)), ((3,), (5,)), ((5,), (2,)), ((5,), (4,)), ((2,), (3,)), ((4,), (4,)), ((4,), (1,)),
        ((1, 1), (2, 2)), ((3, 3), (3, 3)), ((3, 3), (2, 4)), ((2, 2), (2, 2)), ((2, 2), (3, 2)), ((3, 3), (1, 3)), ((4, 4), (4, 4)), ((3, 3, 3), (2, 2, 2)), ((3, 3, 3), (3, 2, 1)),
        ((3, 3, 3, 3), (2, 2, 2, 1))]


def cases(tier):
    for k, l in CONV + ([((5, 5), (5, 5)), ((5, 5), (3, 4)), ((3, 3), (4, 5)), ((3, 3, 3), (3, 3, 3)), ((7,), (3,))] if tier != "quick" else []):
        for ch in [(), (1,), (2,), (3,), (2, 2)]:
            if prod(l) * prod(ch) > 60:
                continue
            if len(k) > 2 and ch not in [(), (2,)]:
                continue
            if tier == "quick" and ch not in [(), (2,)] and (k, l) not in [((3,), (2,)), ((3, 3), (2, 4)), ((2, 2), (2, 2))]:
                continue
            yield "conv", dict(kernel=list(k), lattice=list(l), channels=list(ch), combos=4 if tier != "quick" or (ch == (2,) and len(k) == 1) else 2)
    for ed in (0, 1, 2, 3):
        yield "auto", dict(event_dim=ed)
    for kind in ("fourier", "poly", "concat", "nested"):
        for C in (1, 2, 3):
            yield "features", dict(kind=kind, channels=C)
    for k, l, ch in [((3, 3), (2, 3), ()), ((3,), (4,), (2,)), ((2, 2), (2, 2), ()), ((5,), (2,), (2,))]:
        yield "flow", dict(kernel=list(k), lattice=list(l), channels=list(ch))


def weight(f, c):
    return {"conv": 3, "flow": 8, "auto": 6, "features": 2}[f] * (prod(c.get("lattice", [1])) if f == "conv" else 1)


def build(ker, ch, fset, fr, tr, bias, sym, seed=0, nt=5):
    import bijx
    from bijx.nn import conv, embeddings as E, features as F
    from flax import nnx

    feats = {
        "mix": (partial(F.FourierFeatures, 2), partial(F.PolynomialFeatures, (1, 2))),
        "poly": (partial(F.PolynomialFeatures, (0, 1, 3)),),
        "four": (partial(F.FourierFeatures, 3),),
        "one": (partial(F.PolynomialFeatures, (1,)),),
        "sin": (partial(F.FourierFeatures, 1),),
    }[fset]
    return bijx.ConvVF.build(ker, ch, symmetry={"d4": conv.kernel_d4, "eq": conv.kernel_equidist}[sym], use_bias=bias,
                             time_kernel=E.KernelFourier(nt), time_kernel_reduced=tr, features=feats, features_reduced=fr, rngs=nnx.Rngs(seed))


def np_velocity(vf, temb, x, ker, lat, ch, sym):
    """Independent reference: features -> superposition -> periodic sum with the time-dependent kernel."""
    from bijx.nn import conv, features as F

    C = prod(ch)
    B = x.shape[0]
    z = x.reshape((B,) + lat + (C,))
    parts = []
    for f in vf.feature_map.features:
        if isinstance(f, F.FourierFeatures):
            parts.append(np.sin(z[..., None] * np.asarray(f.phi_freq.get_value())))
        else:
            parts.append(np.stack([z**p for p in f.powers], -1))
    fe = np.concatenate(parts, -1).reshape(z.shape[:-1] + (-1,))
    if vf.feature_superposition is not None:
        S = np.asarray(vf.feature_superposition.get_value()) / fe.shape[-1]
        fe = fe @ S.T
    n, orb = {"d4": conv.kernel_d4, "eq": conv.kernel_equidist}[sym](ker)
    par = np.asarray(vf.conv.kernel_params.get_value())
    T = len(temb)
    par = par.reshape(par.shape[:-1] + (C, T)) @ temb
    K = par[np.asarray(orb)]
    out = np.zeros(z.shape)
    ax = tuple(range(1, 1 + len(lat)))
    for k in np.ndindex(*ker):
        d = tuple(-(i - (s - 1) // 2) for i, s in zip(k, ker))
        out += np.roll(fe, d, ax) @ K[k]
    if vf.conv.bias is not None:
        out += np.asarray(vf.conv.bias.get_value()).reshape(C, T) @ temb
    return out.reshape(x.shape)


def randomize(vf):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    gd, st, rest = nnx.split(vf, nnx.Param, ...)
    leaves, tree = jax.tree.flatten(st)
    leaves = [jnp.asarray(generic(l.shape, -1, 1, salt=3 + i)) for i, l in enumerate(leaves)]
    return nnx.merge(gd, jax.tree.unflatten(tree, leaves), rest)


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp

    import bijx
    from bijx.nn import features as F
    from flax import nnx

    if family == "features":
        return features(case["kind"], case["channels"], rec)
    if family == "auto":
        return auto(case["event_dim"], rec)
    ker, lat, ch = tuple(case["kernel"]), tuple(case["lattice"]), tuple(case["channels"])
    ev = lat + ch
    n = prod(ev)
    d = len(lat)

    if family == "flow":
        vf = randomize(build(ker, ch, "mix", 3, 2, True, "d4"))
        gd, st = nnx.split(vf)

        def fl(st, x):
            f = bijx.ContFlowRK4(nnx.merge(gd, st), t_start=0.0, t_end=0.5, steps=40)
            return f.forward(x, jnp.zeros(x.shape[:1]))

        x = jnp.asarray(generic((2,) + ev, -1, 1))
        y, ld = jax.jit(fl)(st, x)
        J = jax.jit(jax.vmap(jax.jacrev(lambda v: fl(st, v.reshape((1,) + ev))[0].reshape(-1))))(x.reshape(2, n))
        rec.close(ld, -np.linalg.slogdet(np.asarray(J))[1], "flow:density", rtol=1e-5, atol=1e-6)
        f = bijx.ContFlowRK4(nnx.merge(gd, st), t_start=0.0, t_end=0.5, steps=40)
        z, l2 = jax.jit(lambda a, b: f.reverse(a, b))(y, ld)
        rec.close(z, x, "flow:reverse", atol=1e-5)
        rec.close(l2, np.zeros(2), "flow:reverse-density", atol=1e-5)
        rec.step(3)
        rec.state(ker, lat, ch)
        rec.trace()
        return

    combos = [("mix", 3, 2, True, "d4"), ("poly", None, 3, False, "d4"), ("four", 2, None, True, "eq"), ("mix", None, None, True, "eq")]
    combos = combos[: case["combos"]] if ch == (2,) else ([combos[0], combos[3]] if case["combos"] == 2 else combos)
    if d > 2:
        combos = combos[:2]
    if ch in ((), (1,)) and (ker, lat) in [((3,), (2,)), ((3, 3), (2, 4)), ((2, 2), (2, 2))]:
        # a single feature in total, with and without superposition
        combos = combos + [("one", 1, 2, False, "d4"), ("sin", 1, None, True, "d4"), ("one", 3, None, False, "eq"), ("sin", None, 1, True, "d4")]
    xs = np.stack([generic(ev, -1.5, 1.5, salt=s) for s in (0, 1)] + [np.zeros(ev), np.full(ev, 0.7)])
    for fset, fr, tr, bias, sym in combos:
        vf = randomize(build(ker, ch, fset, fr, tr, bias, sym))
        gd, st = nnx.split(vf)

        def call(st, t, x):
            return nnx.merge(gd, st)(t, x)

        fn = jax.jit(lambda st, t, x: jax.vmap(lambda v: call(st, t, v), out_axes=0)(x))
        jac = jax.jit(lambda st, t, x: jax.vmap(jax.jacfwd(lambda v: call(st, t, v.reshape(ev))[0].reshape(-1)))(x.reshape(-1, n)))
        for t in (0.0, 0.37, 1.0, -0.4):
            temb = np.asarray(vf.time_kernel(jnp.asarray(t)))
            v, r = fn(st, jnp.asarray(t), jnp.asarray(xs))
            rec.expect(v.shape == xs.shape and r.shape == (len(xs),), "conv:shape")
            rec.close(v, np_velocity(vf, temb, xs, ker, lat, ch, sym), "conv:velocity", atol=1e-9, ker=ker, lat=lat, ch=ch, combo=(fset, fr, tr, bias, sym))
            J = np.asarray(jac(st, jnp.asarray(t), jnp.asarray(xs)))
            rec.close(r, -np.trace(J, axis1=1, axis2=2), "conv:divergence", atol=1e-9, ker=ker, lat=lat, ch=ch, t=t, combo=(fset, fr, tr, bias, sym))
            rec.step(len(xs))
            rec.state(ker, lat, ch, fset, fr, tr, bias, sym, t)
        v0, r0 = map(np.asarray, fn(st, jnp.asarray(0.37), jnp.asarray(xs)))
        if fset == "mix" and fr == 3 and (ker, lat) in [((3,), (2,)), ((3, 3), (2, 4)), ((2, 2), (2, 2)), ((5,), (4,)), ((3, 3, 3), (2, 2, 2))]:
            # batch shapes
            for bs in [(), (1, 4), (2, 1, 2)]:
                m = prod(bs)
                xb = xs[:m].reshape(bs + ev)
                v, r = vf(0.37, jnp.asarray(xb))
                rec.expect(v.shape == bs + ev and r.shape == bs, "conv:batch-shape", bs=bs)
                rec.close(v, v0[:m].reshape(bs + ev), "conv:batch", atol=1e-9, bs=bs)
                rec.close(r, r0[:m].reshape(bs), "conv:batch-rate", atol=1e-9, bs=bs)
                rec.state("batch", bs)
        # symmetries of the field
        x0 = xs[0]
        items, refs = [], []
        for t in np.ndindex(*lat):
            items.append(np.roll(x0, t, tuple(range(d))))
            refs.append(np.roll(v0[0], t, tuple(range(d))))
        if all(k % 2 or k == l for k, l in zip(ker, lat)):
            for p in itertools.permutations(range(d)):
                if any(lat[p[a]] != lat[a] for a in range(d)):
                    continue
                for sg in itertools.product((1, -1), repeat=d):
                    def act(f):
                        out = np.empty_like(f)
                        for s in np.ndindex(*lat):
                            out[tuple((sg[a] * s[p[a]]) % lat[a] for a in range(d))] = f[s]
                        return out

                    items.append(act(x0))
                    refs.append(act(v0[0]))
        while len(items) % len(xs):
            items.append(items[0])
            refs.append(refs[0])
        items, refs = np.stack(items), np.stack(refs)
        if len(items) > 64:
            items, refs = items[-64:], refs[-64:]
        for i in range(0, len(items), len(xs)):
            v, r = fn(st, jnp.asarray(0.37), jnp.asarray(items[i: i + len(xs)]))
            rec.close(v, refs[i: i + len(xs)], "conv:equivariance", atol=1e-9, ker=ker, lat=lat)
            rec.close(r, np.full(len(xs), r0[0]), "conv:invariant-rate", atol=1e-9)
            rec.step(len(xs))
    rec.trace()


def features(kind, C, rec):
    import jax
    import jax.numpy as jnp
    from bijx.nn import features as F
    from flax import nnx

    rngs = nnx.Rngs(0)
    mk = {
        "fourier": lambda: [F.FourierFeatures(k, C, rngs=rngs) for k in (1, 2, 4)],
        "poly": lambda: [F.PolynomialFeatures(list(p), C) for r in (1, 2, 3) for p in itertools.combinations((0, 1, 2, 3), r)],
        "concat": lambda: [F.ConcatFeatures([F.FourierFeatures(2, C, rngs=rngs), F.PolynomialFeatures([1, 2], C)]),
                           F.ConcatFeatures([F.PolynomialFeatures([3], C), F.FourierFeatures(1, C, rngs=rngs), F.PolynomialFeatures([0, 1], C)]),
                           F.ConcatFeatures([F.FourierFeatures(3, C, rngs=rngs)]), F.ConcatFeatures([F.PolynomialFeatures([2], C)]), F.ConcatFeatures([F.FourierFeatures(1, C, rngs=rngs)])],
        "nested": lambda: [F.ConcatFeatures([F.ConcatFeatures([F.PolynomialFeatures([2], C)]), F.ConcatFeatures([F.FourierFeatures(2, C, rngs=rngs), F.PolynomialFeatures([1], C)])])],
    }[kind]()

    def ref(f, x):
        if isinstance(f, F.FourierFeatures):
            w = np.asarray(f.phi_freq.get_value())
            return np.sin(x[..., None] * w), w * np.cos(x[..., None] * w)
        if isinstance(f, F.PolynomialFeatures):
            return (np.stack([x**p for p in f.powers], -1), np.stack([p * x ** max(p - 1, 0) if p else 0 * x for p in f.powers], -1))
        a = [ref(g, x) for g in f.features]
        return np.concatenate([u for u, _ in a], -1), np.concatenate([v for _, v in a], -1)

    for i, f in enumerate(mk):
        for sp in [(), (3,), (2, 2)] if i == 0 else [(1, 2), ()]:
            x = generic((3,) + sp + (C,), -1.5, 1.5, salt=i)
            x.reshape(-1)[0] = 0.0
            w, dw = ref(f, x)
            K = w.shape[-1]
            rec.expect(f.out_channel_size == C * K, "features:size", kind=kind)
            for gen_mask in (None, "zeros", "mixed", "weights", "per-sample"):
                m = {None: None, "zeros": np.zeros(sp), "mixed": (np.arange(prod(sp)) % 2 == 0).reshape(sp).astype(float), "weights": generic(sp, -0.5, 1.5, salt=11),
                     "per-sample": generic((3,) + sp, -0.5, 1.5, salt=12)}[gen_mask]
                L = generic((C, C, K), -1, 1, salt=5 + i)
                for flat in (True, False):
                    y, div = f(jnp.asarray(x), jnp.asarray(L), flatten_features=flat, mask=None if m is None else jnp.asarray(m))
                    rec.close(y, w.reshape(x.shape[:-1] + (-1,)) if flat else w, "features:value", atol=1e-9, kind=kind, sp=sp, flat=flat)
                    dd = np.einsum("...cf,ccf->...c", dw, L)
                    if m is not None:
                        dd = dd * m[..., None]
                    rec.close(div, dd.reshape(3, -1).sum(1), "features:divergence", atol=1e-9, kind=kind, sp=sp, mask=gen_mask, flat=flat)
                    rec.step(2)
                    rec.state(kind, i, sp, gen_mask, flat, C)
                if C == 1:
                    rec.close(f(jnp.asarray(x), jnp.asarray(L.reshape(-1)), mask=None if m is None else jnp.asarray(m))[1], dd.reshape(3, -1).sum(1), "features:flat-coupling", atol=1e-9)
            # couplings between different channels do not enter the divergence
            L2 = L.copy()
            for a, b in itertools.permutations(range(C), 2):
                L2[a, b] += 1.0
            rec.close(f(jnp.asarray(x), jnp.asarray(L2))[1], f(jnp.asarray(x), jnp.asarray(L))[1], "features:offdiagonal", atol=1e-12)
    try:
        F.NonlinearFeatures(1)(jnp.ones((1, 1)), jnp.ones((1, 1, 1)))
        rec.expect(False, "features:abstract")
    except NotImplementedError:
        rec.expect(True, "features:abstract")
    rec.trace()


def auto(ed, rec):
    import bijx
    import jax
    import jax.numpy as jnp
    from flax import nnx

    evs = {0: [()], 1: [(1,), (2,), (4,)], 2: [(1, 1), (2, 3), (3, 1)], 3: [(1, 2, 2), (2, 1, 3)]}[ed]

    def base(xp, t, x, s=1.0):
        n = prod(x.shape[x.ndim - ed:])
        e = x.reshape(x.shape[: x.ndim - ed] + (n,))
        A = generic((n, n), -1, 1, salt=1)
        B = generic((n, n), -1, 1, salt=2)
        y = s * xp.sin(e @ A.T) + t * (e @ B.T) * e + t**2
        return y.reshape(x.shape)

    class VF(nnx.Module):
        def __init__(self):
            self.w = nnx.Param(jnp.asarray(1.5))

        def __call__(self, t, x, s=1.0):
            return self.w * base(jnp, t, x, s)

    for ev in evs:
        n = prod(ev)
        for mod in (False, True):
            f = bijx.AutoJacVF(VF() if mod else (lambda t, x, s=1.0: base(jnp, t, x, s)), event_dim=ed)
            sc = 1.5 if mod else 1.0
            for t, s in itertools.product((0.0, 0.6), (None, 2.0)):
                kw = {} if s is None else dict(s=s)
                xs = generic((4,) + ev, -1, 1, salt=3)
                wv = sc * base(np, t, xs, **kw)
                wr = np.array([-np.trace(fd_jac(lambda z: sc * base(np, t, z, **kw), x)) for x in xs])
                for bs in [(), (4,), (1, 3), (2, 1, 2)] if ed < 2 or (not mod and s is None) else [(2, 2)]:
                    m = prod(bs)
                    v, r = f(t, jnp.asarray(xs[:m].reshape(bs + ev)), **kw)
                    rec.expect(v.shape == bs + ev and r.shape == bs, "auto:shape", bs=bs, ev=ev, v=v.shape, r=r.shape)
                    rec.close(v, wv[:m].reshape(bs + ev), "auto:velocity", atol=1e-9, bs=bs, ev=ev)
                    rec.close(r, wr[:m].reshape(bs), "auto:rate", rtol=1e-6, atol=1e-7, bs=bs, ev=ev)
                    rec.step()
                    rec.state(ed, ev, mod, t, s, bs)
        v, r = f(0.6, jnp.asarray(xs[:2], jnp.float32))
        rec.close(np.asarray(v, float), sc * base(np, 0.6, xs[:2]), "auto:float32", rtol=1e-4, atol=1e-4)
    rec.trace()

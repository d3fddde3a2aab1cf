"""Batch law, shared by the checks: every object treats every entry of every batch shape as if it were alone.

One family ("batch") per kind of object of the state table (checks/p27_state.kinds): all batch shapes of the alphabet below x
{compiled, eager} x directions; the reference is the evaluation of single events without any batch axis.
"""
import numpy as np

from mc.lib import generic, prod

SHAPES = [(1,), (0,), (5,), (3, 1, 2), (2, 0), (17,), (64,), (65,), (12, 11), (257,), (1030,)]
EAGER = [(1,), (5,), (3, 1, 2), (33,)]
KINDS = {
    "P01": ["affine", "scaling", "shift", "power", "gausscdf", "beta", "cubic", "sinhconj", "cubicconj", "const", "notransform"],
    "P02": ["identity", "chain", "inverse", "condinv", "frozen", "scan", "partial_"],
    "P03": ["expand", "reshape"],
    "P04": ["rqs"],
    "P06": ["coupling", "coupling-mult"],
    "P07": ["ray", "radial", "radcond"],
    "P08": ["diffrax", "rk4", "cgflow"],
    "P11": ["tofourier"],
    "P12": ["spectrum", "freeconst", "spectral"],
    "P13": ["normal", "uniform", "mvn", "mvn-cov", "diag"],
    "P14": ["mixture", "gmm"],
    "P15": ["transformed"],
    "P22": ["haar"],
    "P23": ["convsym"],
    "P24": ["convvf", "autojac"],
    "P25": ["gauss", "kfourier", "kreduced", "ffeat", "pfeat"],
    "P29": ["mlp", "resnet", "convnet"],
}


def cases(pid, tier):
    for n in KINDS.get(pid, []):
        yield "batch", dict(name=n)


def rule(pid):
    if pid not in KINDS:
        return ""
    return (f" Batch law: {len(KINDS[pid])} kinds of objects x {len(SHAPES)} batch shapes (empty, single, nested, up to 1030 entries), compiled and eager, "
            "against single events.")


def run(rec, name):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    from checks import p27_state

    build, kind, ev = p27_state.kinds()[name]
    m = build()
    N = 1030
    X = generic((N,) + ev, 0.2, 0.8) if kind != "net" or ev else generic((N,), 0.05, 0.95)
    LD = generic((N,), -1, 1, salt=3)
    if name == "haar":
        X = np.asarray(m.sample((N,), rng=jax.random.key(11))[0])

    shapes_ok = lambda bs: True  # noqa: E731
    if kind == "bij":
        def fn(m, x, ld):
            y, a = m.forward(x, ld)
            z, b = m.reverse(x, ld)
            return [y, a, z, b]
        if name == "tofourier":
            Y = np.asarray(jax.jit(lambda x: m.forward(x, jnp.zeros(x.shape[:1]))[0])(X))

            def fn(m, x, ld):  # noqa: F811  the image has another shape: the inverse gets its own input
                y, a = m.forward(x, ld)
                return [y, a, *m.reverse(y * 0.9, ld)]
    elif kind == "dist":
        def fn(m, x, ld):
            return [m.log_density(x)]
    elif kind == "vf":
        def fn(m, x, ld):
            return list(m(0.3, x))
    elif kind == "feat":
        def fn(m, x, ld):
            # features take exactly one batch axis
            out = m(jnp.atleast_2d(x), jnp.ones((x.shape[-1], m.out_channel_size)))
            return [v[0] if x.ndim == 1 else v for v in out]
        ev = ev[1:]
        X = generic((N,) + ev, 0.2, 0.8)
    else:
        def fn(m, x, ld):
            return [m(x)]

    if kind == "feat":
        shapes_ok = lambda bs: len(bs) == 1 and bs[0] > 0  # noqa: E731
    elif name == "convvf":
        shapes_ok = lambda bs: prod(bs) > 0  # noqa: E731
    gd, st = nnx.split(m)
    cfn = jax.jit(lambda s, x, ld: fn(nnx.merge(gd, s), x, ld))
    jfn = lambda x, ld: cfn(st, x, ld)  # noqa: E731
    pick = [0, 1, 2, 3, 4, 5, 7, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 131, 200, 255, 256, 257, 511, 512, 640, 1000, 1023, 1024, 1029]
    ref = {i: [np.asarray(v) for v in jfn(jnp.asarray(X[i]), jnp.asarray(LD[i]))] for i in pick}
    for tag, shapes in (("compiled", SHAPES), ("eager", EAGER)):
        for bs in filter(shapes_ok, shapes):
            n = prod(bs)
            x, l = jnp.asarray(X[:n].reshape(bs + ev)), jnp.asarray(LD[:n].reshape(bs))
            out = [np.asarray(v) for v in (jfn(x, l) if tag == "compiled" else fn(m, x, l))]
            for k, v in enumerate(out):
                es = ref[0][k].shape
                ok = v.shape == bs + es
                rec.expect(ok, "batch:shape", name=name, bs=bs, k=k, got=v.shape, want=bs + es, tag=tag)
                if ok and n:
                    idx = [i for i in pick if i < n]
                    rec.close(v.reshape((n,) + es)[idx], np.stack([ref[i][k] for i in idx]), "batch:entry", rtol=1e-9, atol=1e-10, name=name, bs=bs, k=k, tag=tag)
                    rec.expect(np.all(np.isfinite(v) | ~np.isfinite(ref[0][k]).all()), "batch:finite", name=name, bs=bs, k=k)
            rec.step()
            rec.state(name, bs, tag)
            rec.trace()
    rec.outcome(np.concatenate([np.ravel(v) for v in ref[1029]]).tobytes())

    if kind == "dist":
        for bs in [(1030,), (0,), (12, 11)]:
            s, lp = m.sample(bs, rng=jax.random.key(5))
            s, lp = np.asarray(s), np.asarray(lp)
            rec.expect(s.shape == bs + ev and lp.shape == bs, "batch:sample-shape", name=name, bs=bs)
            n = prod(bs)
            if n:
                rec.close(lp, m.log_density(jnp.asarray(s)), "batch:sample-density", rtol=1e-9, atol=1e-9, name=name, bs=bs)
                rec.expect(len(np.unique(s.reshape(n, -1), axis=0)) == n, "batch:repeated-sample", name=name, bs=bs)
            rec.step()

"""P03: shape-manipulating layers are pure relabelings of coordinates."""
import itertools

import numpy as np

PROPERTY = "P03"
RULE = (
    "All pairs of event shapes with equal element count up to the bound (rank<=3), all batch shapes of rank<=2, "
    "all axes for dimension insertion/removal, all words of length<=3 over the layer alphabet; the oracle is the "
    "numpy C-order reshape applied to arrays of distinct labels (so any permutation or mixing of batch entries shows)."
)


def shapes_of(n, rank):
    if rank == 0:
        return [()] if n == 1 else []
    out = []
    for d in range(1, n + 1):
        if n % d == 0:
            out += [(d,) + r for r in shapes_of(n // d, rank - 1)]
    return out


def event_shapes(n):
    out = []
    for r in range(0, 4):
        out += shapes_of(n, r)
    return out


BATCH = [(), (2,), (2, 3), (0,), (1,)]


def cases(tier):
    big = tier == "thorough"
    for n in ([1, 2, 4, 6, 8, 12] if big else [1, 2, 6]):
        for s in event_shapes(n):
            yield "reshape", dict(n=n, src=list(s), batches=[list(b) for b in (BATCH if big else BATCH[::2] + BATCH[3:4])])
    for r in range(1, 4):
        for b in [(), (2,), (2, 3)]:
            for d in [1, 2, 3] if big or r < 3 else [1, 2]:
                yield "axes", dict(rank=r, batch=list(b), first=d, dims=[1, 2, 3] if big or r < 3 else [1, 2])
    yield "words", dict()
    yield "meta", dict()


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp

    import bijx

    def both(layer, x, ld, want, label, **d):
        y, l = layer.forward(jnp.asarray(x), jnp.asarray(ld))
        rec.expect(np.array_equal(np.asarray(y), want), label + ":forward", shape=np.shape(y), **d)
        rec.expect(np.array_equal(np.asarray(l), ld), label + ":density", **d)
        z, m = layer.reverse(y, l)
        rec.expect(np.shape(z) == x.shape and np.array_equal(np.asarray(z), x), label + ":reverse", **d)
        rec.expect(np.array_equal(np.asarray(m), ld), label + ":density-reverse", **d)
        i = layer.invert()
        q, _ = i.reverse(jnp.asarray(x), jnp.asarray(ld))
        rec.expect(np.array_equal(np.asarray(q), want), label + ":invert", **d)
        rec.step(3)
        rec.trace()
        rec.outcome(np.asarray(y).shape)

    if family == "reshape":
        src = tuple(case["src"])
        n = case["n"]
        for dst in event_shapes(n):
            lay = bijx.Reshape(src, dst)
            for b in map(tuple, case["batches"]):
                x = np.arange(int(np.prod(b + src)), dtype=float).reshape(b + src)
                ld = np.arange(int(np.prod(b)), dtype=float).reshape(b) + 0.5
                both(lay, x, ld, x.reshape(b + dst), "reshape", src=src, dst=dst, b=b)
                rec.state(src, dst, b)
            # a wrong event shape must be rejected, never silently reinterpreted
            for bad in event_shapes(n):
                if bad != src and bad[-len(src):] != src and len(src):
                    for m, arg in ((lay.forward, bad),):
                        xb = np.arange(int(np.prod((2,) + bad)), dtype=float).reshape((2,) + bad)
                        if xb.shape[-len(src):] == src:
                            continue
                        try:
                            m(jnp.asarray(xb), jnp.zeros(2))
                            rec.expect(False, "reshape:accepted-wrong-event-shape", src=src, bad=bad)
                        except Exception:
                            rec.expect(True, "ok")
                        rec.step()
            for bad in event_shapes(n):
                if len(dst) and bad != dst:
                    xb = np.zeros((2,) + bad)
                    if xb.shape[-len(dst):] == dst:
                        continue
                    try:
                        lay.reverse(jnp.asarray(xb), jnp.zeros(2))
                        rec.expect(False, "reshape:reverse-accepted-wrong-event-shape", dst=dst, bad=bad)
                    except Exception:
                        rec.expect(True, "ok")
                    rec.step()

    elif family == "axes":
        r = case["rank"]
        b = tuple(case["batch"])
        for shape in itertools.product([case["first"]], *[case["dims"]] * (r - 1)):
            if True:
                full = b + shape
                x = np.arange(int(np.prod(full)), dtype=float).reshape(full)
                ld = np.arange(int(np.prod(b)), dtype=float).reshape(b)
                for ax in range(-len(full) - 1, len(full) + 1):
                    both(bijx.ExpandDims(axis=ax), x, ld, np.expand_dims(x, ax), "expand", full=full, ax=ax)
                    rec.state("e", full, ax)
                for ax in range(-len(full), len(full)):
                    if full[ax] == 1:
                        both(bijx.SqueezeDims(axis=ax), x, ld, np.squeeze(x, ax), "squeeze", full=full, ax=ax)
                        rec.state("s", full, ax)
                    else:
                        try:
                            bijx.SqueezeDims(axis=ax).forward(jnp.asarray(x), jnp.asarray(ld))
                            rec.expect(False, "squeeze:accepted-non-singleton", full=full, ax=ax)
                        except Exception:
                            rec.expect(True, "ok")
            both(bijx.ExpandDims(), x, ld, x[..., None], "expand-default")
        both(bijx.SqueezeDims(), x[..., None], ld, x, "squeeze-default")

    elif family == "words":
        # every word of length <= 3 whose layers compose on event (2, 3)
        alpha = {
            "r6": (bijx.Reshape((2, 3), (6,)), lambda a: a.reshape(a.shape[:-2] + (6,)), lambda s: s[-2:] == (2, 3) and len(s) == 3),
            "r23": (bijx.Reshape((6,), (2, 3)), lambda a: a.reshape(a.shape[:-1] + (2, 3)), lambda s: s[-1:] == (6,)),
            "r32": (bijx.Reshape((2, 3), (3, 2)), lambda a: a.reshape(a.shape[:-2] + (3, 2)), lambda s: s[-2:] == (2, 3)),
            "e": (bijx.ExpandDims(), lambda a: a[..., None], lambda s: len(s) < 5),
            "s": (bijx.SqueezeDims(), lambda a: a[..., 0], lambda s: s[-1] == 1),
            "t": (bijx.MetaLayer(lambda x: x[..., ::-1], lambda x: x[..., ::-1]), lambda a: a[..., ::-1], lambda s: True),
        }
        x0 = np.arange(12.0).reshape(2, 2, 3)
        ld = np.array([0.3, -0.2])
        frontier = [((), x0)]
        for depth in range(4):
            nxt = []
            for word, val in frontier:
                if word:
                    ch = bijx.Chain(*[alpha[w][0] for w in word])
                    both(ch, x0, ld, val, "word", word=word)
                    jy, jl = jax.jit(lambda a, l: ch.forward(a, l))(jnp.asarray(x0), jnp.asarray(ld)) if depth <= 2 else (val, ld)
                    rec.expect(np.array_equal(np.asarray(jy), val), "word:jit", word=word)
                rec.state(word)
                for w, (_, f, ok) in alpha.items():
                    if ok(val.shape):
                        nxt.append((word + (w,), f(val)))
            frontier = nxt

    elif family == "meta":
        for name, f, g in (("swap", lambda x: jnp.swapaxes(x, -1, -2), lambda x: jnp.swapaxes(x, -1, -2)),
                           ("roll", lambda x: jnp.roll(x, 1, -1), lambda x: jnp.roll(x, -1, -1)),
                           ("neg", lambda x: -x, lambda x: -x)):
            for b in [(), (2,)]:
                x = np.arange(int(np.prod(b + (2, 3))), dtype=float).reshape(b + (2, 3))
                ld = np.zeros(b) + 0.25
                both(bijx.MetaLayer(f, g), x, ld, np.asarray(f(jnp.asarray(x))), "meta:" + name)
                # keyword arguments shared by a chain are ignored
                y, l = bijx.MetaLayer(f, g).forward(jnp.asarray(x), jnp.asarray(ld), c=1)
                rec.expect(np.array_equal(y, f(jnp.asarray(x))), "meta:kwargs")
                y, l = bijx.Reshape((2, 3), (6,)).forward(jnp.asarray(x), jnp.asarray(ld), c=1)
                rec.expect(np.shape(y) == b + (6,), "reshape:kwargs")
                rec.state(name, b)

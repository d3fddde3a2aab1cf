"""P05: binary masks partition sites; split/merge are exact inverses."""
import itertools

import numpy as np

PROPERTY = "P05"
RULE = (
    "Every boolean mask on every event shape with at most 6 sites (9 in thorough), including all-on/all-off, times "
    "construction route (boolean, index lists in every order), times batch shapes and trailing channel shapes, times flip words of length<=3; arrays carry "
    "distinct labels. Oracle: numpy boolean indexing."
)

SHAPES = [(1,), (2,), (3,), (4,), (5,), (2, 2), (2, 3), (1, 3), (3, 1), (2, 1, 2)]


def cases(tier):
    shapes = SHAPES + ([(6,), (3, 2), (1, 1, 4), (3, 3), (2, 2, 2)] if tier == "thorough" else [])
    for s in shapes:
        n = int(np.prod(s))
        step = 8
        for lo in range(0, 2**n, step):
            yield "masks", dict(shape=list(s), lo=lo, hi=min(lo + step, 2**n))
    for s in [(3,), (4,), (2, 2), (1, 3), (2, 1, 2)] + ([(5,), (2, 3), (1, 2, 2), (3, 1, 2)] if tier == "thorough" else []):
        yield "order", dict(shape=list(s), mod=1)
    yield "checker", dict()
    yield "checker-large", dict()
    yield "dtype", dict()


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp

    import bijx

    if family == "order":
        # selections given as index lists: every subset in every order, with the complement in every order
        shape = tuple(case["shape"])
        n = int(np.prod(shape))
        x = np.arange(1.0, n + 1).reshape(shape)
        xb = np.arange(1.0, 6 * n + 1).reshape((2,) + shape + (3,))
        for k in range(n + 1):
            for sel in itertools.permutations(range(n), k):
                idx = np.unravel_index(np.array(sel, int), shape)
                rest = [i for i in range(n) if i not in sel]
                alts = [("idx", bijx.BinaryMask.from_indices(idx, shape), rest), ("ctor", bijx.BinaryMask(idx, shape), rest)]
                for r in (rest, rest[::-1], rest[1:] + rest[:1]):
                    alts.append(("second", bijx.BinaryMask(idx, shape, secondary_indices=np.unravel_index(np.array(r, int), shape)), r))
                for name, bm, other in alts:
                    f = bm.flip()
                    for v, c in ((x, 0), (xb, 1)):
                        flat = v.reshape((n,)) if c == 0 else v.reshape((2, n, 3))
                        take = (lambda i: flat[np.array(i, int)]) if c == 0 else (lambda i: flat[:, np.array(i, int)])
                        a, b = bm.split(jnp.asarray(v), c)
                        rec.expect(np.array_equal(a, take(sel)), "order:primary", route=name, sel=sel)
                        rec.expect(np.array_equal(np.sort(np.asarray(b), c), np.sort(take(other), c)), "order:secondary-entries", route=name, sel=sel)
                        if name == "second":
                            rec.expect(np.array_equal(b, take(other)), "order:secondary", route=name, sel=sel)
                        fb, fa = f.split(jnp.asarray(v), c)
                        rec.expect(np.array_equal(fa, a) and np.array_equal(fb, b), "order:flip-swaps", route=name, sel=sel)
                        rec.expect(np.array_equal(bm.merge(a, b, c), v), "order:merge", route=name, sel=sel)
                        rec.expect(np.array_equal(f.merge(b, a, c), v), "order:merge-flipped", route=name, sel=sel)
                        rec.step(4)
                    m = np.zeros(n, bool)
                    m[list(sel)] = True
                    rec.expect(np.array_equal(bm.boolean_mask, m.reshape(shape)), "order:mask", route=name, sel=sel)
                    rec.expect(np.array_equal((~bm).boolean_mask, ~m.reshape(shape)), "order:mask-flipped", route=name, sel=sel)
                    rec.state("order", shape, sel, name, tuple(other))
        rec.trace()

    elif family == "masks":
        shape = tuple(case["shape"])
        n = int(np.prod(shape))
        for code in range(case["lo"], case["hi"]):
            m = np.array([(code >> i) & 1 for i in range(n)], bool).reshape(shape)
            routes = {
                "bool": bijx.BinaryMask.from_boolean_mask(m),
                "jaxbool": bijx.BinaryMask.from_boolean_mask(jnp.asarray(m)),
                "idx": bijx.BinaryMask.from_indices(np.where(m), shape),
                "ff": ~~bijx.BinaryMask.from_boolean_mask(m),
                "neg": bijx.BinaryMask.from_boolean_mask(~m).flip(),
                "fff": (~(~bijx.BinaryMask.from_boolean_mask(~m)).flip()),
                "ctor": bijx.BinaryMask(np.where(m), shape),
            }
            for name, bm in routes.items():
                w = m
                rec.state(shape, code, name)
                rec.expect(np.array_equal(np.asarray(bm.boolean_mask), w), "boolean-mask", route=name, m=m)
                rec.expect(bm.counts == (int(w.sum()), int((~w).sum())), "counts", route=name)
                rec.expect((bm.count_primary, bm.count_secondary, bm.event_size) ==
                           (int(w.sum()), int((~w).sum()), n), "count-props", route=name)
                if name in ("jaxbool", "ctor", "ff"):
                    combos = [((2,), ())]
                else:
                    combos = [((), ()), ((2,), ()), ((2,), (2,)), ((2, 3), (2, 1))] if name == "bool" else [((2,), (2,))]
                for b, c in combos:
                    full = b + shape + c
                    x = np.arange(1, int(np.prod(full)) + 1, dtype=float).reshape(full)
                    k = len(c)
                    p, s = bm.split(jnp.asarray(x), extra_channel_dims=k)
                    flat = x.reshape(b + (n,) + c)
                    ax = len(b)
                    wp = np.compress(w.ravel(), flat, axis=ax)
                    ws = np.compress(~w.ravel(), flat, axis=ax)
                    rec.expect(np.shape(p) == wp.shape and np.array_equal(p, wp), "split-primary", route=name, m=m, b=b, c=c)
                    rec.expect(np.shape(s) == ws.shape and np.array_equal(s, ws), "split-secondary", route=name, m=m, b=b, c=c)
                    y = bm.merge(p, s, extra_channel_dims=k)
                    rec.expect(np.shape(y) == x.shape and np.array_equal(y, x), "merge-of-split", route=name, m=m, b=b, c=c)
                    q = bm.merge(jnp.asarray(wp * 10), jnp.asarray(ws * 100), extra_channel_dims=k)
                    want = np.where(w.reshape((1,) * len(b) + shape + (1,) * k), x * 10, x * 100)
                    rec.expect(np.array_equal(q, want), "merge", route=name, m=m, b=b, c=c)
                    fp, fs = bm.flip().split(jnp.asarray(x), extra_channel_dims=k)
                    rec.expect(np.array_equal(fp, ws) and np.array_equal(fs, wp), "flip-split", route=name)
                    fm = (~bm).merge(jnp.asarray(ws), jnp.asarray(wp), extra_channel_dims=k)
                    rec.expect(np.array_equal(fm, x), "flip-merge", route=name)
                    rec.step(5)
                    rec.trace()
                    rec.outcome(shape, code)
                    if k == 0:
                        ld = np.arange(int(np.prod(b)), dtype=float).reshape(b)
                        (a1, a2), l = bm.forward(jnp.asarray(x), jnp.asarray(ld))
                        rec.expect(np.array_equal(a1, wp) and np.array_equal(a2, ws) and np.array_equal(l, ld), "bijection-forward")
                        z, l2 = bm.reverse((a1, a2), l)
                        rec.expect(np.array_equal(z, x) and np.array_equal(l2, ld), "bijection-reverse")
                        (i1, i2), _ = bm.invert().reverse(jnp.asarray(x), jnp.asarray(ld))
                        rec.expect(np.array_equal(i1, wp) and np.array_equal(i2, ws), "bijection-invert")
                        rec.expect(np.array_equal(bm * jnp.asarray(x), w * x), "mul")
                        rec.expect(np.array_equal(jnp.asarray(x) * bm, w * x), "rmul")
                        rec.step(4)
                    for prim, ww in ((True, w), (False, ~w)):
                        got = jnp.asarray(x)[bm.indices(k, True, primary=prim)]
                        rec.expect(np.array_equal(got, np.compress(ww.ravel(), flat, axis=ax)), "indices")
                    if b == ():
                        got = jnp.asarray(x)[bm.indices(k, batch_safe=False)]
                        rec.expect(np.array_equal(got, wp), "indices-not-batch-safe")

    elif family == "checker":
        for r in (1, 2, 3):
            for shape in itertools.product([1, 2, 3, 4] if r < 3 else [1, 2, 3], repeat=r):
                tot = np.indices(shape).sum(0)
                for parity in ((0, 1, True, False) if r < 3 else (0, True)):
                    bm = bijx.checker_mask(shape, parity)
                    want = (tot + int(parity)) % 2 == 1
                    rec.expect(np.array_equal(np.asarray(bm.boolean_mask), want), "checker", shape=shape, parity=parity)
                    rec.expect(np.array_equal(np.asarray((~bm).boolean_mask), ~want), "checker-flip", shape=shape)
                    rec.expect(bm.counts == (int(want.sum()), int((~want).sum())), "checker-counts")
                    rec.state("checker", shape, int(parity))
                    rec.step()
                rec.trace()

    elif family == "checker-large":
        for shape in [(255,), (256,), (257,), (300,), (600,), (2, 300), (258, 3), (130, 130, 2)]:
            tot = np.indices(shape).sum(0)
            for parity in (0, 1):
                bm = bijx.checker_mask(shape, parity)
                rec.expect(np.array_equal(np.asarray(bm.boolean_mask), (tot + parity) % 2 == 1), "checker-large", shape=shape)
                x = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
                p, s = bm.split(jnp.asarray(x))
                rec.expect(np.array_equal(bm.merge(p, s), x), "checker-large-merge", shape=shape)
                rec.state("large", shape, parity)
                rec.step(2)
                rec.trace()

    elif family == "dtype":
        m = np.array([True, False, True])
        bm = bijx.BinaryMask.from_boolean_mask(m)
        for d1, d2 in itertools.product([np.int32, np.float32, np.float64, np.complex128], repeat=2):
            a = np.array([1, 2], d1)
            c = np.array([2.5 if d2 != np.int32 else 3], d2)
            if d2 == np.complex128:
                c = c + 0.5j
            out = np.asarray(bm.merge(jnp.asarray(a), jnp.asarray(c)))
            rec.expect(out[1] == c[0] and out[0] == 1 and out[2] == 2, "dtype-preserved", d1=d1, d2=d2, out=out)
            rec.state("dtype", str(d1), str(d2))
            rec.step()
            rec.trace()
        # masks survive being passed through transformations as pytrees
        f = jax.jit(lambda bm, x: bm.merge(*bm.split(x)[::1]))
        x = np.arange(3.0)
        rec.expect(np.array_equal(f(bm, x), x), "jit-through")

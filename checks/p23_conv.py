"""P23: symmetric convolutions."""
import itertools

import numpy as np

from mc.lib import generic, prod

PROPERTY = "P23"
RULE = (
    "Orbits: every kernel shape up to the bound (and large ones up to 300 sites per axis) in 1..4 dimensions against a brute-force closure of the group acting on displacements, plus the "
    "orbit gathering for every generating set drawn from the complete permutation group of <=4 sites (<=2 generators) and all single "
    "permutations of 5 sites.  Layers: kernel shapes x lattice shapes (smaller, equal, larger than the kernel) x channels x symmetry x bias x stride, "
    "compared on a full basis of inputs with explicit periodic sums.  Equivariance under every translation and every element of the hypercubic group.  "
    "Resizing: every (old, new) size pair up to the bound per axis, mixed axes."
)
ASSUMPTIONS = ["reflection equivariance is claimed for odd kernels and for kernels spanning the lattice (an even kernel has one unpaired displacement)"]


def cases(tier):
    q = tier == "quick"
    for n in range(1, 8):
        yield "orbit", dict(shape=[n])
    for a, b in itertools.product(range(1, 6 if q else 8), repeat=2):
        yield "orbit", dict(shape=[a, b])
    for s in [(1, 1, 1), (2, 2, 2), (3, 3, 3), (4, 4, 4), (3, 2, 4), (2, 2, 2, 2), (3, 3, 3, 3)] + ([] if q else [(5, 5, 5)]):
        yield "orbit", dict(shape=list(s))
    for s in [(25,), (64,), (300,), (19, 19), (41, 13), (24, 24), (9, 9, 9), (13, 12, 13)]:
        yield "wide", dict(shape=list(s))
    for s in [(1,), (2,), (3,), (4,), (2, 2), (1, 3)]:
        yield "gather", dict(shape=list(s), gens=2)
    yield "gather", dict(shape=[5], gens=1)
    if not q:
        yield "gather", dict(shape=[5], gens=2)
    for s in [(1,), (2,), (3,), (4,), (5,), (1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (1, 4), (2, 2, 2), (3, 3, 3), (4, 4, 4), (2, 3, 4)]:
        yield "ops", dict(shape=list(s))
        yield "indices", dict(shape=list(s))
    for o in range(1, 8 if q else 10):
        yield "resize", dict(old=[o])
    for s in [(2, 3), (3, 3), (4, 4), (4, 3), (5, 2), (3, 2, 4), (2, 2, 2), (1, 3, 2)]:
        yield "resize", dict(old=list(s))
    ker = [((k,), (l,)) for k in (1, 2, 3, 4, 5) for l in (1, 2, 3, 4, 6)]
    ker += [((k, k), l) for k in (1, 2, 3, 4) for l in ((2, 2), (3, 3), (4, 4), (2, 3), (4, 5))]
    ker += [((3, 2), (3, 4)), ((1, 3), (4, 3)), ((2, 2, 2), (2, 3, 2)), ((3, 3, 3), (3, 3, 3)), ((3, 3, 3), (2, 3, 4))]
    ker += [((9,), (20,)), ((7, 7), (8, 7))]
    if not q:
        ker += [((5, 5), l) for l in ((3, 3), (5, 5), (6, 5), (2, 7))] + [((2, 2, 2), (2, 2, 2)), ((3, 3, 3), (4, 4, 4))]
    for k, l in ker:
        yield "layer", dict(kernel=list(k), lattice=list(l))


def weight(f, c):
    return {"layer": 5, "gather": 4}.get(f, 1) * (1 if f != "layer" else prod(c["lattice"]))


# --- reference: action on displacements -------------------------------------------------


def center(s):
    return tuple((n - 1) // 2 for n in s)


def hyper(d):
    """All signed permutations of d axes."""
    for p in itertools.permutations(range(d)):
        for sg in itertools.product((1, -1), repeat=d):
            yield p, sg


def act_index(shape, idx, p, sg):
    """Index of R*(displacement idx), displacements periodic with the kernel extent."""
    c = center(shape)
    d = [i - k for i, k in zip(idx, c)]
    return tuple((sg[a] * d[p[a]] + c[a]) % shape[a] for a in range(len(shape)))


def orbits_ref(shape, maps):
    sites = list(np.ndindex(*shape))
    par = {s: s for s in sites}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x

    for s in sites:
        for m in maps:
            par[find(s)] = find(m(s))
    return {s: find(s) for s in sites}


def same_partition(orb, ref, shape, rec, label, **kw):
    sites = list(np.ndindex(*shape))
    o = [int(orb[s]) for s in sites]
    r = [ref[s] for s in sites]
    f, g = {}, {}
    ok = all(f.setdefault(a, b) == b and g.setdefault(b, a) == a for a, b in zip(o, r))
    rec.expect(ok, label, shape=shape, orbits=np.asarray(orb), **kw)
    return len(set(r))


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from bijx.nn import conv as cv
    from flax import nnx

    if family == "wide":
        # vectorised for kernels too large for the site-by-site closure
        shape = tuple(case["shape"])
        x = np.stack(np.meshgrid(*[np.arange(k) - c for k, c in zip(shape, center(shape))], indexing="ij"))
        keys = [("equidist", cv.kernel_equidist, (x.astype(object) ** 2).sum(0).astype(int))]
        if len(set(shape)) == 1 and shape[0] % 2:
            m = np.sort(np.abs(x), axis=0)  # one representative of every orbit of sign changes and axis exchanges
            keys.append(("d4", cv.kernel_d4, sum(v * 1000**i for i, v in enumerate(m))))
        for name, fn, key in keys:
            n, o = fn(shape)
            o = np.asarray(o)
            _, ref = np.unique(key, return_inverse=True)
            pairs = {(a, b) for a, b in zip(o.ravel().tolist(), ref.ravel().tolist())}
            rec.expect(n == ref.max() + 1 == len(pairs) and set(o.ravel().tolist()) == set(range(n)), "wide:" + name, shape=shape, n=n, want=ref.max() + 1)
            rec.state(shape, name, n)
            rec.step(x[0].size)
            rec.outcome(n)
        u = np.asarray(cv.unique_index_kernel(shape))
        rec.expect(sorted(u.ravel().tolist()) == list(range(u.size)), "wide:unique")
        rec.expect(np.all(np.diff(keys[0][2].ravel()[np.argsort(u.ravel())]) >= 0), "wide:unique-order", shape=shape)
        rec.trace()
        return

    if family == "orbit":
        shape = tuple(case["shape"])
        d = len(shape)
        c = center(shape)
        sites = list(np.ndindex(*shape))
        dist = {s: sum((i - k) ** 2 for i, k in zip(s, c)) for s in sites}
        n, o = cv.kernel_equidist(shape)
        o = np.asarray(o)
        rec.expect(o.shape == shape, "shape")
        m = same_partition(o, dist, shape, rec, "equidist")
        rec.expect(n == m and sorted(set(o.flatten().tolist())) == list(range(n)), "equidist:labels")
        rec.expect(o[c] == 0, "equidist:center")
        u = np.asarray(cv.unique_index_kernel(shape))
        rec.expect(sorted(u.flatten().tolist()) == list(range(len(sites))), "unique:permutation")
        order = sorted(sites, key=lambda s: u[s])
        rec.expect(all(dist[a] <= dist[b] for a, b in zip(order, order[1:])) and u[c] == 0, "unique:order")
        todo = [("equidist", n, o)]
        if len(set(shape)) == 1:
            n, o = cv.kernel_d4(shape)
            o = np.asarray(o)
            ref = orbits_ref(shape, [lambda s, p=p, sg=sg: act_index(shape, s, p, sg) for p, sg in hyper(d)])
            m = same_partition(o, ref, shape, rec, "d4")
            rec.expect(n == m and sorted(set(o.flatten().tolist())) == list(range(n)), "d4:labels")
            rec.expect(o[c] == 0 and (o == 0).sum() == 1, "d4:center")
            todo.append(("d4", n, o))
        else:
            try:
                cv.kernel_d4(shape)
                rec.expect(False, "d4:non-cubic-accepted")
            except AssertionError:
                rec.expect(True, "d4:non-cubic")
        for name, n, o in todo:
            par = generic((n, 2, 3))
            full = np.asarray(cv.unfold_kernel(jnp.asarray(par), o))
            rec.close(full, np.stack([par[o[s]] for s in sites]).reshape(shape + (2, 3)), "unfold")
            rec.close(cv.fold_kernel(full, o, n), par, "fold-unfold")
            k = generic(shape + (2, 3), salt=2)
            w = np.stack([k[o == i].mean(0) for i in range(n)])
            rec.close(cv.fold_kernel(k, o, n), w, "fold")
            rec.state(shape, name)
            rec.step(3)
        rec.trace()
        return

    if family == "gather":
        shape = tuple(case["shape"])
        n = prod(shape)
        sites = list(np.ndindex(*shape))
        perms = list(itertools.permutations(range(n)))
        sets = [()] + [(p,) for p in perms]
        if case["gens"] == 2:
            sets += list(itertools.combinations(perms, 2))
        for gens in sets:
            def op(lat, p):
                return np.asarray(lat).flatten()[list(p)].reshape(lat.shape)

            cnt, o = cv.gather_orbits(shape, [lambda lat, p=p: op(lat, p) for p in gens])
            ref = orbits_ref(shape, [lambda s, p=p: sites[p[sites.index(s)]] for p in gens])
            m = same_partition(o, ref, shape, rec, "gather", gens=gens)
            rec.expect(cnt == m and sorted(set(np.asarray(o).flatten().tolist())) == list(range(m)), "gather:labels", gens=gens)
            rec.step()
            rec.state(shape, gens)
        rec.trace(len(sets))
        return

    if family == "ops":
        shape = tuple(case["shape"])
        d = len(shape)
        x = np.arange(prod(shape)).reshape(shape)
        c = center(shape)
        xt = np.stack([x, 2 * x + 1], -1)  # a trailing channel axis stays put
        for a in range(d):
            f = np.asarray(cv.flip_lattice(x, a))
            want = np.empty_like(x)
            for s in np.ndindex(*shape):
                t = list(s)
                t[a] = (2 * c[a] - s[a]) % shape[a]
                want[tuple(t)] = x[s]
            rec.close(f, want, "flip", axis=a)
            rec.close(cv.flip_lattice(f, a), x, "flip:involution")
            rec.close(cv.flip_lattice(xt, a)[..., 1], 2 * want + 1, "flip:channels")
            rec.expect(f[c] == x[c], "flip:center")
            for b in range(d):
                if a != b and shape[a] == shape[b]:
                    r = np.asarray(cv.rot_lattice_90(x, a, b))
                    want = np.empty_like(x)
                    for s in np.ndindex(*shape):
                        v = [i - k for i, k in zip(s, c)]
                        w = list(v)
                        w[a], w[b] = -v[b], v[a]
                        want[tuple((i + k) % n for i, k, n in zip(w, c, shape))] = x[s]
                    rec.close(r, want, "rot", a=a, b=b)
                    y = x
                    for _ in range(4):
                        y = cv.rot_lattice_90(y, a, b)
                    rec.close(y, x, "rot:order")
                    rec.close(cv.rot_lattice_90(cv.rot_lattice_90(x, a, b), b, a), x, "rot:inverse")
                rec.step()
                rec.state(shape, a, b)
        rec.trace()
        return

    if family == "indices":
        shape = tuple(case["shape"])
        d, n = len(shape), prod(shape)
        sites = list(np.ndindex(*shape))
        for ce in (True, False):
            want = np.empty((d, n, n), int)
            for i, xs in enumerate(sites):
                for j, ys in enumerate(sites):
                    for k in range(d):
                        want[k, i, j] = (ys[k] - xs[k] + (shape[k] // 2 if ce else 0)) % shape[k]
            rec.close(cv.conv_indices(shape, True, ce), want, "indices", center=ce)
            rec.close(cv.conv_indices(shape, return_flat=False, center=ce), want.reshape((d,) + shape + shape), "indices:grid")
            rec.state(shape, ce)
            rec.step(n * n)
        rec.trace()
        return

    if family == "resize":
        old = tuple(case["old"])
        hi = 9 if len(old) == 1 else (6 if len(old) == 2 else 5)
        ks = generic(old + (2, 3), 0.5, 2)
        k0 = ks.copy()
        for new in itertools.product(range(1, hi), repeat=len(old)):
            want = np.zeros(new + (2, 3))
            for idx in np.ndindex(*old):
                opts = []
                for i, o, n in zip(idx, old, new):
                    dd = i - (o - 1) // 2
                    ch = [(dd, 1.0)]
                    if n > o and o % 2 == 0 and dd == o // 2:
                        ch = [(dd, 0.5), (-dd, 0.5)]  # the two periodic copies of the edge
                    opts.append([(e + (n - 1) // 2, w) for e, w in ch if 0 <= e + (n - 1) // 2 < n])
                for comb in itertools.product(*opts):
                    want[tuple(e for e, _ in comb)] += prod(w for _, w in comb) * ks[idx]
            rec.close(cv.resize_kernel_weights(jnp.asarray(ks), new), want, "resize", old=old, new=new)
            rec.step()
            rec.state(old, new)
            if all(n >= o for n, o in zip(new, old)):
                rec.close(np.asarray(cv.resize_kernel_weights(jnp.asarray(ks), new)).sum(tuple(range(len(old)))), ks.sum(tuple(range(len(old)))), "resize:weight")
                w = cv.resize_kernel_weights(jnp.asarray(ks), new, constant_values=3.0)
                m = np.asarray(cv.resize_kernel_weights(jnp.ones(old + (1, 1)), new))[..., 0, 0] == 0
                rec.close(np.asarray(w)[m], np.full((m.sum(), 2, 3), 3.0), "resize:fill")
            if len(set(new)) == 1:
                rec.close(cv.resize_kernel_weights(jnp.asarray(ks), new[0]), want, "resize:int")
        if all(o % 2 for o in old):
            w = np.asarray(cv.resize_kernel_weights(jnp.asarray(ks), tuple(o + 2 for o in old), mode="edge"))
            rec.close(w, np.pad(ks, [(1, 1)] * len(old) + [(0, 0)] * 2, "edge"), "resize:mode")
        rec.close(ks, k0, "resize:pure")
        # a resized symmetric kernel stays symmetric
        if len(set(old)) == 1:
            n, o = cv.kernel_d4(old)
            par = generic((n, 1, 1))
            for s in range(old[0], old[0] + 4):
                new = (s,) * len(old)
                if s == old[0] or s % 2:
                    w = np.asarray(cv.resize_kernel_weights(np.asarray(cv.unfold_kernel(jnp.asarray(par), o)), new))
                    n2, o2 = cv.kernel_d4(new)
                    rec.close(cv.unfold_kernel(jnp.asarray(cv.fold_kernel(w, o2, n2)), o2), w, "resize:symmetric", s=s)
        rec.trace()
        return

    # ---- layers ---------------------------------------------------------------------------
    ker, lat = tuple(case["kernel"]), tuple(case["lattice"])
    d = len(ker)
    sites = list(np.ndindex(*lat))
    N = len(sites)
    syms = [("none", None), ("equidist", cv.kernel_equidist)] + ([("d4", cv.kernel_d4)] if len(set(ker)) == 1 else [])
    for name, fn in syms:
        for cin, cout, bias, groups in [(1, 1, False, 1), (2, 3, True, 1), (2, 2, True, 2)]:
            if groups == 2 and name == "equidist":
                continue
            layer = cv.ConvSym(cin, cout, ker if d > 1 else ker[0], fn, use_bias=bias, feature_group_count=groups, rngs=nnx.Rngs(0))
            npar = layer.kernel_params.shape[0]
            layer.kernel_params.set_value(jnp.asarray(generic((npar, cin // groups, cout), -1, 1, salt=3)))
            if bias:
                layer.bias.set_value(jnp.asarray(generic((cout,), -1, 1, salt=4)))
            else:
                rec.expect(layer.bias is None, "layer:bias")
            if fn is None:
                K = np.asarray(layer.kernel_params.get_value()).reshape(ker + (cin // groups, cout))
                rec.expect(npar == prod(ker), "layer:params")
            else:
                n, o = fn(ker)
                rec.expect(npar == n, "layer:params")
                K = np.asarray(layer.kernel_params.get_value())[np.asarray(o)]
            rec.close(np.asarray(layer.kernel.get_value()), K, "layer:kernel")
            # all unit inputs + generic fields, one batch
            unit = np.eye(N * cin).reshape((N * cin,) + lat + (cin,))
            xs = np.concatenate([unit, generic((3,) + lat + (cin,), -1, 1)])
            c = center(ker)
            want = np.zeros(xs.shape[:-1] + (cout,))
            ax = tuple(range(1, 1 + d))
            for k in np.ndindex(*ker):
                sh = tuple(-(i - j) for i, j in zip(k, c))
                y = np.roll(xs, sh, ax)
                if groups == 1:
                    want += y @ K[k]
                else:
                    want[..., 0] += y[..., 0] * K[k][0, 0]
                    want[..., 1] += y[..., 1] * K[k][0, 1]
            if bias:
                want += np.asarray(layer.bias.get_value())
            gd, st = nnx.split(layer)
            run = jax.jit(lambda st, v: nnx.merge(gd, st)(v))
            got = np.asarray(run(st, jnp.asarray(xs)))
            rec.close(got, want, "layer:sum", atol=1e-9, ker=ker, lat=lat, sym=name, ch=(cin, cout, groups))
            rec.step(len(xs))
            rec.state(ker, lat, name, cin, cout, bias, groups)
            if cin == 2 and groups == 1:
                rec.close(layer(jnp.asarray(xs[-3])), want[-3], "layer:unbatched", atol=1e-9)
                rec.close(layer(jnp.asarray(xs[-2:]).reshape((1, 2) + lat + (cin,))), want[-2:][None], "layer:batch2", atol=1e-9)
            # equivariance: apply group elements to inputs (all in one batch)
            x0 = xs[-1]
            items, refs = [], []
            y0 = got[-1]
            for t in sites:
                items.append(np.roll(x0, t, tuple(range(d))))
                refs.append(np.roll(y0, t, tuple(range(d))))
            pairs = all(k % 2 or k == l for k, l in zip(ker, lat))
            if name != "none" and pairs:
                for p, sg in hyper(d):
                    if name == "d4" or len(set(ker)) == 1:
                        if any(lat[p[a]] != lat[a] for a in range(d)):
                            continue
                    elif p != tuple(range(d)):
                        continue

                    def act(f):
                        out = np.empty_like(f)
                        for s in sites:
                            out[tuple((sg[a] * s[p[a]]) % lat[a] for a in range(d))] = f[s]
                        return out

                    items.append(act(x0))
                    refs.append(act(y0))
            pad = len(xs)
            items, refs = np.stack(items), np.stack(refs)
            outs = []
            for i in range(0, len(items), pad):
                blk = items[i: i + pad]
                full = np.concatenate([blk, np.zeros((pad - len(blk),) + blk.shape[1:])])
                outs.append(np.asarray(run(st, jnp.asarray(full)))[: len(blk)])
            rec.close(np.concatenate(outs), refs, "layer:equivariance", atol=1e-9, ker=ker, lat=lat, sym=name)
            rec.step(len(items))
            # strides pick every s-th output
            if cin == 2 and groups == 1 and all(n % 2 == 0 for n in lat):
                l2 = cv.ConvSym(cin, cout, ker if d > 1 else ker[0], fn, strides=2, use_bias=bias, rngs=nnx.Rngs(0))
                l2.kernel_params.set_value(layer.kernel_params.get_value())
                l2.bias.set_value(layer.bias.get_value())
                rec.close(l2(jnp.asarray(xs[-3:])), want[-3:][(slice(None),) + (slice(None, None, 2),) * d], "layer:stride", atol=1e-9)
            # gradient with respect to an orbit value is the sum over its members
            if name != "none" and not bias:
                v = jnp.asarray(xs[-1])
                g = nnx.grad(lambda m: jnp.sum(m(v) ** 2))(layer)
                gk = np.asarray(g["kernel_params"].get_value())
                y = got[-1]
                ref = np.zeros_like(gk)
                oo = np.asarray(fn(ker)[1])
                for k in np.ndindex(*ker):
                    sh = tuple(-(i - j) for i, j in zip(k, c))
                    z = np.roll(xs[-1], sh, tuple(range(d)))
                    ref[oo[k], 0, 0] += 2 * np.sum(z[..., 0] * y[..., 0])
                rec.close(gk, ref, "layer:gradient", rtol=1e-6, atol=1e-7)
    rec.trace()

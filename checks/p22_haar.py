"""P22: uniform sampling on SU(N) and eigenvalue-angle tools."""
import itertools
import math

import numpy as np

from mc.lib import generic, prod

PROPERTY = "P22"
RULE = (
    "Dimensions 1..4 x batch shapes x a complete block of keys: every drawn matrix is compared with the group axioms; key determinism and "
    "position/key distinctness by exhaustive pairwise comparison; uniformity by the complete table of class-function moments, entry moments and "
    "(SU(2)) the distribution function over the block, for the sample itself and its left/right translates by every member of a finite set of "
    "group elements.  Eigenvalue tools: all angle-batch shapes, all grids up to the bound, exact trigonometric quadrature."
)
ASSUMPTIONS = ["uniformity is decided for the enumerated key block against 6-sigma bands (the block is fixed, so the verdict is deterministic)"]


def cases(tier):
    for n in (1, 2, 3, 4):
        yield "group", dict(n=n)
        yield "uniform", dict(n=n, N=40000 if tier == "quick" else 200000)
        yield "dist", dict(n=n)
        yield "density", dict(n=n)
    for n in (2, 3, 4):
        for gp in (1, 2, 3, 4, 5, 8, 9, 12)[: {2: 8, 3: 8, 4: 7}[n]]:
            yield "grid", dict(n=n, points=gp)
    yield "grid", dict(n=4, points=15)
    if tier != "quick":
        yield "grid", dict(n=4, points=20)
    yield "grid", dict(n=5, points=4)
    yield "normal", dict(n=5)


def weight(f, c):
    return 10 if f == "uniform" else 1


def check_group(u, n, rec, label):
    u = np.asarray(u).reshape(-1, n, n)
    rec.close(u @ np.conj(np.swapaxes(u, -1, -2)), np.broadcast_to(np.eye(n), u.shape), label + ":unitary", atol=1e-10)
    rec.close(np.linalg.det(u), np.ones(len(u)), label + ":det", atol=1e-10)


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from flax import nnx
    from scipy.linalg import expm

    import bijx
    from bijx import lie

    n = case["n"]
    shapes = [(), (1,), (3,), (2, 2), (1, 3), (2, 1, 2), (0,), (2, 0)]

    if family == "group":
        for bs in shapes:
            prev = []
            for k in range(5):
                u = lie.sample_haar(jax.random.key(k), n, bs)
                rec.expect(u.shape == bs + (n, n), "shape", bs=bs)
                check_group(u, n, rec, "group")
                rec.close(u, lie.sample_haar(jax.random.key(k), n, bs), "determinism", rtol=0, atol=0)
                f = np.asarray(u).reshape(-1, n, n)
                prev += list(f)
                rec.step(len(f) + 1)
                rec.state(n, bs, k)
            if n > 1:
                for a, b in itertools.combinations(range(len(prev)), 2):
                    rec.expect(np.abs(prev[a] - prev[b]).max() > 1e-6, "distinct", bs=bs, a=a, b=b)
        rec.close(lie.sample_haar(jax.random.key(3)).shape, (2, 2), "default")
        # compiled and vectorised use
        ks = jax.random.split(jax.random.key(7), 6)
        a = jax.jit(jax.vmap(lambda k: lie.sample_haar(k, n, (2,))))(ks)
        rec.close(a, np.stack([lie.sample_haar(k, n, (2,)) for k in ks]), "vmap", atol=1e-9)
        rec.trace(len(shapes))
        return

    if family == "uniform":
        N = case["N"]
        keys = jax.random.split(jax.random.key(11), 20)
        u = np.asarray(jax.jit(jax.vmap(lambda k: lie.sample_haar(k, n, (N // 40, 2))))(keys)).reshape(-1, 2, n, n)
        flat = u.reshape(-1, n, n)
        check_group(flat[:2000], n, rec, "group")
        M = len(flat)
        rec.step(M)
        if n == 1:
            rec.close(flat, np.ones_like(flat), "trivial-group", atol=1e-10)
            return

        def mean(v, want, label, **kw):
            v = np.asarray(v)
            m = v.mean(0)
            s = v.std(0) / np.sqrt(len(v)) + 1e-12
            rec.expect(np.all(np.abs(m - want) < 6 * s), label, mean=m, want=want, sigma=s, **kw)
            rec.state(label, n)

        # SU(n) = products: invariants by representation theory
        tr2 = {2: -1.0, 3: 0.0, 4: 0.0}[n]
        abs4 = 2.0
        G = [np.eye(n), np.exp(2j * np.pi / n) * np.eye(n)]
        X = generic((n, n), -1, 1) + 1j * generic((n, n), -1, 1, salt=2)
        X = X - X.conj().T
        X -= np.trace(X) / n * np.eye(n)
        G.append(expm(X))
        p = np.roll(np.eye(n), 1, axis=0)
        G.append(p * (np.linalg.det(p) ** (1 / n)).conj() if np.linalg.det(p) > 0 else p * np.exp(-1j * np.pi / n))
        D = np.exp(1j * np.arange(n))
        G.append(np.diag(D * np.exp(-1j * np.angle(np.prod(D)) / n)))
        for gi, g in enumerate(G):
            for side in ("L", "R", "T"):
                w = {"L": g @ flat, "R": flat @ g, "T": np.conj(np.swapaxes(flat, -1, -2)) @ g}[side]
                t = np.trace(w, axis1=1, axis2=2)
                for part in ("real", "imag"):
                    pf = getattr(np, part)
                    mean(pf(w), 0.0, "entry", g=gi, side=side)
                    mean(pf(t), 0.0, "trace", g=gi, side=side)
                    mean(pf(np.trace(w @ w, axis1=1, axis2=2)), tr2 if part == "real" else 0.0, "trace2", g=gi, side=side)
                    mean(pf(t**n), 1.0 if part == "real" else 0.0, "trace^n", g=gi, side=side)
                    mean(pf(t * t), (1.0 if n == 2 else 0.0) if part == "real" else 0.0, "tracesq", g=gi, side=side)
                mean(np.abs(w) ** 2, 1 / n, "entry2", g=gi, side=side)
                mean(np.abs(w) ** 4, 2 / (n * (n + 1)), "entry4", g=gi, side=side)
                mean(np.abs(w[:, :1, :1]) ** 2 * np.abs(w[:, 1:2, 1:2]) ** 2, (1 / 3 if n == 2 else 1 / (n * n - 1)), "entry22", g=gi, side=side)
                mean(np.abs(t) ** 2, 1.0, "abs2", g=gi, side=side)
                mean(np.abs(t) ** 4, abs4, "abs4", g=gi, side=side)
                if n == 2:
                    th = np.sort(np.arccos(np.clip(t.real / 2, -1, 1)))
                    cdf = (th - np.sin(th) * np.cos(th)) / np.pi
                    ks = np.abs(cdf - (np.arange(M) + 0.5) / M).max() * np.sqrt(M)
                    rec.expect(ks < 2.6, "distribution-function", ks=ks, g=gi, side=side)
                rec.step()
        # independence of batch positions
        a, b = u[:, 0], u[:, 1]
        ta, tb = np.trace(a, axis1=1, axis2=2), np.trace(b, axis1=1, axis2=2)
        mean((ta * np.conj(tb)).real, 0.0, "independent")
        mean((ta * tb).real, 0.0, "independent2")
        mean((np.abs(ta) ** 2 - 1) * (np.abs(tb) ** 2 - 1), 0.0, "independent3")
        mean(np.abs(np.trace(a @ np.conj(np.swapaxes(b, -1, -2)), axis1=1, axis2=2)) ** 2, 1.0, "independent-ratio")
        rec.trace()
        return

    if family == "dist":
        for base in [(), (2,), (2, 1, 2)]:
            for bs in shapes:
                d = bijx.lie.HaarDistribution(n, base, rngs=nnx.Rngs(1))
                rec.expect(d.event_shape == base + (n, n), "event_shape")
                x, lp = d.sample(bs, rng=jax.random.key(2))
                rec.expect(x.shape == bs + base + (n, n) and lp.shape == bs, "dist:shape", bs=bs, base=base)
                check_group(x, n, rec, "dist")
                rec.close(lp, np.zeros(bs), "dist:density")
                rec.close(d.log_density(x), np.zeros(bs), "dist:log_density")
                rec.close(d.log_density(x, unrelated=1), np.zeros(bs), "dist:kwargs")
                rec.close(d.sample(bs, rng=jax.random.key(2))[0], x, "dist:determinism", rtol=0, atol=0)
                f = np.asarray(x).reshape(-1, n, n)
                if n > 1:
                    for i, j in itertools.combinations(range(len(f)), 2):
                        rec.expect(np.abs(f[i] - f[j]).max() > 1e-6, "dist:distinct")
                    if len(f):
                        y, _ = d.sample(bs)
                        z, _ = d.sample(bs)
                        rec.expect(np.abs(np.asarray(y) - np.asarray(z)).max() > 1e-6, "dist:stream")
                rec.state(n, base, bs)
                rec.step(4)
            # single draws, also through the buffer and the Markov chain
            x, lp = d.sample()
            rec.expect(x.shape == base + (n, n) and lp.shape == (), "dist:single")
            buf = bijx.BufferedSampler(d, 3)
            got = [np.asarray(buf.sample(rng=jax.random.key(5))[0]) for _ in range(3)]
            for g in got:
                check_group(g, n, rec, "dist:buffer")
            if n > 1:
                for i, j in itertools.combinations(range(3), 2):
                    rec.expect(np.abs(got[i] - got[j]).max() > 1e-6, "dist:buffer-distinct")
            rec.trace()
        for lat in [(2,), (2, 3), (1, 2, 2)]:
            d = lie.HaarDistribution.periodic_gauge_lattice(n, lat, rngs=nnx.Rngs(0))
            rec.expect(tuple(d.event_shape) == lat + (len(lat), n, n), "dist:lattice", lat=lat)
            x, lp = d.sample((2,))
            rec.expect(x.shape == (2,) + lat + (len(lat), n, n) and lp.shape == (2,), "dist:lattice-sample")
            check_group(x, n, rec, "dist:lattice")
            rec.state("lat", lat)
        try:
            lie.HaarDistribution(n).sample((2,))
            rec.expect(False, "dist:missing-rng-accepted")
        except Exception:
            rec.expect(True, "dist:missing-rng")
        return

    if family == "density":
        if n == 1:
            rec.state("n1")
            return
        for bs in shapes:
            th = generic(bs + (n - 1,), -3, 3)
            full = np.concatenate([th, -th.sum(-1, keepdims=True)], -1)
            ev = np.exp(1j * full)
            want = np.ones(bs)
            for i in range(n):
                for j in range(i):
                    want = want * np.abs(ev[..., i] - ev[..., j]) ** 2
            rec.close(lie.compute_haar_density(jnp.asarray(th)), want, "density", bs=bs)
            for k in (0, 4):
                m = lie.construct_su_matrix_from_eigenvalues(jax.random.key(k), jnp.asarray(th))
                rec.expect(m.shape == bs + (n, n), "construct:shape", bs=bs)
                if prod(bs):
                    check_group(m, n, rec, "construct")
                    # characteristic polynomial decides the spectrum with multiplicity
                    mm = np.asarray(m).reshape(-1, n, n)
                    for a, e in zip(mm, ev.reshape(-1, n)):
                        rec.close(np.poly(a), np.poly(e), "construct:spectrum", atol=1e-9)
                rec.close(lie.construct_su_matrix_from_eigenvalues(jax.random.key(k), jnp.asarray(th)), m, "construct:determinism", rtol=0, atol=0)
            rec.step(4)
            rec.state(n, bs)
        # coincident eigenvalues: zero density, still a group element
        rec.close(lie.compute_haar_density(jnp.zeros((n - 1,))), 0.0, "density:coincident", atol=1e-12)
        rec.close(lie.construct_su_matrix_from_eigenvalues(jax.random.key(1), jnp.zeros((n - 1,))), np.eye(n), "construct:centre", atol=1e-10)
        # orientation of the eigenvectors is uniform: E[m] = (tr m / n) 1
        th = np.broadcast_to(generic((n - 1,), -2, 2, salt=1), (20000, n - 1))
        m = np.asarray(lie.construct_su_matrix_from_eigenvalues(jax.random.key(9), jnp.asarray(th)))
        mu = np.trace(m[0]) / n * np.eye(n)
        for pf in (np.real, np.imag):
            s = pf(m).std(0) / np.sqrt(len(m)) + 1e-12
            rec.expect(np.all(np.abs(pf(m).mean(0) - pf(mu)) < 6 * s), "construct:orientation")
        rec.trace()
        return

    if family == "normal":
        # normalised = raw density x one constant, and that constant follows from the group order and the torus volume (exact for n <= 4 by quadrature above)
        for n in range(2, 8):
            for gp in (2, 3):
                for dom, vol in (("torus", 1.0), ("weyl_chamber", math.factorial(n))):
                    f = lambda u: jnp.ones(u.shape[:-2])
                    raw = np.asarray(lie.evaluate_density_on_eigenvalue_grid(f, n, gp, normalize=False)[2])
                    w = np.asarray(lie.evaluate_density_on_eigenvalue_grid(f, n, gp, normalization_domain=dom)[2])
                    rec.close(w, raw * vol / ((2 * np.pi) ** (n - 1) * math.factorial(n)), "normal:constant", rtol=1e-9, atol=1e-300, n=n, dom=dom)
                    rec.step()
                    rec.state(n, gp, dom)
        rec.trace()
        return

    gp = case["points"]
    ang = np.asarray(lie.create_eigenvalue_grid(n, gp))
    rec.expect(ang.shape == (gp,) * (n - 1) + (n - 1,), "grid:shape")
    mid = -np.pi + (np.arange(gp) + 0.5) * 2 * np.pi / gp
    want = np.stack(np.meshgrid(*[mid] * (n - 1), indexing="ij"), -1)
    rec.close(ang, want, "grid:values")
    fns = [("one", lambda u: jnp.ones(u.shape[:-2]), 1.0)]
    fns.append(("abs2", lambda u: jnp.abs(jnp.trace(u, axis1=-2, axis2=-1)) ** 2, 1.0))
    fns.append(("tr", lambda u: jnp.trace(u, axis1=-2, axis2=-1).real, 0.0))
    for dom, vol in (("torus", 1.0), ("weyl_chamber", math.factorial(n))):
        for name, f, integral in fns:
            a, v, w = lie.evaluate_density_on_eigenvalue_grid(f, n, gp, normalization_domain=dom)
            rec.close(a, want.reshape(-1, n - 1), "grid:flat")
            rec.expect(v.shape == (gp ** (n - 1),) and w.shape == v.shape, "grid:flat-shape")
            # the density is a trigonometric polynomial of bounded degree: exact quadrature once the grid is fine enough
            # (degree in one angle: at most 2 n for the density itself plus 2 for the functions)
            if gp > 2 * n + 2 + (n < 4) * (2 * n - 2):
                tot = float(np.sum(np.asarray(v) * np.asarray(w))) * (2 * np.pi / gp) ** (n - 1)
                rec.close(tot, integral * vol, "grid:integral", atol=1e-9, fn=name, dom=dom)
            raw = lie.evaluate_density_on_eigenvalue_grid(f, n, gp, normalize=False)[2]
            rec.close(raw, lie.compute_haar_density(jnp.asarray(want.reshape(-1, n - 1))), "grid:raw")
            rec.step(2)
            rec.state(n, gp, dom, name)
    for rng in (None, jax.random.key(3)):
        m = []
        a, v, w = lie.evaluate_density_on_eigenvalue_grid(lambda u: m.append(u) or jnp.zeros(u.shape[:-2]), n, gp, rng=rng)
        check_group(m[0], n, rec, "grid:matrices")
        full = np.concatenate([want.reshape(-1, n - 1), -want.reshape(-1, n - 1).sum(-1, keepdims=True)], -1)
        rec.close(np.trace(np.asarray(m[0]), axis1=-2, axis2=-1), np.exp(1j * full).sum(-1), "grid:trace", atol=1e-9)
    try:
        lie.evaluate_density_on_eigenvalue_grid(fns[0][1], n, gp, normalization_domain="nope")
        rec.expect(False, "grid:unknown-domain-accepted")
    except ValueError:
        rec.expect(True, "grid:unknown-domain")
    rec.trace()

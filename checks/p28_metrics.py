"""P28: sample quality metrics equal their definitions."""
import itertools
import math
from fractions import Fraction

import numpy as np

from mc.lib import generic, prod

PROPERTY = "P28"
RULE = (
    "All log weight vectors over an alphabet with -inf, underflowing, moderate and overflowing entries up to the length bound, in both precisions, split between "
    "target and proposal in every listed way, as single vectors and as columns: effective sample size against exact rational/extended arithmetic, range, equality "
    "cases, all permutations, all listed shifts of either argument.  All pairs of distributions on k points with rational weights m/N and the exactly proportional "
    "sample of N points in them: the divergence estimate and the effective sample size are the exact discrete sums, Gibbs' inequality with equality iff equal.  "
    "All series over an alphabet up to the length bound x all windows: moving average against exact rational windows, linearity on the unit vectors, "
    "locality of non-finite entries."
)
ASSUMPTIONS = ["at least one log weight is finite and none is +inf (otherwise the defining ratio is 0/0 or inf/inf)"]

INF = float("inf")
# log weights; 745: exp underflows, 710: exp overflows in double precision
ALPHA = [-INF, -1e6, -800.0, -1.5, 0.0, 0.25, 720.0, 3e5]
SHIFTS = [0.0, -750.0, 900.0, 1e5, -3e6]


def cases(tier):
    q = tier == "quick"
    for n in range(1, 5 if q else 6):
        for dt in ("float64", "float32"):
            yield "ess", dict(n=n, dtype=dt)
    for n in range(1, 4 if q else 5):
        yield "single", dict(n=n)
    for k, N in [(1, 4), (2, 6), (3, 5)] if q else [(1, 4), (2, 9), (3, 8), (4, 6)]:
        yield "discrete", dict(k=k, N=N)
    for n in range(1, 5 if q else 7):
        yield "dkl", dict(n=n if n < 6 else 5, dtype="float64") if n < 6 else dict(n=5, dtype="float32")
    for n in range(1, 8 if q else 13):
        yield "window", dict(n=n)
    yield "special", dict(n=5 if q else 7)
    for n in (33, 130, 1500, 20000):
        yield "long", dict(n=n)


def weight(f, c):
    return 1 if f == "long" else c.get("n", c.get("N", 1))


def run_case(family, case, rec):
    globals()["run_" + family](rec, **case)


def vectors(n, alpha=ALPHA):
    v = np.array(list(itertools.product(alpha, repeat=n)))
    return v[np.isfinite(v).any(1)]


def ess_ref(v):
    """Rows of v: exact up to double rounding, largest weight scaled to one."""
    m = v.max(1, keepdims=True)
    w = np.exp(v - m)
    return np.array([math.fsum(r) ** 2 / math.fsum(r * r) / len(r) for r in w])


def run_ess(rec, n, dtype):
    import jax.numpy as jnp
    from bijx import effective_sample_size as ess

    v = vectors(n).astype(dtype)
    want = ess_ref(v.astype(float))
    tol = 1e-9 if dtype == "float64" else 2e-5
    eps = float(np.finfo(dtype).eps)
    z = jnp.zeros(v.T.shape, dtype)
    got = np.asarray(ess(jnp.asarray(v.T), z))
    rec.expect(got.dtype == np.dtype(dtype), "dtype", got=got.dtype)
    rec.expect(np.all(np.isfinite(got)), "finite", n=n, bad=v[~np.isfinite(got)][:3])
    rec.close(got, want, "definition", rtol=tol, atol=tol, n=n, dtype=dtype)
    rec.expect(np.all(got >= 1 / n - 10 * tol) and np.all(got <= 1 + 10 * tol), "range", n=n)
    flat = np.ptp(np.where(np.isfinite(v), v, -9e9), axis=1) == 0
    rec.close(got[flat], np.ones(flat.sum()), "equal-weights", rtol=tol, atol=tol)
    one = np.isfinite(v).sum(1) == 1
    rec.close(got[one], np.full(one.sum(), 1 / n), "single-weight", rtol=tol, atol=tol)
    # -log q instead of log p
    rec.close(ess(z, jnp.asarray(-v.T)), want, "proposal", rtol=tol, atol=tol)
    # proposal density shared by both: only the ratio counts
    s = generic((n,), -2, 2, 3).astype(dtype)[:, None]
    mx = np.where(np.isfinite(v), np.abs(v), 0).max(1)
    slack = tol + 8 * n * eps * (mx + 2)
    rec.expect(np.all(np.abs(np.asarray(ess(jnp.asarray(v.T + s), jnp.asarray(s + 0 * z))) - want) <= slack), "ratio", n=n)
    rec.step(4)
    for c in SHIFTS:
        slack = tol + 8 * n * eps * (mx + abs(c))
        for which, (t, q) in dict(target=(v.T + dtype_(dtype)(c), z), proposal=(v.T, z + c), both=(v.T + dtype_(dtype)(c), z + c)).items():
            g = np.asarray(ess(jnp.asarray(t), jnp.asarray(q)))
            rec.expect(np.all(np.abs(g - want) <= slack), "shift", n=n, c=c, which=which, dev=float(np.nanmax(np.abs(g - want) - slack)), finite=bool(np.all(np.isfinite(g))))
            rec.step()
    for p in itertools.permutations(range(n)):
        rec.close(ess(jnp.asarray(v.T[list(p)]), z), got, "permutation", rtol=tol, atol=tol, p=p)
        rec.step()
    # every sample repeated: the same quality per sample
    rec.close(ess(jnp.asarray(np.repeat(v.T, 2, 0)), jnp.zeros((2 * n, len(v)), dtype)), want, "replication", rtol=tol, atol=tol)
    for r in v:
        rec.state(tuple(r))
    rec.trace(len(v))


def dtype_(d):
    return np.dtype(d).type


def run_single(rec, n):
    """The one-dimensional call itself, for every vector."""
    import jax.numpy as jnp
    from bijx import effective_sample_size as ess
    from bijx import reverse_dkl

    v = vectors(n)
    want = ess_ref(v)
    for r, w in zip(v, want):
        rec.close(ess(jnp.asarray(r), jnp.zeros(n)), w, "definition", rtol=1e-9, atol=1e-9, v=r)
        rec.close(reverse_dkl(jnp.asarray(r), jnp.zeros(n)), -np.mean(r), "divergence", rtol=1e-12, v=r)
        rec.state(tuple(r))
        rec.step(2)
    rec.trace(len(v))


def compositions(N, k):
    if k == 1:
        yield (N,)
        return
    for i in range(N + 1):
        for c in compositions(N - i, k - 1):
            yield (i, *c)


def run_discrete(rec, k, N):
    """q = (number of sample points)/N exactly, so that both metrics are finite sums over the points."""
    import jax.numpy as jnp
    from bijx import effective_sample_size as ess
    from bijx import reverse_dkl

    comps = list(compositions(N, k))
    lg = lambda m: math.log(m / N) if m else -INF
    for q in comps:
        idx = [i for i in range(k) for _ in range(q[i])]
        lq = np.array([lg(q[i]) for i in idx])
        for p in comps:
            lp = np.array([lg(p[i]) for i in idx])
            for c in (0.0, 7.0):
                d = float(reverse_dkl(jnp.asarray(lp + c), jnp.asarray(lq)))
                missing = any(q[i] and not p[i] for i in range(k))
                want = INF if missing else math.fsum(Fraction(q[i], N) * math.log(q[i] / p[i]) for i in range(k) if q[i]) - c
                rec.close(d, want, "divergence", rtol=1e-10, atol=1e-12, p=p, q=q)
                rec.step()
                if c == 0 and not missing:
                    full = all(p[i] == 0 or q[i] for i in range(k))
                    rec.expect(d >= -1e-12 if full else True, "gibbs", p=p, q=q, d=d)
                    if full:
                        rec.expect((abs(d) < 1e-12) == (p == q), "zero-iff-equal", p=p, q=q, d=d)
                if any(p[i] and q[i] for i in range(k)):
                    s1 = sum(Fraction(p[i]) for i in range(k) if q[i])
                    s2 = sum(Fraction(p[i] ** 2, q[i]) for i in range(k) if q[i])
                    e = float(ess(jnp.asarray(lp + c), jnp.asarray(lq)))
                    rec.close(e, float(s1**2 / (N * s2)), "ess", rtol=1e-10, p=p, q=q)
                    rec.step()
            rec.state(p, q)
    rec.trace(len(comps) ** 2)


def run_dkl(rec, n, dtype):
    import jax.numpy as jnp
    from bijx import reverse_dkl

    A = [-4.5, -1.0, 0.0, 2.25, 1e5]
    tol = 1e-12 if dtype == "float64" else 1e-5
    for t in itertools.product(A, repeat=n):
        t = np.array(t, dtype)
        s = (generic((n,), -3, 3, 2) if n != 2 else np.array([0.5, -1e4])).astype(dtype)
        want = math.fsum(float(b) - float(a) for a, b in zip(t, s)) / n
        d = reverse_dkl(jnp.asarray(t), jnp.asarray(s))
        mag = tol * (1 + np.abs(t).max() + np.abs(s).max())
        rec.close(d, want, "definition", rtol=0, atol=mag, t=t)
        rec.close(reverse_dkl(jnp.asarray(s), jnp.asarray(t)), -want, "antisymmetric", rtol=0, atol=mag, t=t)
        rec.close(reverse_dkl(jnp.asarray(t[::-1].copy()), jnp.asarray(s[::-1].copy())), want, "reordering", rtol=0, atol=mag, t=t)
        rec.close(reverse_dkl(jnp.asarray(t + dtype_(dtype)(2.5)), jnp.asarray(s)), want - 2.5, "target-shift", rtol=0, atol=mag, t=t)
        rec.close(reverse_dkl(jnp.asarray(t), jnp.asarray(s - dtype_(dtype)(1.25))), want - 1.25, "proposal-shift", rtol=0, atol=mag, t=t)
        rec.state(tuple(t))
        rec.step(5)
        rec.trace()


def run_long(rec, n):
    """long series: every place of a dominant or excluded weight on a stride, several orders, windows up to beyond the length"""
    import jax.numpy as jnp
    from bijx import effective_sample_size, moving_average, reverse_dkl

    t, s = generic((n,), -3, 3), generic((n,), -2, 2, 2)
    v = t - s
    rows = [v, v[::-1], np.roll(v, n // 3), 0 * v, np.linspace(-700, 0, n)]
    places = sorted({0, 1, 16, 31, 32, n // 2, n - 2, n - 1} & set(range(n)))
    for i in places:
        for b in (40.0, -INF, 3.0):
            w = v.copy()
            w[i] = b
            rows.append(w)
    for w in rows:
        want = ess_ref(w[None])[0]
        rec.close(effective_sample_size(jnp.asarray(w), jnp.zeros(n)), want, "long:sample-size", rtol=1e-8, n=n)
        rec.close(effective_sample_size(jnp.asarray(w + s), jnp.asarray(s)), want, "long:sample-size-ratio", rtol=1e-8, n=n)
        rec.step(2)
        rec.state(n, w.tobytes())
    for i in places:
        a = t.copy()
        a[i] += 1e3
        rec.close(reverse_dkl(jnp.asarray(a), jnp.asarray(s)), math.fsum(s - a) / n, "long:divergence", rtol=1e-9, atol=1e-9, n=n, i=i)
        rec.step()
    for w in (1, 2, 10, 31, 32, 33, 64, 100, n - 1, n, n + 1):
        if w < 1 or w > 200 and n > 2000:
            continue
        x = t * 100
        c = np.concatenate([[0.0], np.cumsum(x)])
        want = (c[w:] - c[:-w]) / w if n >= w else np.array([x.mean()])
        rec.close(moving_average(jnp.asarray(x), w), want, "long:window", rtol=1e-8, atol=1e-8, n=n, w=w)
        rec.step()
    rec.trace()


def run_window(rec, n):
    import jax
    import jax.numpy as jnp
    from bijx import moving_average

    def ref(x, w):
        x = [Fraction(float(v)) for v in x]
        if len(x) < w:
            return np.array([float(sum(x) / len(x))])
        return np.array([float(sum(x[i : i + w]) / w) for i in range(len(x) - w + 1)])

    A = [-3, 0, 1, 1000] if n <= 5 else [-3, 1000]
    if n > 8:
        A = [1]
    V = [np.array(v, float) for v in itertools.product(A, repeat=n)]
    V += list(np.eye(n)) + [np.arange(n) * 0.1 - 0.2, np.array([(-1e8) ** i if i % 2 else 0.3 * i for i in range(n)]) if n < 4 else generic((n,), -1, 1)]
    for w in list(range(1, n + 3)) + [10, 50]:
        f = jax.jit(jax.vmap(lambda x: moving_average(x, w)))
        got = np.asarray(f(jnp.asarray(np.stack(V))))
        for v, g in zip(V, got):
            want = ref(v, w)
            rec.expect(g.shape == (max(1, n - w + 1),), "length", n=n, w=w, got=g.shape)
            rec.close(g, want, "definition", rtol=1e-10, atol=1e-10 * (1 + np.abs(v).max()), v=v, w=w)
            rec.state(n, w, tuple(v))
            rec.step()
            rec.trace()
        # the plain call, other element types, keyword, reversal
        v = V[len(V) // 2]
        rec.close(moving_average(jnp.asarray(v), w), ref(v, w), "plain", rtol=1e-10, atol=1e-10, v=v, w=w)
        rec.close(moving_average(jnp.asarray(v[::-1].copy()), w), ref(v, w)[::-1], "reversal", rtol=1e-10, atol=1e-10, v=v, w=w)
        for dt in ("int32", "float32", "bool"):
            u = (np.arange(n) * 3 % 5 - 1).astype(dt)
            g = moving_average(jnp.asarray(u), w)
            rec.close(g, ref(u.astype(float), w), "dtype", rtol=1e-6, atol=1e-6, dt=dt, n=n, w=w)
            rec.expect(jnp.issubdtype(g.dtype, jnp.floating), "floating", dt=dt, got=g.dtype)
        rec.step(5)
        if n >= w:
            rec.close(got[: len(V)].sum(0), np.sum([ref(v, w) for v in V], 0), "linear", rtol=1e-9, atol=1e-7)
        for k in range(n):
            for bad in (math.nan, INF, -INF):
                u = np.arange(n) * 1.0
                u[k] = bad
                g = np.asarray(moving_average(jnp.asarray(u), w))
                hit = np.array([k in range(i, i + w) for i in range(n - w + 1)]) if n >= w else np.array([True])
                rec.expect(np.array_equal(~np.isfinite(g), hit), "non-finite-locality", n=n, w=w, k=k, bad=bad, got=g)
                rec.step()
    rec.close(moving_average(jnp.asarray(V[-1])), ref(V[-1], 10), "default-window", rtol=1e-9, atol=1e-7)


def run_special(rec, n):
    """Batches of experiments in trailing axes, and the metrics of a reweighted exact sample."""
    import jax
    import jax.numpy as jnp
    from bijx import effective_sample_size as ess
    from bijx import reverse_dkl

    for sh in [(), (1,), (2,), (2, 3), (0,)]:
        for m in range(1, n + 1):
            t, s = generic((m, *sh), -3, 3, 1), generic((m, *sh), -2, 2, 5)
            got = np.asarray(ess(jnp.asarray(t), jnp.asarray(s)))
            rec.expect(got.shape == sh, "shape", sh=sh, m=m, got=got.shape)
            for idx in np.ndindex(sh):
                l = (t - s)[(slice(None), *idx)]
                rec.close(got[idx], ess_ref(l[None])[0], "column", rtol=1e-9, sh=sh, idx=idx)
                rec.step()
            if sh != (0,):
                rec.close(reverse_dkl(jnp.asarray(t), jnp.asarray(s)), (s - t).mean(), "divergence", rtol=1e-10)
            rec.state(sh, m)
            # gradient of the divergence estimate: every sample counts equally
            if sh == ():
                g1, g2 = jax.grad(reverse_dkl, argnums=(0, 1))(jnp.asarray(t), jnp.asarray(s))
                rec.close(g1, np.full(m, -1 / m), "gradient:target", rtol=1e-10)
                rec.close(g2, np.full(m, 1 / m), "gradient:proposal", rtol=1e-10)
                l = t - s
                w = np.exp(l - l.max())
                e = w.sum() ** 2 / (w**2).sum() / m
                ge = jax.grad(ess)(jnp.asarray(t), jnp.asarray(s))
                rec.close(ge, e * (2 * w / w.sum() - 2 * w**2 / (w**2).sum()), "gradient:ess", rtol=1e-7, atol=1e-9)
                rec.step(3)
        rec.trace()

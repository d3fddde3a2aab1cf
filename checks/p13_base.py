"""P13: base distributions - sampling, density and random-number discipline agree."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P13"
RULE = (
    "Every distribution kind x event shape / dimension x parameter alphabet (scales and Cholesky diagonals of both signs, "
    "correlated, tiny) x construction route x batch shape incl. scalar and empty: density at a point alphabet against closed "
    "forms, exact normalisation by quadrature, samples as a function of the environment's noise (every noise basis vector and "
    "the zero vector), returned densities, moments of one long fixed stream; all request histories (internal stream, explicit "
    "key, batch) up to depth 4 against a two-state random-number model."
)
ASSUMPTIONS = ["the law of the underlying JAX generators is trusted; only its use is checked"]

BATCH = [(), (3,), (2, 2), (0,), (1, 2)]


def cases(tier):
    ev = [(), (1,), (3,), (2, 2), (2, 1, 3)]
    for k in ("normal", "uniform"):
        for e in ev:
            yield "independent", dict(kind=k, event=list(e))
    dims = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    for d in dims + (8,):
        for p in ("unit", "generic", "negative", "tiny", "eps"):
            yield "mvn", dict(d=d, par=p)
            yield "diag", dict(d=d, par=p)
    for k in ("normal", "uniform", "mvn", "diag"):
        yield "stream", dict(kind=k, depth=4 if tier == "quick" else 5)
        for dim in (1, 2, 4) if k in ("mvn", "diag") else (2,):
            yield "construct", dict(kind=k, dim=dim)


def weight(f, c):
    return {"stream": 3}.get(f, 1)


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    key = jax.random.key(11)

    def sample_contract(d, ev, lab, batches=BATCH, **kw):
        for b in batches:
            x, l = d.sample(b, rng=key)
            rec.expect(x.shape == b + ev and l.shape == b, lab + ":sample-shape", b=b, got=(x.shape, l.shape))
            rec.close(l, d.log_density(x), lab + ":returned-density", rtol=1e-9, atol=1e-9, b=b)
            x2, l2 = d.sample(b, rng=key)
            rec.expect(np.array_equal(x, x2) and np.array_equal(l, l2), lab + ":same-key", b=b)
            rec.expect(tuple(d.get_batch_shape(x)) == b, lab + ":batch-shape", b=b)
            rec.close(d.density(x), np.exp(np.asarray(l)), lab + ":density", rtol=1e-9, atol=1e-12)
            xa = d.sample(b, rng=jax.random.key(12))[0]
            rec.expect(xa.size == 0 or not np.allclose(x, xa), lab + ":key-ignored", b=b)
            rec.step(3)
            rec.state(lab, b)
        xk, lk = d.sample((2,), rng=key, unrelated=1.0) if kw.get("kwargs", True) else d.sample((2,), rng=key)
        rec.close(lk, d.log_density(xk, unrelated=2.0), lab + ":extra-arguments")
        try:
            d.sample((2,))
            rec.expect(d.rngs is not None, lab + ":missing-key-accepted")
        except ValueError:
            rec.expect(d.rngs is None, lab + ":key-demanded")
        rec.trace(len(BATCH))

    def moments(d, mean, cov, lab):
        n = 200_000
        x = np.asarray(d.sample((n,), rng=jax.random.key(5))[0]).reshape(n, -1)
        s = np.sqrt(np.diag(cov))
        m = x.mean(0)
        rec.expect(np.all(np.abs(m - mean.ravel()) < 6 * s / np.sqrt(n) + 1e-9), lab + ":stream-mean", got=m, want=mean)
        C = np.atleast_2d(np.cov(x.T))
        tol = 8 * np.sqrt(np.outer(s, s) ** 2 + cov**2) / np.sqrt(n) * 1.5
        rec.expect(np.all(np.abs(C - cov) < tol + 1e-9), lab + ":stream-covariance", got=C, want=cov)
        rec.step(n)

    def noise_law(d, mean, cov, lab):
        """enumerate the environment's normal draws: the zero vector and every basis vector"""
        dim = mean.size
        orig = jax.random.normal
        hits = []
        feed = {}

        def fake(key, shape=(), dtype=float, **k):
            hits.append(tuple(shape))
            return jnp.broadcast_to(feed["v"], tuple(shape)).astype(dtype)

        cols = []
        jax.random.normal = fake
        try:
            for i in range(-1, dim):
                feed["v"] = jnp.zeros(dim) if i < 0 else jnp.eye(dim)[i]
                n0 = len(hits)
                x = np.asarray(d.sample((1,), rng=key)[0]).reshape(-1)
                if len(hits) != n0 + 1 or hits[-1][-1:] != (dim,):
                    return  # generator used differently: the moment test alone decides
                cols.append(x)
                rec.step()
        finally:
            jax.random.normal = orig
        rec.close(cols[0], mean, lab + ":noise-mean", rtol=1e-8, atol=1e-9)
        L = np.stack(cols[1:], 1) - cols[0][:, None]
        rec.close(L @ L.T, cov, lab + ":noise-covariance", rtol=1e-7, atol=1e-9)
        rec.trace(dim + 1)

    def normalise(d, mean, cov, lab):
        dim = mean.size
        if dim > 2:
            return
        w, V = np.linalg.eigh(cov)
        n = 61
        t = np.linspace(-8, 8, n)
        G = np.stack(np.meshgrid(*[t] * dim, indexing="ij"), -1).reshape(-1, dim)
        X = mean + (G * np.sqrt(w)) @ V.T
        p = np.asarray(d.density(jnp.asarray(X)))
        I = p.sum() * (t[1] - t[0]) ** dim * np.sqrt(np.prod(w))
        rec.close(I, 1.0, lab + ":normalisation", rtol=1e-6)
        rec.step(len(X))

    def gauss_logp(x, mean, cov):
        D = x - mean
        q = np.einsum("...i,ij,...j->...", D, np.linalg.inv(cov), D)
        return -0.5 * q - 0.5 * np.linalg.slogdet(2 * np.pi * cov)[1]

    if family == "independent":
        e = tuple(case["event"])
        n = int(np.prod(e))
        if case["kind"] == "normal":
            d = bijx.IndependentNormal(e)
            sample_contract(d, e, "normal")
            for b in BATCH:
                x = generic(b + e, -4, 4, salt=3)
                want = (-0.5 * x**2 - 0.5 * np.log(2 * np.pi)).reshape(b + (n,)).sum(-1)
                rec.close(d.log_density(jnp.asarray(x)), want, "normal:density", rtol=1e-9, atol=1e-9)
                rec.step()
            moments(d, np.zeros(n), np.eye(n), "normal")
            if n:
                normalise(bijx.IndependentNormal((n,)), np.zeros(n), np.eye(n), "normal")
        else:
            d = bijx.IndependentUniform(e)
            sample_contract(d, e, "uniform")
            x = np.asarray(d.sample((5000,), rng=key)[0])
            rec.expect(np.all((x >= 0) & (x <= 1)), "uniform:support")
            moments(d, np.full(n, 0.5), np.eye(n) / 12, "uniform")
            # every placement of {inside, below, above, lower edge} over up to 3 entries
            for pat in itertools.product((0.5, -0.1, 1.1, 0.25), repeat=min(n, 3)):
                v = np.full(n, 0.3)
                v[: len(pat)] = pat
                want = 0.0 if np.all((v >= 0) & (v <= 1)) else -np.inf
                rec.close(d.log_density(jnp.asarray(v.reshape(e))), want, "uniform:density", v=v)
                rec.step()
                rec.outcome(want)
        rec.expect(tuple(d.event_shape) == e and d.event_dim == len(e) and int(d.event_size) == n, "event-info")
        rec.state(case["kind"], e)

    elif family in ("mvn", "diag"):
        d_, par = case["d"], case["par"]
        mean = generic((d_,), -1, 1, salt=1)
        eps = 0.2 if par == "eps" else 1e-10
        X = mean + generic((12, d_), -2, 2, salt=5) * (1e-2 if par == "tiny" else 1)
        if family == "mvn":
            L = np.tril(generic((d_, d_), -1, 1, salt=2))
            sg = {"unit": np.ones(d_), "negative": np.where(np.arange(d_) % 2 == 0, -1.0, 1.0)}.get(par, np.ones(d_))
            if par == "unit":
                L = np.eye(d_)
            diag = (0.5 + np.abs(generic((d_,), 0.2, 1.5, salt=3))) if par != "unit" else np.ones(d_)
            if par == "tiny":
                L, diag = L * 1e-2, diag * 1e-2
            L[np.diag_indices(d_)] = diag
            stored = L.copy()
            stored[np.diag_indices(d_)] = diag * sg
            eff = L.copy()
            eff[np.diag_indices(d_)] += eps
            cov = eff @ eff.T
            d = bijx.MultivariateNormal(jnp.asarray(mean), jnp.asarray(stored[np.tril_indices(d_)]), epsilon=eps)
            routes = [("packed", d, cov)]
            C0 = L @ L.T
            g = bijx.MultivariateNormal.given_cov(jnp.asarray(mean), jnp.asarray(C0))
            routes.append(("given-cov", g, C0))
        else:
            sc = generic((d_,), 0.3, 1.5, salt=2)
            if par == "unit":
                sc = np.ones(d_)
            if par == "tiny":
                sc = sc * 1e-2
            st = sc * (np.where(np.arange(d_) % 2 == 0, -1.0, 1.0) if par == "negative" else 1.0)
            d = bijx.DiagonalNormal(jnp.asarray(mean), jnp.asarray(st), epsilon=eps)
            routes = [("scales", d, np.diag((sc + eps) ** 2))]
            g = bijx.DiagonalNormal.given_variances(jnp.asarray(mean), jnp.asarray(sc**2))
            routes.append(("given-variances", g, np.diag(sc**2)))
            v = bijx.DiagonalNormal.given_variances(nnx.Param(jnp.asarray(mean)), bijx.Const(jnp.asarray(sc**2)))
            routes.append(("given-variable", v, np.diag(sc**2)))
            rec.expect(isinstance(v.scales_bare, bijx.Const), "variable-type-kept")
        for lab, q, C in routes:
            rec.close(q.cov, C, lab + ":covariance", rtol=1e-7, atol=1e-9)
            rec.close(q.mean, mean, lab + ":mean")
            rec.expect(q.dim == d_ and tuple(q.event_shape) == (d_,), lab + ":dimension")
            for b in [(12,), (3, 4), (2, 6, 1)]:
                rec.close(q.log_density(jnp.asarray(X.reshape(b + (d_,)))), gauss_logp(X, mean, C).reshape(b), lab + ":density",
                          rtol=1e-6, atol=1e-7)
            rec.close(q.log_density(jnp.asarray(X[0])), gauss_logp(X[0], mean, C), lab + ":unbatched-density", rtol=1e-6, atol=1e-7)
            sample_contract(q, (d_,), lab, batches=BATCH if q is d else [(), (3,)])
            noise_law(q, mean, C, lab)
            moments(q, mean, C, lab)
            normalise(q, mean, C, lab)
            rec.outcome(np.round(C, 8).tobytes())
            rec.state(family, d_, par, lab)

    elif family == "construct":
        k = case["kind"]
        for dim in (case["dim"],):
            if k == "mvn":
                made = [bijx.MultivariateNormal((dim,), rngs=nnx.Rngs(0)), bijx.MultivariateNormal.given_dim(dim, rngs=nnx.Rngs(1)),
                        bijx.MultivariateNormal(jnp.ones(dim), rngs=nnx.Rngs(2)),
                        bijx.MultivariateNormal.given_cov(jnp.zeros(dim), (dim, dim), rngs=nnx.Rngs(3))]
            elif k == "diag":
                made = [bijx.DiagonalNormal((dim,), rngs=nnx.Rngs(0)), bijx.DiagonalNormal.given_dim(dim, rngs=nnx.Rngs(1)),
                        bijx.DiagonalNormal.given_variances((dim,), (dim,), rngs=nnx.Rngs(2)),
                        bijx.DiagonalNormal.given_variances(jnp.ones(dim), (dim,), rngs=nnx.Rngs(2))]
            elif k == "normal":
                made = [bijx.IndependentNormal((dim,), rngs=nnx.Rngs(0))]
            else:
                made = [bijx.IndependentUniform((dim,), rngs=nnx.Rngs(0))]
            for i, d in enumerate(made):
                rec.expect(tuple(d.event_shape) == (dim,), "construct:event")
                sample_contract(d, (dim,), f"construct{i}", batches=[(), (3,)])
                if k in ("mvn", "diag"):
                    m, C = np.asarray(d.mean[...]), np.asarray(d.cov)
                    rec.expect(np.all(np.linalg.eigvalsh(C) > 0), "construct:positive")
                    x = generic((4, dim), salt=4)
                    rec.close(d.log_density(jnp.asarray(x)), gauss_logp(x, m, C), "construct:density", rtol=1e-6, atol=1e-7)
                rec.state(k, dim, i)
        if k in ("mvn", "diag"):
            # a degenerate scale parameter: the regularisation given to any constructor is the standard deviation
            cl = bijx.MultivariateNormal if k == "mvn" else bijx.DiagonalNormal
            n_ = case["dim"]
            for eps in (0.5, 1e-3):
                routes = [cl((n_,), rngs=nnx.Rngs(0), epsilon=eps), cl.given_dim(n_, rngs=nnx.Rngs(0), epsilon=eps)]
                one = np.zeros(n_)
                if k == "mvn":
                    routes += [cl(jnp.asarray(one), jnp.zeros(n_ * (n_ + 1) // 2), epsilon=eps),
                               cl.given_cov(jnp.asarray(one), jnp.eye(n_), epsilon=eps)]
                else:
                    routes += [cl(jnp.asarray(one), jnp.zeros(n_), epsilon=eps),
                               cl.given_variances(jnp.asarray(one), jnp.ones(n_), epsilon=eps)]
                for i, d in enumerate(routes):
                    g, st = nnx.split(d)
                    st = jax.tree.map(lambda v: v * 0 if jnp.issubdtype(v.dtype, jnp.floating) else v, st)
                    d = nnx.merge(g, st)
                    lp = np.asarray(d.log_density(jnp.zeros((1, n_))))
                    rec.close(lp, [n_ * (-np.log(eps) - 0.5 * np.log(2 * np.pi))], "construct:epsilon", rtol=1e-6, i=i, eps=eps)
                    rec.state(k, n_, i, eps)
        if k == "mvn":
            try:
                bijx.MultivariateNormal(jnp.zeros(3), jnp.zeros(3))
                rec.expect(False, "construct:size-mismatch-accepted")
            except AssertionError:
                rec.expect(True, "construct:size-mismatch")

    elif family == "stream":
        k = case["kind"]

        def mk():
            r = nnx.Rngs(7)
            return {"normal": lambda: bijx.IndependentNormal((2,), rngs=r), "uniform": lambda: bijx.IndependentUniform((2,), rngs=r),
                    "mvn": lambda: bijx.MultivariateNormal(jnp.zeros(2), jnp.asarray([1.0, 0.3, 0.8]), rngs=r),
                    "diag": lambda: bijx.DiagonalNormal(jnp.zeros(2), jnp.ones(2), rngs=r)}[k]()

        # reference: the n-th internal draw does not depend on explicit-key requests or on density evaluations in between
        ref = mk()
        stream = [np.asarray(ref.sample((2,))[0]) for _ in range(case["depth"] + 1)]
        for i in range(len(stream)):
            for j in range(i):
                rec.expect(not np.allclose(stream[i], stream[j]), "stream:repeated-draw", i=i, j=j)
        expl = np.asarray(ref.sample((2,), rng=key)[0])
        ops = ("internal", "explicit", "density")
        for h in itertools.product(ops, repeat=case["depth"]):
            d = mk()
            n = 0
            for op in h:
                if op == "internal":
                    rec.close(d.sample((2,))[0], stream[n], "stream:internal-draw", h=h, n=n)
                    n += 1
                elif op == "explicit":
                    rec.close(d.sample((2,), rng=key)[0], expl, "stream:explicit-draw", h=h)
                else:
                    d.log_density(jnp.zeros((3, 2)))
                rec.step()
                rec.state(k, n, op)
            rec.trace()
        rec.outcome(np.asarray(stream).tobytes())

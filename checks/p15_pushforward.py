"""P15: transformed distributions are pushforwards."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P15"
RULE = (
    "Every prior {normal, uniform, diagonal, full covariance, mixture, keyword-dependent, structured} x every word of length "
    "0..2 (thorough 0..3) over the layer alphabet {affine, sinh, mixing, keyword scale, inverse affine, sigmoid, coupling-like shear} x "
    "every way of bracketing the word into nested transformed distributions x keyword arguments absent/present x batch shapes x "
    "{explicit key, internal stream}; oracle: independent numpy composition with closed-form log determinants, "
    "normalisation by quadrature, samples by pushing the prior's own samples forward."
)
ASSUMPTIONS = ["a bijection that changes the event shape comes with its own batch-shape rule (documented requirement of density evaluation)"]

BATCH = [(), (3,), (2, 2), (0,)]
ATOMS = ("aff", "sinh", "mix", "kw", "inv", "sig", "shear")
PRIORS = ("normal", "uniform", "diag", "full", "mixture", "kwprior")


def cases(tier):
    depth = 2 if tier == "quick" else 3
    words = [w for n in range(depth + 1) for w in itertools.product(ATOMS, repeat=n)]
    for i, w in enumerate(words):
        # every prior meets every atom at every position; in quick the length-2 words cycle through all priors
        ps = PRIORS if len(w) < 2 or tier != "quick" else (PRIORS[(i + i // 7) % 6],)
        for p in ps:
            yield "word", dict(prior=p, word=list(w))
    for p in PRIORS[:5]:
        for w in ("aff", "sinh", "shear", "mix"):
            yield "normalise", dict(prior=p, atom=w)
    yield "tree", dict(n=1)
    yield "events", dict(n=1)
    for p in ("normal", "diag"):
        yield "stream", dict(prior=p, depth=4 if tier == "quick" else 6)


def weight(f, c):
    return 3 if f in ("stream", "events") else 2 if c.get("prior") == "mixture" else 1


A = np.array([[1.0, 0.7], [-0.4, 1.3]])
B0 = np.array([0.2, -0.1])
LS, SH = np.array([0.4, -0.3]), np.array([0.1, -0.6])


def np_fwd(a, x, t):
    """image and log|det| of one layer, numpy"""
    if a == "aff":
        return x * np.exp(LS) + SH, np.full(x.shape[:-1], LS.sum())
    if a == "inv":
        return (x - SH) * np.exp(-LS), np.full(x.shape[:-1], -LS.sum())
    if a == "sinh":
        return np.sinh(x), np.log(np.cosh(x)).sum(-1)
    if a == "mix":
        return x @ A.T + B0, np.full(x.shape[:-1], np.log(abs(np.linalg.det(A))))
    if a == "kw":
        return x * (1.0 + t) , np.full(x.shape[:-1], 2 * np.log(abs(1.0 + t)))
    if a == "sig":
        s = 1 / (1 + np.exp(-x))
        return s, (np.log(s) + np.log1p(-s)).sum(-1)
    if a == "shear":
        y = x.copy()
        sc = np.sin(x[..., 0])
        y[..., 1] = x[..., 1] * np.exp(sc) + x[..., 0] ** 2
        return y, sc
    raise KeyError(a)


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    key = jax.random.key(5)

    class Mix(bijx.Bijection):
        def forward(self, x, ld, **kw):
            return x @ jnp.asarray(A.T) + B0, ld - np.log(abs(np.linalg.det(A)))

        def reverse(self, y, ld, **kw):
            return (y - B0) @ jnp.asarray(np.linalg.inv(A).T), ld + np.log(abs(np.linalg.det(A)))

    class Kw(bijx.Bijection):
        def forward(self, x, ld, t=0.5, **kw):
            return x * (1 + t), ld - 2 * jnp.log(jnp.abs(1 + t))

        def reverse(self, y, ld, t=0.5, **kw):
            return y / (1 + t), ld + 2 * jnp.log(jnp.abs(1 + t))

    class Shear(bijx.Bijection):
        def forward(self, x, ld, **kw):
            s = jnp.sin(x[..., 0])
            return jnp.stack([x[..., 0], x[..., 1] * jnp.exp(s) + x[..., 0] ** 2], -1), ld - s

        def reverse(self, y, ld, **kw):
            s = jnp.sin(y[..., 0])
            return jnp.stack([y[..., 0], (y[..., 1] - y[..., 0] ** 2) * jnp.exp(-s)], -1), ld + s

    def atom(a):
        aff = lambda: bijx.AffineLinear(jnp.asarray(LS), jnp.asarray(SH))
        return {"aff": aff, "inv": lambda: bijx.Inverse(aff()), "sinh": bijx.Sinh, "mix": Mix, "kw": Kw, "sig": bijx.Sigmoid,
                "shear": Shear}[a]()

    class KwPrior(bijx.ArrayDistribution):
        """shifted normal whose location is a keyword argument"""

        def __init__(self, rngs=None):
            super().__init__((2,), rngs=rngs)

        def sample(self, batch_shape=(), rng=None, t=0.5, **kw):
            x = t + jax.random.normal(self._get_rng(rng), (*batch_shape, 2))
            return x, self.log_density(x, t=t)

        def log_density(self, x, t=0.5, **kw):
            return (-0.5 * (x - t) ** 2 - 0.5 * np.log(2 * np.pi)).sum(-1)

    M, C = np.array([0.3, -0.5]), np.array([[1.2, 0.5], [0.5, 0.8]])

    def gl(x, m, c):
        D = x - m
        return -0.5 * np.einsum("...i,ij,...j->...", D, np.linalg.inv(c), D) - 0.5 * np.linalg.slogdet(2 * np.pi * c)[1]

    def prior(p, rngs=None):
        """(distribution, numpy log density)"""
        if p == "normal":
            return bijx.IndependentNormal((2,), rngs=rngs), lambda x, t: gl(x, np.zeros(2), np.eye(2))
        if p == "uniform":
            return bijx.IndependentUniform((2,), rngs=rngs), lambda x, t: np.where(((x >= 0) & (x <= 1)).all(-1), 0.0, -np.inf)
        if p == "diag":
            s = np.array([0.7, 1.4])
            return bijx.DiagonalNormal(jnp.asarray(M), jnp.asarray(s), rngs=rngs), lambda x, t: gl(x, M, np.diag(s**2))
        if p == "full":
            return bijx.MultivariateNormal.given_cov(jnp.asarray(M), jnp.asarray(C), rngs=rngs), lambda x, t: gl(x, M, C)
        if p == "mixture":
            ms = np.array([[-1.0, 0.5], [1.5, 0.0]])
            vs = np.array([[0.5, 1.0], [0.8, 0.3]])
            w = np.array([0.3, 0.7])
            g = bijx.GaussianMixture(jnp.asarray(ms), jnp.asarray(vs), jnp.log(jnp.asarray(w)), rngs=rngs)
            return g, lambda x, t: np.logaddexp(np.log(0.3) + gl(x, ms[0], np.diag(vs[0])), np.log(0.7) + gl(x, ms[1], np.diag(vs[1])))
        if p == "kwprior":
            return KwPrior(rngs=rngs), lambda x, t: gl(x, np.full(2, t), np.eye(2))
        raise KeyError(p)

    def bracketings(word):
        """every split of the word into consecutive non-empty groups -> nested transformed distributions of chains"""
        n = len(word)
        if n == 0:
            yield []
            return
        for cut in itertools.product([0, 1], repeat=n - 1):
            groups, cur = [], [word[0]]
            for a, c in zip(word[1:], cut):
                if c:
                    groups.append(cur)
                    cur = [a]
                else:
                    cur.append(a)
            groups.append(cur)
            yield groups

    if family == "word":
        word = case["word"]
        p, logp = prior(case["prior"])
        n_b = 0
        for groups in bracketings(word):
            d = p
            for g in groups:
                d = bijx.Transformed(d, atom(g[0]) if len(g) == 1 and n_b == 0 else bijx.Chain(*[atom(a) for a in g]))
            if not groups:
                d = bijx.Transformed(p, bijx.Chain())
            n_b += 1
            for kw in ({}, {"t": 0.25}) if "kw" in word or case["prior"] == "kwprior" else ({"t": 0.25},):
                t = kw.get("t", 0.5)
                gd, st = nnx.split(d)
                for b in (BATCH if case["prior"] == "normal" else [(), (2, 2)]) if n_b == 1 and len(word) < 2 else [(2, 2)]:
                    def go(st, k_):
                        m = nnx.merge(gd, st)
                        y, l = m.sample(b, rng=k_, **kw)
                        return y, l, m.log_density(y, **kw), m.density(y, **kw), m.prior.sample(b, rng=k_, **kw)[0] if len(groups) == 1 else y

                    y, l, l2, de, _ = jax.jit(go)(st, key)
                    x0 = np.asarray(p.sample(b, rng=key, **kw)[0])
                    want_y, ld = x0, logp(x0, t)
                    for a in word:
                        want_y, j = np_fwd(a, want_y, t)
                        ld = ld - j
                    rec.close(y, want_y, "sample-image", rtol=1e-9, atol=1e-9, b=b, groups=groups)
                    rec.close(l, ld, "sample-density", rtol=1e-6, atol=1e-6, b=b, groups=groups)
                    ok = True
                    if case["prior"] == "uniform" and word:
                        # points whose reverse image rounds over the edge of the support
                        ok = not np.isinf(np.asarray(l2)).any()
                    if ok:
                        rec.close(l2, ld, "point-density", rtol=1e-6, atol=1e-6, b=b, groups=groups)
                        rec.close(de, np.exp(ld), "density", rtol=1e-5, atol=1e-9, b=b)
                    rec.expect(tuple(d.get_batch_shape(y)) == b, "batch-shape", b=b)
                    rec.step(3)
                    rec.state(case["prior"], word, groups, b, t)
                rec.trace()
                rec.outcome(np.round(np.asarray(l), 8).tobytes())

    elif family == "normalise":
        p, _ = prior(case["prior"])
        d = bijx.Transformed(p, atom(case["atom"]))
        lo, hi, n = {"sinh": (-60, 60, 1601)}.get(case["atom"], (-16, 16, 801))
        if case["prior"] == "uniform":
            lo, hi, n = -2, 5, 1401
        if case["atom"] == "sinh" and case["prior"] != "uniform":
            # substitute y = sinh(s) to resolve the tails
            s = np.linspace(-7, 7, 701)
            y, jac = np.sinh(s), np.cosh(s)
        elif case["atom"] == "shear" and case["prior"] != "uniform":
            s = np.linspace(-5, 5, 801)
            y, jac = 14 * np.sinh(s) / np.sinh(5) * 6, 14 * 6 * np.cosh(s) / np.sinh(5)
        else:
            s = np.linspace(lo, hi, n)
            y, jac = s, np.ones(n)
        h = s[1] - s[0]
        G = jnp.stack(jnp.meshgrid(jnp.asarray(y), jnp.asarray(y), indexing="ij"), -1)
        dens = np.asarray(jax.jit(lambda G: d.log_density(G))(G)) if case["prior"] != "mixture" else np.asarray(d.log_density(G))
        tot = (np.exp(dens) * jac[:, None] * jac[None, :]).sum() * h * h
        rec.close(tot, 1.0, "normalisation", rtol=2e-2 if case["prior"] == "uniform" else 1e-3)
        rec.step(G.size // 2)
        rec.trace()
        rec.state(case["prior"], case["atom"])
        rec.outcome(round(float(tot), 3))

    elif family == "tree":
        class Tree(bijx.Distribution):
            def get_batch_shape(self, x):
                return x["b"][0].shape[:-1]

            def sample(self, batch_shape=(), rng=None, **kw):
                k1, k2 = jax.random.split(self._get_rng(rng))
                x = {"a": jax.random.normal(k1, batch_shape), "b": (jax.random.normal(k2, (*batch_shape, 3)),)}
                return x, self.log_density(x)

            def log_density(self, x, **kw):
                f = lambda v: -0.5 * v**2 - 0.5 * np.log(2 * np.pi)
                return f(x["a"]) + f(x["b"][0]).sum(-1)

        class TB(bijx.Bijection):
            def forward(self, x, ld, s=0.5, **kw):
                e = jnp.exp(s * x["a"])
                return {"a": 2 * x["a"], "b": (x["b"][0] * e[..., None],)}, ld - np.log(2) - 3 * s * x["a"]

            def reverse(self, y, ld, s=0.5, **kw):
                a = y["a"] / 2
                return {"a": a, "b": (y["b"][0] * jnp.exp(-s * a)[..., None],)}, ld + np.log(2) + 3 * s * a

        d = bijx.Transformed(Tree(nnx.Rngs(1)), TB())
        for kw in ({}, {"s": -0.8}):
            for b in BATCH:
                y, l = d.sample(b, rng=key, **kw)
                x, l0 = d.prior.sample(b, rng=key)
                s = kw.get("s", 0.5)
                rec.close(l, np.asarray(l0) - np.log(2) - 3 * s * np.asarray(x["a"]), "tree:sample-density", b=b)
                rec.close(d.log_density(y, **kw), l, "tree:point-density", b=b, rtol=1e-9, atol=1e-9)
                rec.close(y["b"][0], np.asarray(x["b"][0]) * np.exp(s * np.asarray(x["a"]))[..., None], "tree:image")
                rec.expect(tuple(d.get_batch_shape(y)) == b, "tree:batch-shape")
                rec.step(2)
                rec.state("tree", b, s)
                rec.trace()

    elif family == "events":
        for ev in [(), (1,), (2, 3), (1, 2, 2)]:
            n = int(np.prod(ev))
            for b in BATCH:
                d = bijx.Transformed(bijx.IndependentNormal(ev), bijx.Chain(bijx.AffineLinear(jnp.array(0.3), jnp.array(0.7)), bijx.Sinh()))
                y, l = d.sample(b, rng=key)
                x = np.asarray(bijx.IndependentNormal(ev).sample(b, rng=key)[0])
                ax = tuple(range(len(b), len(b) + len(ev)))
                z = x * np.exp(0.3) + 0.7
                ld = (-0.5 * x**2 - 0.5 * np.log(2 * np.pi) - 0.3 - np.log(np.cosh(z))).sum(ax)
                rec.expect(y.shape == b + ev, "event:shape", ev=ev, b=b)
                rec.close(y, np.sinh(z), "event:image", rtol=1e-8)
                rec.close(l, ld, "event:sample-density", rtol=1e-8, atol=1e-8, ev=ev, b=b)
                rec.close(d.log_density(y), ld, "event:point-density", rtol=1e-7, atol=1e-7, ev=ev, b=b)
                rec.step(2)
                rec.state("ev", ev, b)
                rec.trace()
        # changed event shape (documented: the batch shape must then be supplied)
        class Reshaped(bijx.Transformed):
            def get_batch_shape(self, x):
                return x.shape[:-2]

        d = Reshaped(bijx.IndependentNormal((2, 3)), bijx.Reshape((2, 3), (3, 2)))
        for b in BATCH:
            y, l = d.sample(b, rng=key)
            rec.expect(y.shape == b + (3, 2), "reshape:shape", b=b)
            rec.close(d.log_density(y), l, "reshape:density", b=b)
            rec.step()
            rec.state("rs", b)

    elif family == "stream":
        # request histories over the internal stream: nested distribution shares and advances its prior's stream exactly once per draw
        mk = lambda: prior(case["prior"], rngs=nnx.Rngs(9))[0]
        push = lambda d: bijx.Transformed(bijx.Transformed(d, atom("aff")), atom("shear"))
        ref = mk()
        N = case["depth"]
        base = [np.asarray(ref.sample((2,))[0]) for _ in range(N + 1)]
        img = []
        for x in base:
            y, _ = np_fwd("shear", np_fwd("aff", x, 0)[0], 0)
            img.append(y)
        for h in itertools.product(("draw", "explicit", "density", "prior"), repeat=N):
            d = push(mk())
            n = 0
            for op in h:
                if op == "draw":
                    rec.close(d.sample((2,))[0], img[n], "stream:draw", h=h, n=n)
                    n += 1
                elif op == "explicit":
                    d.sample((2,), rng=key)
                elif op == "prior":
                    rec.close(d.prior.prior.sample((2,))[0], base[n], "stream:prior-draw", h=h, n=n)
                    n += 1
                else:
                    d.log_density(jnp.ones((3, 2)))
                rec.step()
                rec.state(case["prior"], n, op)
            rec.trace()

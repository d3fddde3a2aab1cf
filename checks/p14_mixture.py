"""P14: mixtures."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P14"
RULE = (
    "Component count 1..3(4) x dimension x component family (diagonal, full covariance, stacked flows) x weight alphabet "
    "(equal, generic, dominated, shifted logits) x parameter container x batch shape: density against an explicit weighted "
    "sum of component densities, reported weights/means/covariances, sample contract, normalisation; component choice as a "
    "function of the key over a complete block of 4096 keys with well separated components; density and weight gradient where only an almost "
    "weightless component (weight ratios down to e^-2000) contributes."
)

BATCH = [(), (3,), (2, 2), (0,)]
WTS = {"equal": lambda k: np.zeros(k), "generic": lambda k: generic((k,), -1.5, 1.5, salt=4),
       "dominated": lambda k: np.where(np.arange(k) == k - 1, 40.0, -40.0), "shifted": lambda k: 100 + generic((k,), -1, 1, salt=5)}


def cases(tier):
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 6):
        for d in (1, 2) if tier == "quick" else (1, 2, 3, 4):
            for f in ("diag", "full"):
                for w in WTS if tier != "quick" or (k > 1 and d > 1) else ("generic",):
                    yield "gauss", dict(k=k, d=d, fam=f, w=w)
        for f in ("diag", "full", "flow", "tree"):
            yield "stack", dict(k=k, fam=f)
    for f in ("diag", "full"):
        yield "gauss", dict(k=9, d=5, fam=f, w="generic")
        yield "stack", dict(k=17, fam=f)
    for f in ("diag", "full"):
        for w in ("equal", "generic", "dominated"):
            yield "choice", dict(fam=f, w=w)
    for gap in (5.0, 50.0, 150.0, 800.0, 2000.0):
        yield "apart", dict(gap=gap)
    for means in ("shape", "arr"):
        for cov in (None, "dshape", "fshape", "diag", "full"):
            yield "construct", dict(means=means, cov=cov)


def weight(f, c):
    return 2 if f == "choice" else 1


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    key = jax.random.key(3)

    def softmax(w):
        e = np.exp(w - w.max())
        return e / e.sum()

    def glog(x, m, C):
        D = x - m
        return -0.5 * np.einsum("...i,ij,...j->...", D, np.linalg.inv(C), D) - 0.5 * np.linalg.slogdet(2 * np.pi * C)[1]

    def lse(ls, w):
        p = np.log(softmax(w) + 1e-300)
        a = ls + p
        m = a.max(-1, keepdims=True)
        return (m + np.log(np.exp(a - m).sum(-1, keepdims=True)))[..., 0]

    def contract(g, ev, lab, batches=BATCH):
        gd, st = nnx.split(g)
        for b in batches:
            def go(st, k_):
                m = nnx.merge(gd, st)
                x, l = m.sample(b, rng=k_)
                return x, l, m.log_density(x), m.density(x), m.log_density(x, unrelated=1.0)

            x, l, l2, de, l3 = jax.jit(go)(st, key)
            xs = jax.tree.leaves(x)
            rec.expect(all(v.shape[: len(b)] == b for v in xs) and l.shape == b, lab + ":sample-shape", b=b)
            if ev is not None:
                rec.expect(x.shape == b + ev, lab + ":event-shape", b=b, got=x.shape)
            rec.close(l, l2, lab + ":returned-density", rtol=1e-8, atol=1e-8)
            rec.close(l, l3, lab + ":extra-arguments", rtol=1e-8, atol=1e-8)
            rec.expect(tuple(g.get_batch_shape(x)) == b, lab + ":batch-shape", b=b, got=g.get_batch_shape(x))
            rec.close(de, np.exp(np.asarray(l)), lab + ":density-exp", rtol=1e-8)
            rec.step(3)
            rec.state(lab, b)
        x, _ = g.sample((6,), rng=key)
        x2, _ = g.sample((6,), rng=key)
        rec.expect(all(np.array_equal(p, q) for p, q in zip(jax.tree.leaves(x), jax.tree.leaves(x2))), lab + ":same-key")
        v = np.asarray(jax.tree.leaves(x)[0]).reshape(6, -1)
        rec.expect(len(np.unique(np.round(v[:, 0], 12))) == 6, lab + ":repeated-samples")
        rec.trace(len(BATCH))

    if family == "gauss":
        k, d, f = case["k"], case["d"], case["fam"]
        w = WTS[case["w"]](k)
        mean = generic((k, d), -2, 2, salt=1)
        if f == "diag":
            var = generic((k, d), 0.3, 2.0, salt=2)
            cov, arg = np.stack([np.diag(v) for v in var]), var
        else:
            A = generic((k, d, d), -1, 1, salt=3)
            cov = A @ np.swapaxes(A, 1, 2) + 0.5 * np.eye(d)
            arg = cov
        X = generic((10, d), -3, 3, salt=6)
        want = lse(np.stack([glog(X, mean[i], cov[i]) for i in range(k)], -1), w)
        for wrap in (lambda v: v, nnx.Param, bijx.Const) if case["w"] == "equal" else (nnx.Param,):
            g = bijx.GaussianMixture(wrap(jnp.asarray(mean)), wrap(jnp.asarray(arg)), wrap(jnp.asarray(w)))
            lab = f
            gd, st = nnx.split(g)
            o = jax.jit(lambda st, X: [nnx.merge(gd, st).log_density(X.reshape(s + (d,))) for s in ((10,), (5, 2))] + [nnx.merge(gd, st).log_density(X[0])])(st, jnp.asarray(X))
            rec.close(o[0], want, lab + ":density", rtol=1e-7, atol=1e-8)
            rec.close(o[1], want.reshape(5, 2), lab + ":batched-density", rtol=1e-7, atol=1e-8)
            rec.close(o[2], want[0], lab + ":unbatched-density", rtol=1e-7, atol=1e-8)
            rec.close(g.weights, softmax(w), lab + ":weights", atol=1e-9)
            rec.close(g.means, mean, lab + ":means")
            rec.close(g.covs, cov, lab + ":covariances", rtol=1e-6, atol=1e-8)
            rec.step(3)
            rec.state(k, d, f, case["w"], str(wrap)[:30])
        contract(g, (d,), lab, batches=BATCH if case["w"] == "generic" else [])
        if d <= 2:
            t = np.linspace(-14, 14, 281)
            G = np.stack(np.meshgrid(*[t] * d, indexing="ij"), -1).reshape(-1, d)
            rec.close(np.asarray(jax.jit(lambda st, G: nnx.merge(gd, st).density(G))(st, jnp.asarray(G))).sum() * (t[1] - t[0]) ** d, 1.0, lab + ":normalisation", rtol=1e-5)
            rec.step(len(G))
        # gradients reach every component's parameters
        gd, st = nnx.split(bijx.GaussianMixture(nnx.Param(jnp.asarray(mean)), nnx.Param(jnp.asarray(arg)), nnx.Param(jnp.asarray(w))))
        gr = jax.jit(jax.grad(lambda s: nnx.merge(gd, s).log_density(jnp.asarray(X)).sum()))(st)
        ls = np.stack([glog(X, mean[i], cov[i]) for i in range(k)], -1)
        post = np.exp(ls + np.log(softmax(w) + 1e-300) - want[:, None])
        wantg = post.sum(0) - len(X) * softmax(w)
        found = [np.asarray(v) for v in jax.tree.leaves(gr) if np.asarray(v).shape == (k,)]
        if k != d or f == "full":
            rec.expect(any(np.allclose(v, wantg, atol=1e-6) for v in found), lab + ":weight-gradient", got=found, want=wantg)
        rec.outcome(np.round(want, 8).tobytes())

    elif family == "stack":
        k, f = case["k"], case["fam"]
        w = WTS["generic"](k)
        mean = generic((k, 2), -2, 2, salt=1)
        X = generic((6, 2), -2, 2, salt=6)
        if f == "diag":
            sc = generic((k, 2), 0.4, 1.5, salt=2)
            comp = bijx.DiagonalNormal(jnp.asarray(mean), jnp.asarray(sc))
            ls = np.stack([glog(X, mean[i], np.diag(sc[i] ** 2)) for i in range(k)], -1)
            ev = (2,)
        elif f == "full":
            ch = generic((k, 3), 0.4, 1.5, salt=2)
            comp = bijx.MultivariateNormal(jnp.asarray(mean), jnp.asarray(ch))
            Ls = [np.array([[c[0], 0], [c[1], c[2]]]) for c in ch]
            ls = np.stack([glog(X, mean[i], Ls[i] @ Ls[i].T) for i in range(k)], -1)
            ev = (2,)
        else:
            sh, sc = generic((k, 2), -1, 1, salt=1), generic((k, 2), -0.7, 0.7, salt=2)
            comp = bijx.Transformed(bijx.IndependentNormal((2,)), bijx.AffineLinear(jnp.asarray(sc), jnp.asarray(sh)))
            Z = (X[:, None] - sh) * np.exp(-sc)
            ls = (-0.5 * Z**2 - 0.5 * np.log(2 * np.pi) - sc).sum(-1)
            ev = (2,)
            if f == "tree":
                class Two(bijx.Distribution):
                    def __init__(self, base):
                        super().__init__(None)
                        self.base = base

                    def get_batch_shape(self, x):
                        return self.base.get_batch_shape(x["a"])

                    def sample(self, batch_shape=(), rng=None, **kw):
                        x, l = self.base.sample(batch_shape, rng=rng)
                        return {"a": x, "b": (2 * x,)}, l

                    def log_density(self, x, **kw):
                        return self.base.log_density(x["a"])

                comp = Two(comp)
                ev = None
        g = bijx.MixtureStack(comp, jnp.asarray(w))
        arg = jnp.asarray(X) if f != "tree" else {"a": jnp.asarray(X), "b": (jnp.asarray(2 * X),)}
        want = lse(ls, w)
        rec.close(g.log_density(arg), want, f"{f}:density", rtol=1e-7, atol=1e-8)
        rec.close(g.weights_normalized, softmax(w), f"{f}:weights")
        rec.close(np.exp(np.asarray(g.weights_log_normalized)), softmax(w), f"{f}:log-weights")
        contract(g, ev, f)
        if f == "tree":
            x, _ = g.sample((4,), rng=key)
            rec.close(x["b"][0], 2 * np.asarray(x["a"]), "tree:components-mixed-up")
        rec.step()
        rec.state("stack", k, f)
        rec.outcome(np.round(want, 8).tobytes())

    elif family == "apart":
        # components so far apart that only the (almost) weightless one has density at the point
        gap = case["gap"]
        for dt, tol in ((jnp.float64, 1e-9),):
            for k in (2, 3):
                w = np.where(np.arange(k) == 0, 0.0, -gap)
                mean = 1000.0 * np.arange(k)[:, None] * np.ones(2)
                sd = 1.0 + 0.5 * np.arange(k)[:, None] * np.ones(2)
                lw = w - np.log(np.exp(w - w.max()).sum()) - w.max()
                X = np.concatenate([mean + dx for dx in (0.0, 0.7, -1.3)])
                ls = np.stack([(-0.5 * ((X - mean[i]) / sd[i]) ** 2 - np.log(sd[i]) - 0.5 * np.log(2 * np.pi)).sum(-1) for i in range(k)], -1)
                a = ls + lw
                m = a.max(-1, keepdims=True)
                want = (m + np.log(np.exp(a - m).sum(-1, keepdims=True)))[..., 0]
                post = np.exp(a - want[:, None])
                arr = lambda v: jnp.asarray(v, dt)
                for lab, mk in (("stack", lambda w: bijx.MixtureStack(bijx.DiagonalNormal(arr(mean), arr(sd)), w)),
                                ("diag", lambda w: bijx.GaussianMixture(arr(mean), arr(sd**2), w)),
                                ("full", lambda w: bijx.GaussianMixture(arr(mean), arr(np.stack([np.diag(s**2) for s in sd])), w))):
                    g = mk(arr(w))
                    got = np.asarray(g.log_density(arr(X)), float)
                    rec.close(got, want, f"apart:{lab}-density", rtol=10 * tol + (2e-5 if lab != "stack" else 0), atol=1e-4 if lab != "stack" else 1e-6, gap=gap, k=k, dt=str(dt))
                    rec.expect(np.all(np.isfinite(got)), f"apart:{lab}-finite", gap=gap, got=got)
                    gd, st = nnx.split(mk(nnx.Param(arr(w))))
                    gr = jax.grad(lambda s: nnx.merge(gd, s).log_density(arr(X)).sum())(st)
                    grs = [np.asarray(v, float) for v in jax.tree.leaves(gr)]
                    wg = post.sum(0) - len(X) * np.exp(lw)
                    rec.expect(all(np.all(np.isfinite(v)) for v in grs), f"apart:{lab}-gradient-finite", gap=gap)
                    rec.expect(any(v.shape == (k,) and np.allclose(v, wg, atol=2e-4) for v in grs), f"apart:{lab}-weight-gradient", gap=gap, got=grs, want=wg)
                    rec.step(2)
                    rec.state("apart", gap, k, lab, str(dt))
        rec.trace()

    elif family == "choice":
        k = 3
        w = WTS[case["w"]](k)
        p = softmax(w)
        mean = np.array([[-100.0, 0], [0, 50], [100, -30]])
        var = np.array([[1.0, 4.0], [0.25, 1.0], [2.0, 0.5]])
        arg = var if case["fam"] == "diag" else np.stack([np.diag(v) for v in var]) + np.array([[0, 0.3], [0.3, 0]])
        covs = np.stack([np.diag(v) for v in var]) if case["fam"] == "diag" else arg
        g = bijx.GaussianMixture(jnp.asarray(mean), jnp.asarray(arg), jnp.asarray(w))
        n = 4096
        gdef, gst = nnx.split(g)
        vm = jax.jit(jax.vmap(lambda st, q: nnx.merge(gdef, st).sample((), rng=q)[0], in_axes=(None, 0)))
        one = lambda q: vm(gst, q)
        xs = {"per-key": np.asarray(one(jax.random.split(jax.random.key(1), n))),
              "batch": np.asarray(g.sample((n,), rng=key)[0]), "grid": np.asarray(g.sample((64, 64), rng=key)[0]).reshape(-1, 2)}
        for lab, x in xs.items():
            dist = np.linalg.norm(x[:, None] - mean, axis=-1)
            c = dist.argmin(1)
            rec.expect(np.all(dist.min(1) < 15), "choice:not-a-component", lab=lab)
            for i in range(k):
                cnt = (c == i).sum()
                sd = np.sqrt(n * p[i] * (1 - p[i]))
                rec.expect(abs(cnt - n * p[i]) <= 6 * sd + 1e-6, "choice:frequency", lab=lab, i=i, got=cnt / n, want=p[i])
                if cnt > 200:
                    y = x[c == i]
                    s = np.sqrt(np.diag(covs[i]))
                    rec.expect(np.all(np.abs(y.mean(0) - mean[i]) < 6 * s / np.sqrt(cnt)), "choice:component-mean", lab=lab, i=i)
                    C = np.cov(y.T)
                    rec.expect(np.all(np.abs(C - covs[i]) < 10 * np.outer(s, s) / np.sqrt(cnt)), "choice:component-spread", lab=lab, i=i, got=C, want=covs[i])
                rec.state(lab, i)
            # component choice and noise must not be correlated between draws
            rec.expect(len(np.unique(np.round(x[:, 0], 10))) > n * 0.99, "choice:repeated", lab=lab)
            rec.step(n)
            rec.trace(n)
            rec.outcome(lab, np.bincount(c, minlength=k).tobytes())

    elif family == "construct":
        means, cov = case["means"], case["cov"]
        cov = {"dshape": (3, 2), "fshape": (3, 2, 2)}.get(cov, cov)
        for wts in (None, (3,), "arr"):
            m = jnp.asarray(generic((3, 2), salt=1)) if means == "arr" else (3, 2)
            c = {"diag": jnp.full((3, 2), 0.7), "full": jnp.stack([jnp.eye(2) * 0.7] * 3)}.get(cov, cov) if isinstance(cov, str) else cov
            wv = jnp.asarray([0.1, 0.2, 0.3]) if wts == "arr" else wts
            g = bijx.GaussianMixture(m, c, wv, rngs=nnx.Rngs(0))
            contract(g, (2,), "construct", batches=[(2, 2)] if wts == "arr" else [])
            rec.expect(g.covs.shape == (3, 2, 2) and g.means.shape == (3, 2), "construct:shapes")
            rec.close(np.asarray(g.weights).sum(), 1.0, "construct:weights")
            if wts != "arr":
                rec.close(g.weights, np.full(3, 1 / 3), "construct:default-weights")
            C, mm, pw = np.asarray(g.covs), np.asarray(g.means), np.asarray(g.weights)
            X = generic((4, 2), salt=8)
            want = lse(np.stack([glog(X, mm[i], C[i]) for i in range(3)], -1), np.log(pw))
            rec.close(g.log_density(jnp.asarray(X)), want, "construct:density", rtol=1e-7)
            rec.state(str(means), str(cov), str(wts))
            # degenerate components: the regularisation is their standard deviation
            for eps in (0.5, 1e-3):
                kind = "full" if np.ndim(c) == 3 or (isinstance(c, tuple) and len(c) == 3) else "diag"
                cz = c if isinstance(c, tuple) else (jnp.stack([jnp.eye(2)] * 3) if kind == "full" else jnp.ones((3, 2)))
                gd, st = nnx.split(bijx.GaussianMixture(jnp.zeros((3, 2)), cz, wv, rngs=nnx.Rngs(0), epsilon=eps))
                st = jax.tree.map(lambda v: v * 0 if jnp.issubdtype(v.dtype, jnp.floating) else v, st)
                g0 = nnx.merge(gd, st)
                rec.close(g0.log_density(jnp.zeros((1, 2))), [2 * (-np.log(eps) - 0.5 * np.log(2 * np.pi))],
                          "construct:epsilon", rtol=1e-6, eps=eps)

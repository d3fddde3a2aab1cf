"""P17: independence Metropolis."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P17"
RULE = (
    "Environment = (proposal, acceptance draw). Every pair (current, proposed) of log target/proposal weights over an alphabet incl. "
    "-inf and +-900, times 256 acceptance draws covering [0,1): one real step each, compared with the transition model; every "
    "3-state target/proposal table over an alphabet: exact kernel of the implementation, detailed balance and stationarity; joint law of "
    "(proposal, decision) over a complete block of keys; the exact acceptance threshold of each of 8192 keys (bisection on the real step): resolution and law; every (proposal, accept/reject) history up to depth 5 for position structures."
)
ASSUMPTIONS = ["the uniform generator itself is trusted", "pairs where the ratio is 0/0 (both targets excluded) are not claimed"]

NU = 256


def cases(tier):
    lp = [float("-inf"), -900.0, -1.3, 0.0, 0.7, 900.0]
    for a in lp:
        yield "pairs", dict(cur=a)
    al = (-1.0, 0.0, 1.5) if tier == "quick" else (-3.0, -1.0, 0.0, 1.5)
    for q in itertools.product((0.0, 1.2) if tier == "quick" else (-1.0, 0.0, 1.2), repeat=3):
        yield "kernel", dict(q=list(q), alphabet=list(al))
    for t in range(4):
        yield "joint", dict(table=t)
    for struct in ("scalar", "vector", "tree"):
        yield "history", dict(struct=struct, depth=5 if tier == "quick" else 7)
    for dt in ("float32", "float64"):
        yield "threshold", dict(dtype=dt)
    for prop in ("normal", "transformed", "buffered", "tree"):
        yield "chain", dict(proposal=prop)


def weight(f, c):
    return {"history": 3, "joint": 2}.get(f, 1)


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    key = jax.random.key(2)
    orig_uniform = jax.random.uniform

    class Table:
        """proposal whose outcome the environment chooses (index), with attached log weights"""

        def __init__(self, lp, lq):
            self.lp, self.lq = lp, lq

        def sample(self, batch_shape=(), rng=None, **kw):
            return self.choice, self.lq[self.choice]

    def kernel_step(lp, lq, i, j, u):
        """one step of the real code from index i, proposing j, acceptance draw u -> (taken index, info); counts hook calls"""
        calls = []

        def fake(k, shape=(), dtype=float, minval=0.0, maxval=1.0):
            calls.append(shape)
            return jnp.broadcast_to(minval + u * (maxval - minval), shape).astype(dtype)

        t = Table(lp, lq)
        t.choice = j
        s = bijx.IMH(t, lambda x: lp[x])
        jax.random.uniform = fake
        try:
            st, info = s.step(key, bijx.IMHState(i, lp[i], lq[i]))
        finally:
            jax.random.uniform = orig_uniform
        return (st.position, st.log_prob_target, st.log_prob_proposal, info.is_accepted, info.accept_prob,
                info.proposal.position, info.proposal.log_prob_target, info.proposal.log_prob_proposal), len(calls)

    us = (np.arange(NU) + 0.5) / NU

    def accept_table(lp, lq):
        """implementation's decisions for all (i, j, u)"""
        n = len(lp)
        lp, lq = jnp.asarray(lp), jnp.asarray(lq)
        calls = []

        def one(i, j, u):
            o, c = kernel_step(lp, lq, i, j, u)
            calls.append(c)
            return o

        f = jax.vmap(jax.vmap(jax.vmap(one, (None, None, 0)), (None, 0, None)), (0, None, None))
        o = jax.jit(f)(jnp.arange(n), jnp.arange(n), jnp.asarray(us))
        return [np.asarray(v) for v in o], calls[0]

    def judge(lp, lq, lab, empirical=True):
        lp, lq = np.asarray(lp, float), np.asarray(lq, float)
        n = len(lp)
        (pos, tp, tq, acc, pr, pp, ptp, ptq), calls = accept_table(lp, lq)
        I, J = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
        with np.errstate(invalid="ignore"):
            la = lp[J] - lq[J] - lp[I] + lq[I]
        ok = ~np.isnan(la)
        with np.errstate(over="ignore"):
            alpha = np.where(ok, np.minimum(1.0, np.exp(np.where(ok, la, 0))), np.nan)
        hooked = calls == 1
        same = I == J
        # all-or-nothing: the new state is one of the two, complete
        taken = np.where(acc, J[..., None], I[..., None])
        rec.expect(np.array_equal(pos[ok], taken[ok]), lab + ":position")
        rec.expect(np.array_equal(tp[ok], lp[taken][ok]), lab + ":target-of-state")
        rec.expect(np.array_equal(tq[ok], lq[taken][ok]), lab + ":proposal-density-of-state")
        rec.expect(np.array_equal(pp, np.broadcast_to(J[..., None], pp.shape)), lab + ":info-proposal")
        rec.expect(np.array_equal(ptp, lp[np.broadcast_to(J[..., None], pp.shape)]), lab + ":info-target")
        rec.expect(np.array_equal(ptq, lq[np.broadcast_to(J[..., None], pp.shape)]), lab + ":info-proposal-density")
        rec.close(pr[ok], np.broadcast_to(alpha[..., None], pr.shape)[ok], lab + ":info-probability", rtol=1e-9, atol=1e-12)
        a = acc.mean(-1)
        if hooked:
            bad = ok & (np.abs(a - alpha) > 1.01 / NU)
            rec.expect(not bad.any(), lab + ":acceptance", at=np.argwhere(bad)[:3].tolist(), got=a[bad][:3], want=alpha[bad][:3])
            rec.expect(np.all(a[ok & (alpha == 1)] == 1), lab + ":sure-acceptance")
            rec.expect(np.all(a[ok & (alpha == 0)] == 0), lab + ":impossible-acceptance")
        rec.step(pos.size)
        rec.state(lab, lp.tobytes(), lq.tobytes())
        rec.outcome(acc.sum())
        return a, hooked

    if family == "pairs":
        alph = [float("-inf"), -900.0, -1.3, 0.0, 0.7, 900.0]
        lp = [case["cur"]] * 3 + [v for v in alph for _ in range(3)]
        lq = [-2.0, 0.0, 1.1] * 7
        judge(lp, lq, "pairs")
        rec.trace(len(lp) ** 2)

    elif family == "kernel":
        q = np.exp(np.asarray(case["q"]))
        q = q / q.sum()
        for lp in itertools.product(case["alphabet"], repeat=3):
            p = np.exp(np.asarray(lp))
            p = p / p.sum()
            # unnormalised target and arbitrary constant offset: the kernel only depends on ratios
            a, hooked = judge(np.asarray(lp) + 3.0, np.log(q), "kernel")
            if hooked:
                K = q[None, :] * a
                K[np.diag_indices(3)] = 0
                K[np.diag_indices(3)] = 1 - K.sum(1)
                F = p[:, None] * K
                rec.close(F, F.T, "kernel:detailed-balance", atol=2.0 / NU)
                rec.close(p @ K, p, "kernel:stationarity", atol=2.0 / NU)
            rec.trace()

    elif family == "joint":
        # proposal uses its own key: decision and proposal must be independent and have the right frequencies
        m = 4
        lp = np.array([[0.0, 1.0, -1.0, 0.5], [0.0, 0.0, 0.0, 0.0], [2.0, -2.0, 0.0, -1.0], [-0.5, 0.2, 0.4, -3.0]])[case["table"]]
        q = np.array([0.25, 0.25, 0.25, 0.25])

        class U(bijx.Distribution):
            def __init__(self, how):
                super().__init__(None)
                self.how = how

            def sample(self, batch_shape=(), rng=None, **kw):
                u = jax.random.uniform(rng) if self.how == "uniform" else jax.random.uniform(rng, (1,))[0]
                i = jnp.minimum((m * u).astype(int), m - 1)
                return i, jnp.log(0.25)

        N = 40_000
        LP = jnp.asarray(lp)
        for how in ("uniform", "vector"):
            s = bijx.IMH(U(how), lambda x: LP[x])
            ks = jax.random.split(jax.random.key(17), N)
            for i in range(m):
                st = bijx.IMHState(jnp.array(i), LP[i], jnp.log(0.25))
                new, info = jax.jit(jax.vmap(lambda k: s.step(k, st)))(ks)
                j, acc = np.asarray(info.proposal.position), np.asarray(info.is_accepted)
                for jj in range(m):
                    al = min(1.0, np.exp(lp[jj] - lp[i]))
                    for got, want, lab in ((((j == jj) & acc).sum(), q[jj] * al, "accepted"), ((j == jj).sum(), q[jj], "proposed")):
                        sd = np.sqrt(N * want * (1 - want))
                        rec.expect(abs(got - N * want) <= 6 * sd + 1e-9, "joint:" + lab, i=i, j=jj, got=got / N, want=want)
                    rec.state("joint", how, i, jj)
                pos = np.asarray(new.position)
                rec.expect(np.array_equal(pos, np.where(acc, j, i)), "joint:position")
                rec.step(N)
            # init: one proposal, complete
            st0 = jax.jit(jax.vmap(s.init))(ks)
            rec.close(st0.log_prob_target, lp[np.asarray(st0.position)], "init:target")
            rec.close(st0.log_prob_proposal, np.full(N, np.log(0.25)), "init:proposal")
            c = np.bincount(np.asarray(st0.position), minlength=m)
            rec.expect(np.all(np.abs(c - N / m) < 6 * np.sqrt(N * 0.25 * 0.75)), "init:frequency", got=c)
        rec.trace(2 * m * N)

    elif family == "threshold":
        # a key's decision as a function of the weight ratio: one threshold per key, found by bisection on the real step;
        # over the block the thresholds must resolve [0, 1] (no coarse grid, no atom at 0 or 1) and follow the uniform law
        dt = jnp.dtype(case["dtype"])
        N, B = 8192, 48
        ks = jax.random.split(jax.random.key(23), N)

        def accepted(k, la):
            t = Table(jnp.stack([jnp.zeros((), dt), la.astype(dt)]), jnp.zeros((2,), dt))
            t.choice = jnp.array(1)
            s = bijx.IMH(t, lambda x: t.lp[x])
            return s.step(k, bijx.IMHState(jnp.array(0), t.lp[0], t.lq[0]))[1].is_accepted

        f = jax.jit(jax.vmap(accepted))
        lo, hi = np.full(N, -40.0), np.zeros(N)
        rec.expect(np.all(np.asarray(f(ks, jnp.asarray(hi)))), "threshold:sure")
        rec.expect(not np.any(np.asarray(f(ks, jnp.asarray(lo)))), "threshold:accepts-negligible-ratio", got=int(np.asarray(f(ks, jnp.asarray(lo))).sum()))
        for _ in range(B):
            mid = (lo + hi) / 2
            a = np.asarray(f(ks, jnp.asarray(mid)))
            lo, hi = np.where(a, lo, mid), np.where(a, mid, hi)
            rec.step(N)
        th = np.exp((lo + hi) / 2)
        nd = len(np.unique(hi.astype(dt)))
        rec.expect(nd > 0.98 * N, "threshold:resolution", got=nd, want=N)
        srt = np.sort(th)
        ks_d = max(np.abs(srt - (np.arange(N) + 1) / N).max(), np.abs(srt - np.arange(N) / N).max())
        rec.expect(ks_d < 2.2 / np.sqrt(N), "threshold:law", got=ks_d)
        rec.trace(N)
        rec.state("threshold", str(dt))
        rec.outcome(nd)

    elif family == "history":
        struct = case["struct"]

        def mkpos(i):
            i = jnp.asarray(i, float)
            return {"scalar": lambda: i, "vector": lambda: jnp.stack([i, 10 * i, -i]),
                    "tree": lambda: {"a": i, "b": (jnp.full((2, 2), 3 * i), jnp.asarray(i).astype(int))}}[struct]()

        def label(x):
            return {"scalar": lambda: x, "vector": lambda: x[0], "tree": lambda: x["a"]}[struct]()

        P = jnp.asarray([0.0, -1.0, 0.5, -0.2])
        Q = jnp.asarray([-1.0, -0.3, 0.4, 0.1])

        class S:
            def sample(self, batch_shape=(), rng=None, **kw):
                return mkpos(self.j), Q[self.j]

        def tgt(x):
            return P[jnp.asarray(label(x)).astype(int)]

        def step(i, j, u):
            smp = S()
            smp.j = j
            s = bijx.IMH(smp, tgt)
            jax.random.uniform = lambda k, shape=(), dtype=float, **kw: jnp.broadcast_to(u, shape)
            try:
                new, info = s.step(key, i)
            finally:
                jax.random.uniform = orig_uniform
            return new, info

        st = jax.jit(step)
        moves = list(itertools.product((0, 1, 3), (0.0005, 0.9995)))
        start = bijx.IMHState(mkpos(jnp.array(2)), P[2], Q[2])
        frontier = {(2,): start}
        for d in range(case["depth"]):
            nxt = {}
            for h, s in frontier.items():
                cur = h[-1]
                for j, u in moves:
                    new, info = st(s, jnp.array(j), jnp.array(u))
                    al = float(min(1.0, np.exp(P[j] - Q[j] - P[cur] + Q[cur])))
                    acc = bool(info.is_accepted)
                    if al >= 1 or al < 1e-3:
                        rec.expect(acc == (al >= 1), "history:decision", h=h, j=j, u=u)
                    w = j if acc else cur
                    want = mkpos(jnp.array(w))
                    ok = all(np.array_equal(a, b) for a, b in zip(jax.tree.leaves(new.position), jax.tree.leaves(want)))
                    rec.expect(ok and jax.tree.structure(new.position) == jax.tree.structure(want), "history:torn-position", h=h, j=j, got=new.position, want=want)
                    rec.close(new.log_prob_target, P[w], "history:target", h=h, j=j)
                    rec.close(new.log_prob_proposal, Q[w], "history:proposal", h=h, j=j)
                    rec.close(info.accept_prob, al, "history:probability", h=h, j=j)
                    rec.step()
                    rec.state(struct, d, cur, j, acc)
                    nxt[h[-1:] + (w,)] = new
            frontier = nxt
            rec.trace(len(nxt))
        # editing the record of a step changes exactly the given fields, in a new record
        a, b = bijx.IMHInfo(True, 0.25, start), bijx.IMHInfo(False, 0.5, new)
        names = ("is_accepted", "accept_prob", "proposal")
        for r in range(4):
            for sub in itertools.combinations(names, r):
                c = a.replace(**{k: getattr(b, k) for k in sub})
                for k in names:
                    rec.expect(getattr(c, k) is getattr(b if k in sub else a, k), "info:edit", sub=sub, k=k)
                rec.expect(a.is_accepted is True and a.accept_prob == 0.25 and a.proposal is start, "info:edit-in-place", sub=sub)
                rec.step()

    elif family == "chain":
        kind = case["proposal"]
        M = jnp.asarray([0.5, -0.3])
        target = lambda x: -0.5 * jnp.sum((x - M) ** 2) / 0.49
        if kind == "normal":
            d = bijx.IndependentNormal((2,), rngs=nnx.Rngs(1))
        elif kind == "transformed":
            d = bijx.Transformed(bijx.IndependentNormal((2,), rngs=nnx.Rngs(1)), bijx.AffineLinear(jnp.asarray([0.3, 0.1]), jnp.asarray([0.1, 0.2])))
        elif kind == "buffered":
            d = bijx.BufferedSampler(bijx.IndependentNormal((2,), rngs=nnx.Rngs(1)), buffer_size=16)
        else:
            class T(bijx.Distribution):
                def __init__(self):
                    super().__init__(None)
                    self.d = bijx.IndependentNormal((2,))

                def sample(self, batch_shape=(), rng=None, **kw):
                    x, l = self.d.sample(batch_shape, rng=rng)
                    return {"x": x}, l

                def log_density(self, x, **kw):
                    return self.d.log_density(x["x"])

            d = T()
            base = target
            target = lambda x: base(x["x"])
        s = bijx.IMH(d, target)
        n = 20_000
        st = s.init(jax.random.key(0))

        gd, ms = nnx.split(s)

        def body(c, k):
            m = nnx.merge(gd, c[0])
            new, info = m.step(k, c[1])
            return (nnx.state(m), new), (new, info)

        keys = jax.random.split(jax.random.key(1), n)
        _, (sts, infos) = jax.jit(lambda c: jax.lax.scan(body, c, keys))((ms, st))
        x = np.asarray(jax.tree.leaves(sts.position)[0])
        acc = np.asarray(infos.is_accepted)
        rec.close(sts.log_prob_target, jax.vmap(target)(sts.position), "chain:target", rtol=1e-9, atol=1e-9)
        rec.close(sts.log_prob_proposal, d.log_density(sts.position), "chain:proposal", rtol=1e-7, atol=1e-7)
        prev = np.concatenate([np.asarray(jax.tree.leaves(st.position)[0])[None], x[:-1]])
        prop = np.asarray(jax.tree.leaves(infos.proposal.position)[0])
        rec.close(x, np.where(acc[:, None], prop, prev), "chain:moves")
        nun = len(np.unique(np.round(prop[:, 0], 12)))
        rec.expect(nun == n, "chain:proposals-repeat", got=nun)
        # effective sample size is at least n/10 for these proposals; tolerance accordingly generous
        se = 0.7 / np.sqrt(n / 10)
        rec.expect(np.all(np.abs(x.mean(0) - np.asarray(M)) < 6 * se), "chain:mean", got=x.mean(0))
        rec.expect(np.all(np.abs(np.cov(x.T) - 0.49 * np.eye(2)) < 6 * 0.7 * 0.49 * 2 / np.sqrt(n / 10) + 0.02), "chain:covariance", got=np.cov(x.T))
        p = np.asarray(infos.accept_prob)
        rec.expect(abs(acc.mean() - p.mean()) < 6 * 0.5 / np.sqrt(n), "chain:acceptance-rate", got=acc.mean(), want=p.mean())
        rec.step(n)
        rec.trace()
        rec.state("chain", kind)
        rec.outcome(int(acc.sum()))

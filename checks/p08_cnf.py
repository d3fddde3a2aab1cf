"""P08: continuous flows integrate the requested window, in the requested direction."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P08"
RULE = (
    "Every engine (adaptive-library fixed/adaptive step, RK4, Crouch-Grossmann) x configured time window alphabet "
    "(unit, short, long, shifted, backward, negative) x subset of overridden window ends x vector-field argument "
    "present/absent x batch shape x {forward, reverse, forward then reverse, split windows}; oracle: scipy DOP853 at 1e-12 "
    "of a time-dependent non-linear field with its exact divergence, and an exact stepper for step numbers and sizes, configured or overridden (alone or with the window), in both directions."
)
ASSUMPTIONS = ["one smooth vector field family per dimension; step counts large enough for 1e-4 accuracy"]

WINS = [(0.0, 1.0), (0.0, 0.5), (0.3, 1.7), (1.0, 0.0), (0.0, -1.0), (-0.4, 0.9)]
ENG = ["tsit5", "adaptive", "rk4", "cg3", "cg2"]


def cases(tier):
    wins = WINS + ([(0.2, 0.3), (1.5, -0.5), (0.0, 2.0), (-2.0, -1.0)] if tier == "thorough" else [])
    for e in ENG:
        for w in wins:
            yield "window", dict(engine=e, win=list(w))
    for e in ENG:
        for d in ("forward", "reverse"):
            yield "gradient", dict(engine=e, dir=d)
    for e in ("rk4", "cg2", "cg3", "euler", "heun"):
        for w in ([(0.0, 1.0), (0.3, 1.7), (1.0, -0.2)] if tier == "thorough" else [(0.3, 1.7), (1.0, -0.2)]):
            yield "steps", dict(engine=e, win=list(w), tier=tier)
    yield "saveat", dict()
    for e in ENG:
        yield "compose", dict(engine=e)


def weight(f, c):
    return {"window": 3, "gradient": 4, "compose": 2}.get(f, 1) + (2 if c.get("engine") in ("tsit5", "adaptive") else 0)


A = np.array([[0.4, -0.9], [0.7, 0.2]])
B = np.array([0.5, -0.3])


def ref_flow(x, t0, t1, c=None, a=A):
    """exact flow and -int div, one point"""
    from scipy.integrate import solve_ivp

    cc = 0.0 if c is None else c

    def f(t, s):
        th = np.tanh(s[:2])
        dx = a @ th + np.sin(2 * t) * B + cc * t * s[:2]
        div = a[0, 0] * (1 - th[0] ** 2) + a[1, 1] * (1 - th[1] ** 2) + 2 * cc * t
        return np.concatenate([dx, [-div]])

    if t0 == t1:
        return np.array(x), 0.0
    s = solve_ivp(f, (t0, t1), np.concatenate([x, [0.0]]), method="DOP853", rtol=1e-12, atol=1e-13)
    return s.y[:2, -1], s.y[2, -1]


def field(nnx, jnp):
    class VF(nnx.Module):
        def __init__(self):
            self.a = nnx.Param(jnp.asarray(A))

        def __call__(self, t, x, c=None, **kw):
            cc = 0.0 if c is None else c
            a = self.a[...]
            th = jnp.tanh(x)
            dx = th @ a.T + jnp.sin(2 * t) * jnp.asarray(B) + cc * t * x
            div = jnp.sum(jnp.diagonal(a) * (1 - th**2), -1) + 2 * cc * t
            return dx, -div

    return VF()


def make(engine, win=None, **kw):
    import diffrax
    import jax.numpy as jnp
    from flax import nnx

    import bijx
    from bijx import cg

    vf = field(nnx, jnp)
    k = {} if win is None else dict(t_start=win[0], t_end=win[1])
    if engine == "tsit5":
        return bijx.ContFlowDiffrax(vf, bijx.DiffraxConfig(**k))
    if engine == "adaptive":
        return bijx.ContFlowDiffrax(vf, bijx.DiffraxConfig(
            solver=diffrax.Dopri5(), stepsize_controller=diffrax.PIDController(rtol=1e-8, atol=1e-9), **k))
    if engine == "euler":
        return bijx.ContFlowDiffrax(vf, bijx.DiffraxConfig(solver=diffrax.Euler(), **k, **kw))
    if engine == "heun":
        return bijx.ContFlowDiffrax(vf, bijx.DiffraxConfig(solver=diffrax.Heun(), **k, **kw))
    if engine == "rk4":
        return bijx.ContFlowRK4(vf, steps=kw.get("steps", 60), **k)
    if engine == "cg3":
        return bijx.ContFlowCG(vf, cg.Euclidean(), tableau=cg.CG3, steps=kw.get("steps", 120), **k)
    if engine == "cg2":
        return bijx.ContFlowCG(vf, cg.Euclidean(), tableau=cg.CG2, steps=kw.get("steps", 400), **k)
    raise KeyError(engine)


TOL = dict(rtol=1e-4, atol=1e-4)


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    X = generic((3, 2), -1.2, 1.2, salt=1)
    LD = generic((3,), salt=2)

    def refs(t0, t1, c=None, x=X, ld=LD):
        out = [ref_flow(p, t0, t1, c) for p in x]
        return np.stack([o[0] for o in out]), ld + np.array([o[1] for o in out])

    if family == "window":
        e, w = case["engine"], tuple(case["win"])
        flow = make(e, w)
        c = 0.35
        ov = (0.15, 0.8)

        @jax.jit
        def conf(x, ld, c):
            a = flow.forward(x, ld)
            b = flow.reverse(x, ld)
            a2 = flow.forward(x, ld, c=c)
            b2 = flow.reverse(*a2, c=c)
            return a, b, a2, b2

        a, b, a2, b2 = conf(X, LD, c)
        for got, (t0, t1, cc), lab in [(a, (*w, None), "forward"), (b, (w[1], w[0], None), "reverse"),
                                       (a2, (*w, c), "forward-argument")]:
            y, l = refs(t0, t1, cc)
            rec.close(got[0], y, f"{lab}:state", **TOL, win=w)
            rec.close(got[1], l, f"{lab}:density", **TOL, win=w)
            rec.outcome(np.round(y, 6).tobytes())
            rec.step(3)
            rec.state(e, w, lab)
        rec.close(b2[0], X, "roundtrip:state", **TOL)
        rec.close(b2[1], LD, "roundtrip:density", **TOL)
        rec.trace(3)

        # all subsets of overridden ends, both directions (traced window ends)
        x0 = X[0]  # unbatched
        for s0, s1 in [(1, 0), (0, 1), (1, 1)]:
            if e in ("tsit5", "adaptive") and (s0, s1) != (1, 1) and w not in (WINS[0], WINS[2], WINS[3]):
                continue

            def over(x, ld, u, v, c, s0=s0, s1=s1):
                k = {}
                if s0:
                    k["t_start"] = u
                if s1:
                    k["t_end"] = v
                return flow.forward(x, ld, c=c, **k), flow.reverse(x, ld, c=c, **k)

            # the Lie-group engine requires concrete times
            over = jax.jit(over, static_argnums=(2, 3) if e.startswith("cg") else ())
            for u, v in [ov, ov[::-1], (0.0, 0.0)] if (s0, s1) == (1, 1) else [ov]:
                t0, t1 = (u if s0 else w[0]), (v if s1 else w[1])
                if t0 == t1 and e not in ("rk4", "cg3", "cg2"):
                    continue
                f, r = over(x0, jnp.asarray(0.3), u, v, c)
                y, l = ref_flow(x0, t0, t1, c)
                yr, lr = ref_flow(x0, t1, t0, c)
                rec.close(f[0], y, "override:forward-state", **TOL, s=(s0, s1), t=(t0, t1))
                rec.close(f[1], 0.3 + l, "override:forward-density", **TOL, s=(s0, s1), t=(t0, t1))
                rec.close(r[0], yr, "override:reverse-state", **TOL, s=(s0, s1), t=(t0, t1))
                rec.close(r[1], 0.3 + lr, "override:reverse-density", **TOL, s=(s0, s1), t=(t0, t1))
                rec.state(e, w, "override", s0, s1, u, v)
                rec.step(2)
                rec.trace()
                rec.outcome(np.round(y, 6).tobytes())

    elif family == "compose":
        e = case["engine"]
        flow = make(e)

        def seg(x, ld, u, v):
            return flow.solve_flow(x, ld, t_start=u, t_end=v)

        seg = jax.jit(seg, static_argnums=(2, 3) if e.startswith("cg") else ())

        def go(x, ld, u, v):
            out = seg(x, ld, u, v)
            if hasattr(out, "ys"):
                return np.asarray(out.ys[0])[-1], np.asarray(out.ys[1])[-1]
            return np.asarray(out[0]), np.asarray(out[1])

        T = [0.0, 0.4, 0.9, 1.3, -0.5]
        for i, j, k in itertools.permutations(range(len(T)), 3):
            a = go(*go(X, LD, T[i], T[j]), T[j], T[k])
            b = refs(T[i], T[k])
            rec.close(a[0], b[0], "compose:state", **TOL, t=(T[i], T[j], T[k]))
            rec.close(a[1], b[1], "compose:density", **TOL, t=(T[i], T[j], T[k]))
            rec.step(2)
            rec.trace()
            rec.state(e, i, j, k)
        # histories: every window path of length 4 over 3 times returns to its start if it is closed
        for path in itertools.product(range(3), repeat=3):
            p = (0,) + path + (0,)
            if any(p[q] == p[q + 1] for q in range(4)):
                continue
            s = (X, LD)
            for q in range(4):
                s = go(*s, T[p[q]], T[p[q + 1]])
                rec.step()
            rec.close(s[0], X, "closed-path:state", **TOL, p=p)
            rec.close(s[1], LD, "closed-path:density", **TOL, p=p)
            rec.trace()

    elif family == "steps":
        e = case["engine"]

        def f(t, s, c):
            x = s[:, :2]
            th = np.tanh(x)
            dx = th @ A.T + np.sin(2 * t) * B + c * t * x
            div = A[0, 0] * (1 - th[:, 0] ** 2) + A[1, 1] * (1 - th[:, 1] ** 2) + 2 * c * t
            return np.concatenate([dx, -div[:, None]], 1)

        TAB = {
            "rk4": ([[0] * 4, [0.5, 0, 0, 0], [0, 0.5, 0, 0], [0, 0, 1, 0]], [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
            "cg2": ([[0, 0], [0.5, 0]], [0, 1]),
            "cg3": ([[0, 0, 0], [3 / 4, 0, 0], [119 / 216, 17 / 108, 0]], [13 / 51, -2 / 3, 24 / 17]),
            "euler": ([[0]], [1]),
            "heun": ([[0, 0], [1, 0]], [0.5, 0.5]),
        }
        a_, b_ = TAB[e]

        def stepper(s, t0, t1, n, c):
            h = (t1 - t0) / n
            for m in range(n):
                t = t0 + m * h
                k = []
                for row in a_:
                    inc = sum((h * q * v for q, v in zip(row, k)), 0.0)
                    k.append(f(t + h * sum(row), s + inc, c))
                s = s + h * sum(q * v for q, v in zip(b_, k))
            return s

        tier = case["tier"]
        for w in [tuple(case["win"])]:
            for n, over in itertools.product((1, 2, 3, 5, 7, 33), (0, 1, 2)):
                # 0: configured step number, 1: overridden for the call, 2: the window overridden for the call as well
                if tier == "quick" and over and n not in (2, 3):
                    continue
                if e in ("euler", "heun") and n not in (1, 3, 5):
                    continue
                h = abs(w[1] - w[0]) / n
                base = (0.1, 0.9) if over == 2 else w
                if e in ("euler", "heun"):
                    flow = make(e, base, dt=(0.11 if over else h))
                    kw = dict(dt=h) if over else {}
                else:
                    flow = make(e, base, steps=(13 if over else n))
                    kw = dict(steps=n) if over else {}
                if over == 2:
                    kw.update(t_start=w[0], t_end=w[1])
                out = jax.jit(lambda x, ld: (flow.forward(x, ld, c=0.35, **kw), flow.reverse(x, ld, c=0.35, **kw)))(X, LD)
                for d, (y, l), (u, v) in zip(("forward", "reverse"), out, (w, w[::-1])):
                    want = stepper(np.concatenate([X, LD[:, None]], 1), u, v, n, 0.35)
                    # the library may split off a last step of rounding size only
                    rec.close(y, want[:, :2], f"steps:{d}-state", rtol=1e-8, atol=1e-9, n=n, w=w, over=over)
                    rec.close(l, want[:, 2], f"steps:{d}-density", rtol=1e-8, atol=1e-9, n=n, w=w, over=over)
                    rec.step(n)
                    rec.trace()
                    rec.state(e, w, n, over, d)
                    rec.outcome(np.round(want, 6).tobytes())

    elif family == "saveat":
        import diffrax

        ts = [0.1, 0.45, 0.9]
        flow = make("tsit5")
        for w in [(0.0, 1.0), (1.0, 0.0)]:
            tt = ts if w[1] > w[0] else ts[::-1]
            sol = flow.solve_flow(X, LD, t_start=w[0], t_end=w[1], saveat=diffrax.SaveAt(ts=jnp.asarray(tt)))
            for i, t in enumerate(tt):
                y, l = refs(w[0], t)
                rec.close(sol.ys[0][i], y, "saveat:state", **TOL)
                rec.close(sol.ys[1][i], l, "saveat:density", **TOL)
                rec.step()
            rec.trace()
            rec.state(w)

    elif family == "gradient":
        e, d = case["engine"], case["dir"]
        flow = make(e, (0.2, 1.1))
        W = generic((3, 2), salt=4)

        def loss(model, x, c):
            fn = model.forward if d == "forward" else model.reverse
            y, l = fn(x, jnp.zeros(3), c=c)
            return jnp.sum(W * y) + jnp.sum(jnp.sin(l + jnp.arange(3)))

        def ref_loss(x, c, a):
            t = (0.2, 1.1) if d == "forward" else (1.1, 0.2)
            out = [ref_flow(p, *t, c, a) for p in x]
            y = np.stack([o[0] for o in out])
            l = np.array([o[1] for o in out])
            return np.sum(W * y) + np.sum(np.sin(l + np.arange(3)))

        gd, st, rest = nnx.split(flow, nnx.Variable, ...)

        @jax.jit
        def grads(s, x, c):
            return jax.grad(lambda s_, x_, c_: loss(nnx.merge(gd, s_, rest), x_, c_), argnums=(0, 1, 2))(s, x, c)

        gs, gx, gc = grads(st, jnp.asarray(X), jnp.asarray(0.35))
        h = 1e-4

        def fd(fn, v):
            v = np.asarray(v, float)
            g = np.zeros_like(v)
            for i in np.ndindex(v.shape):
                p, m = v.copy(), v.copy()
                p[i] += h
                m[i] -= h
                g[i] = (fn(p) - fn(m)) / (2 * h)
            return g

        gt = dict(rtol=1e-3, atol=1e-3)
        rec.close(gx, fd(lambda v: ref_loss(v, 0.35, A), X), "gradient:input", **gt)
        rec.close(gc, fd(lambda v: ref_loss(X, float(v), A), 0.35), "gradient:argument", **gt)
        leaves = [np.asarray(v) for v in jax.tree.leaves(gs)]
        rec.expect(len(leaves) == 1 and leaves[0].shape == (2, 2), "gradient:parameter-structure")
        rec.close(leaves[0], fd(lambda v: ref_loss(X, 0.35, v), A), "gradient:parameter", **gt)
        rec.step(3)
        rec.trace()
        rec.state(e, d)
        rec.outcome(np.round(np.asarray(gx), 5).tobytes())

"""P09: fixed-grid solver trajectory, adjoint gradients, solver configuration overrides."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P09"
RULE = (
    "Solver: state structure {scalar, vector, nested dict} x time window alphabet x step size alphabet (dividing and not "
    "dividing the window, larger than the window) x argument structure {none, positional, nested, closed-over}, each compared "
    "with an independent step-by-step classical RK4 with a truncated last step; adjoint gradients with respect to initial "
    "value, both times, arguments and closed-over arrays against finite differences of the exact solution, alone and under "
    "jit/vmap.  Configuration: every subset of overridable fields x every field observed before/after, and every option of "
    "the configuration (solver, step size and controller, save points, adjoint, event, step limit, throw, continued with the "
    "state of an earlier solve) x solver alphabet x time window against direct calls of the third-party integrator; SDE "
    "driver with every noise switch, direction, solver and area option."
)
ASSUMPTIONS = ["end time not before start time for the raw fixed-grid solver", "step sizes from a finite alphabet"]


def cases(tier):
    for st in ("scalar", "vector", "dict"):
        for w in [(0.0, 1.0), (0.3, 0.9), (-1.2, 0.4), (0.5, 0.5)] + ([(2.0, 3.1), (-0.7, -0.1)] if tier == "thorough" else []):
            yield "trajectory", dict(state=st, win=list(w))
    for st in ("scalar", "vector", "dict"):
        for m in ("plain", "jit", "vmap") + (("end-zero", "start-zero") if st != "dict" or tier == "thorough" else ()):
            yield "adjoint", dict(state=st, mode=m)
    yield "override", dict(n=6)
    for sv in ("default", "heun", "euler") + (("dopri5", "tsit5") if tier == "thorough" else ()):
        for w in [(0.0, 1.0), (0.9, 0.2)] + ([(1.0, 0.0), (0.3, 0.9), (-0.5, -1.1)] if tier == "thorough" else []):
            yield "config", dict(solver=sv, win=list(w), full=tier == "thorough")
        for w in [(0.2, 0.9)] + ([(0.0, 1.0), (-1.0, 0.0)] if tier == "thorough" else []):
            yield "sde-config", dict(solver=sv, win=list(w), full=tier == "thorough")
    for d in ("forward", "backward"):
        yield "sde", dict(dir=d)


def weight(f, c):
    return {"trajectory": 2, "adjoint": 3, "sde": 3, "config": 5, "sde-config": 6}.get(f, 1)


STEPS = [0.1, 0.25, 0.3, 0.07, 5.0, 0.0031]


def f_np(t, y, a, b, k):
    """vector y (3,) ; a scalar, b (3,), k scalar"""
    return np.array([a * y[1] * np.cos(t), -y[0] + b[1] * np.sin(y[2]), k * t - 0.3 * y[2] + b[0] * y[1]]) + 0.1 * b


def rk4(f, y, t0, t1, h):
    y = np.array(y, float)
    t = t0
    n = 0
    while t < t1:
        nt = min(t + h, t1)
        d = nt - t
        k1 = f(t, y)
        k2 = f(t + d / 2, y + d / 2 * k1)
        k3 = f(t + d / 2, y + d / 2 * k2)
        k4 = f(t + d, y + d * k3)
        y = y + d / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        t = nt
        n += 1
    return y, n


Y0 = np.array([0.3, -0.7, 1.1])
Av, Bv, Kv = 0.8, np.array([0.4, -0.6, 0.2]), 0.5


def core_f(t, y, a, b, k):
    import jax.numpy as jnp

    return jnp.stack([a * y[1] * jnp.cos(t), -y[0] + b[1] * jnp.sin(y[2]), k * t - 0.3 * y[2] + b[0] * y[1]]) + 0.1 * b


def raises(f):
    try:
        f()
        return False
    except Exception:  # noqa: BLE001
        return True


def run_config(rec, solver, win, full):
    """Every option of the configuration has the effect the underlying library gives it."""
    import bijx
    import diffrax
    import jax
    import jax.numpy as jnp

    S = dict(euler=diffrax.Euler(), heun=diffrax.Heun(), dopri5=diffrax.Dopri5(), tsit5=diffrax.Tsit5())
    sv = {} if solver == "default" else dict(solver=S[solver])
    ref_solver = S.get(solver, S["tsit5"])
    g = lambda t, y, a: core_f(t, y, Av, jnp.asarray(Bv), Kv) * a  # noqa: E731
    term = diffrax.ODETerm(g)
    y0, a = jnp.asarray(Y0), jnp.asarray(0.7)
    pid = diffrax.PIDController(rtol=1e-5, atol=1e-6)
    ev = diffrax.Event(lambda t, y, args, **kw: y[0] > 1e9)
    ev2 = diffrax.Event(lambda t, y, args, **kw: t > 0.6)
    for t0, t1 in (tuple(win),):
        ts = jnp.linspace(t0, t1, 4)
        for name, save in (("t1", diffrax.SaveAt(t1=True)), ("t0t1", diffrax.SaveAt(t0=True, t1=True)), ("ts", diffrax.SaveAt(ts=ts)),
                           ("steps", diffrax.SaveAt(steps=True)), ("fn", diffrax.SaveAt(ts=ts, fn=lambda t, y, args: y[:1] * 2))):
            for dt in (0.1, -0.1, 0.07) if full or name == "t1" else (0.1,):
                for ctl in ((None, pid) if solver not in ("euler",) and name != "steps" else (None,)):
                    opt = {} if ctl is None else dict(stepsize_controller=ctl)
                    cfg = bijx.DiffraxConfig(t_start=t0, t_end=t1, dt=dt, saveat=save, **opt, **sv)
                    got = cfg.solve(term, y0, a)
                    want = diffrax.diffeqsolve(term, ref_solver, t0, t1, abs(dt) * np.sign(t1 - t0), y0, a, saveat=save,
                                               **({} if ctl is None else dict(stepsize_controller=ctl)))
                    rec.close(got.ts, want.ts, "config:times", rtol=1e-9, save=name, dt=dt)
                    rec.close(got.ys, want.ys, "config:states", rtol=1e-9, atol=1e-11, save=name, dt=dt)
                    rec.expect(int(got.stats["num_steps"]) == int(want.stats["num_steps"]), "config:steps", save=name, dt=dt)
                    rec.step(int(got.stats["num_steps"]))
                    rec.state(solver, t0, t1, name, dt, ctl is None)
                    rec.trace()
    if tuple(win) != (0.0, 1.0):
        return
    # failures are reported unless switched off; the step limit is respected
    kw = dict(t_end=1.0, dt=0.1, **sv)
    rec.expect(raises(lambda: jax.block_until_ready(bijx.DiffraxConfig(max_steps=4, **kw).solve(term, y0, a).ys)), "config:failure-silent")
    r = bijx.DiffraxConfig(max_steps=4, throw=False, **kw).solve(term, y0, a)
    rec.expect(int(r.stats["num_steps"]) == 4 and r.result != diffrax.RESULTS.successful, "config:step-limit")
    rec.expect(not raises(lambda: bijx.DiffraxConfig(max_steps=10, **kw).solve(term, y0, a)), "config:limit-too-strict")
    # events end the integration early
    for e, early in ((ev, False), (ev2, True)):
        r = bijx.DiffraxConfig(event=e, **kw).solve(term, y0, a)
        rec.expect((float(r.ts[-1]) < 0.99) == early, "config:event", got=r.ts)
    # all ways to differentiate agree
    def loss(adj, y):
        return (bijx.DiffraxConfig(adjoint=adj, t_start=0.2, t_end=0.9, dt=0.05, **sv).solve(term, y, a).ys[-1] ** 2).sum()

    gr = [jax.grad(lambda y, adj=adj: loss(adj, y))(y0) for adj in (diffrax.RecursiveCheckpointAdjoint(), diffrax.DirectAdjoint())]
    rec.close(gr[0], gr[1], "config:adjoints", rtol=1e-9)
    # a run interrupted after two steps and continued with the saved internal state is the uninterrupted run
    save = diffrax.SaveAt(t1=True, solver_state=True, controller_state=True)
    one = bijx.DiffraxConfig(t_start=0.0, t_end=0.4, dt=0.1, **sv).solve(term, y0, a).ys[-1]
    first = bijx.DiffraxConfig(t_start=0.0, t_end=0.2, dt=0.1, saveat=save, **sv).solve(term, y0, a)
    base = bijx.DiffraxConfig(t_start=0.2, t_end=0.4, dt=0.1, **sv)
    for cfg in (base.optional_override(solver_state=first.solver_state, controller_state=first.controller_state),
                base.replace(solver_state=first.solver_state)):
        rec.close(cfg.solve(term, first.ys[-1], a).ys[-1], one, "config:continued", rtol=1e-8, atol=1e-10)
    # what is handed in as internal state is really used: a doubled first stage changes the run of solvers that reuse it
    if jax.tree.leaves(first.solver_state) and solver in ("default", "dopri5", "tsit5"):
        odd = jax.tree.map(lambda v: v * 2 if jnp.issubdtype(jnp.asarray(v).dtype, jnp.inexact) else v, first.solver_state)
        z = base.replace(solver_state=odd).solve(term, first.ys[-1], a).ys[-1]
        rec.expect(not np.allclose(z, one), "config:state-ignored")
    rec.step(8)


def run_sde_config(rec, solver, win, full):
    import bijx
    import diffrax
    import jax
    import jax.numpy as jnp
    import lineax

    S = dict(euler=diffrax.Euler(), heun=diffrax.Heun(), dopri5=diffrax.Dopri5(), tsit5=diffrax.Tsit5())
    sv = {} if solver == "default" else dict(solver=S[solver])
    used = S[solver] if solver in ("euler", "heun") else S["euler"]  # other solvers fall back to Euler
    key, y0 = jax.random.key(5), jnp.asarray(Y0)
    drift = lambda t, y, a: -a * y + t  # noqa: E731
    amp = lambda t, y, a: 0.3 + 0.1 * jnp.tanh(y)  # noqa: E731
    for t0, t1 in (tuple(win),):
        ts = jnp.linspace(t0, t1, 3)
        for la in (None, diffrax.BrownianIncrement, diffrax.SpaceTimeLevyArea):
            for name, save in (("t1", diffrax.SaveAt(t1=True)), ("ts", diffrax.SaveAt(ts=ts)), ("steps", diffrax.SaveAt(steps=True)))[: 3 if full or la is None else 1]:
                for over in (None, diffrax.Euler(), diffrax.Heun(), diffrax.EulerHeun(), diffrax.ShARK(), diffrax.SlowRK(), diffrax.GeneralShARK()):
                    # schemes which need the area of the Brownian bridge as well; ShARK is for additive noise only
                    if isinstance(over, diffrax.ShARK | diffrax.SlowRK | diffrax.GeneralShARK) and la is not diffrax.SpaceTimeLevyArea:
                        continue
                    noise = (lambda t, y, a: jnp.asarray([0.3, 0.2, 0.1])) if isinstance(over, diffrax.ShARK) else amp
                    bm = diffrax.UnsafeBrownianPath(y0.shape, key, levy_area=la or diffrax.BrownianIncrement)
                    terms = diffrax.MultiTerm(diffrax.ODETerm(drift), diffrax.ControlTerm(
                        lambda t, y, a, noise=noise: lineax.DiagonalLinearOperator(noise(t, y, a)), bm))
                    cfg = bijx.DiffraxConfig(t_start=t0, t_end=t1, dt=0.125, saveat=save, **sv)
                    kw = {} if la is None else dict(levy_area=la)
                    if over is not None:
                        kw["solver"] = over
                    got = cfg.solve_sde(drift, noise, y0, key, 0.4, **kw)
                    want = diffrax.diffeqsolve(terms, over or used, t0, t1, 0.125, y0, 0.4, saveat=save, adjoint=diffrax.DirectAdjoint())
                    rec.close(got.ys, want.ys, "sde-config:states", rtol=1e-9, atol=1e-11, save=name, over=str(over), la=str(la))
                    rec.close(got.ts, want.ts, "sde-config:times", save=name)
                    rec.step(int(got.stats["num_steps"]))
                    rec.state(solver, t0, name, str(over), str(la))
                    rec.trace()
    rec.expect(raises(lambda: jax.block_until_ready(bijx.DiffraxConfig(max_steps=3, dt=0.1, **sv).solve_sde(drift, amp, y0, key, 0.4).ys)),
               "sde-config:failure-silent")
    r = bijx.DiffraxConfig(max_steps=3, dt=0.1, throw=False, **sv).solve_sde(drift, amp, y0, key, 0.4)
    rec.expect(int(r.stats["num_steps"]) == 3, "sde-config:step-limit")
    g = jax.jacfwd(lambda y: (bijx.DiffraxConfig(dt=0.1, **sv).solve_sde(drift, amp, y, key, 0.4).ys[-1] ** 2).sum())(y0)
    h = 1e-5
    f = lambda y: float((bijx.DiffraxConfig(dt=0.1, **sv).solve_sde(drift, amp, jnp.asarray(y), key, 0.4).ys[-1] ** 2).sum())  # noqa: E731
    fd = [(f(Y0 + h * e) - f(Y0 - h * e)) / (2 * h) for e in np.eye(3)]
    rec.close(g, fd, "sde-config:gradient", rtol=1e-5, atol=1e-6)


def run_case(family, case, rec):
    if family == "config":
        return run_config(rec, **case)
    if family == "sde-config":
        return run_sde_config(rec, **case)
    import diffrax
    import jax
    import jax.numpy as jnp

    import bijx
    from bijx.solvers import odeint_rk4

    st = case.get("state")

    def pack(y):
        if st == "dict":
            return {"u": y[0], "v": (y[1:2], {"w": y[2:]})}
        if st == "scalar":
            return y[0]
        return y

    def unpack(s):
        if st == "dict":
            return jnp.concatenate([jnp.reshape(s["u"], (1,)), s["v"][0], s["v"][1]["w"]])
        return s

    def f_scalar(t, y, a, b, k):
        return a * y * jnp.cos(t) + b[1] * jnp.sin(y) + k * t

    def f_scalar_np(t, y, a, b, k):
        return a * y * np.cos(t) + b[1] * np.sin(y) + k * t

    def fun(t, s, a, b, k):
        if st == "scalar":
            return f_scalar(t, s, a, b, k)
        return pack(core_f(t, unpack(s), a, b, k))

    def ref(y, t0, t1, h, a, b, k):
        if st == "scalar":
            return rk4(lambda t, s: f_scalar_np(t, s, a, b, k), y[0], t0, t1, h)
        return rk4(lambda t, s: f_np(t, s, a, b, k), y, t0, t1, h)

    def flat(s):
        return np.concatenate([np.ravel(v) for v in jax.tree.leaves(s)])

    if family == "trajectory":
        t0, t1 = case["win"]
        for h in STEPS:
            want, n = ref(Y0, t0, t1, h, Av, Bv, Kv)
            kb, ka = jnp.asarray(Bv), jnp.asarray(Av)
            variants = {
                "positional": lambda y: odeint_rk4(fun, y, t1, Av, kb, Kv, step_size=h, start_time=t0),
                "nested": lambda y: odeint_rk4(lambda t, s, p: fun(t, s, p["a"], p["q"][0], p["q"][1]), y, t1,
                                               {"a": ka, "q": (kb, Kv)}, step_size=h, start_time=t0),
                "closure": lambda y: odeint_rk4(lambda t, s: fun(t, s, ka, kb, Kv), y, t1, step_size=h, start_time=t0),
            }
            for name, go in variants.items():
                out = go(pack(jnp.asarray(Y0)))
                rec.expect(jax.tree.structure(out) == jax.tree.structure(pack(jnp.asarray(Y0))), "structure")
                rec.close(flat(out), np.ravel(want), "trajectory", rtol=1e-9, atol=1e-10, h=h, name=name)
                rec.step(n)
                rec.trace()
                rec.state(st, t0, t1, h, name)
            rec.outcome(np.round(np.ravel(want), 8).tobytes())
            if t0 == 0.0:
                out = odeint_rk4(fun, pack(jnp.asarray(Y0)), t1, Av, kb, Kv, step_size=h)
                rec.close(flat(out), np.ravel(want), "default-start", rtol=1e-9, atol=1e-10)

    elif family == "adjoint":
        mode = case["mode"]
        h = 0.02
        t0, t1 = {"end-zero": (-0.85, 0.0), "start-zero": (0.0, 0.9)}.get(mode, (0.3, 1.15))
        C = np.array([0.7, -1.3, 0.4])
        cst = np.array([0.2, 0.9])  # closed over and differentiated

        def loss(y, t0, t1, a, b, k, c):
            s = odeint_rk4(lambda t, s, p, kk: jax.tree.map(lambda u: u * c[1], fun(t + c[0], s, p["a"], p["b"], kk)),
                           pack(y), t1, {"a": a, "b": b}, k, step_size=h, start_time=t0)
            v = jnp.concatenate([jnp.ravel(q) for q in jax.tree.leaves(s)])
            return jnp.sum(jnp.sin(v) * C[: v.size])

        def ref_loss(y, t0, t1, a, b, k, c):
            if st == "scalar":
                g = lambda t, s: c[1] * f_scalar_np(t + c[0], s, a, b, k)  # noqa: E731
                o = rk4(g, y[0], t0, t1, 0.004)[0].reshape(1)
            else:
                o = rk4(lambda t, s: c[1] * f_np(t + c[0], s, a, b, k), y, t0, t1, 0.004)[0]
            return float(np.sum(np.sin(o) * C[: o.size]))

        args = [Y0, np.array(t0), np.array(t1), np.array(Av), Bv, np.array(Kv), cst]
        names = ["y0", "start", "end", "a", "b", "k", "closure"]
        gfun = jax.grad(loss, argnums=tuple(range(7)))
        if mode == "jit":
            gfun = jax.jit(gfun)
        batches = [args]
        if mode == "vmap":
            a2 = [Y0[::-1].copy(), np.array(0.1), np.array(0.9), np.array(-0.4), Bv[::-1].copy(), np.array(0.2), cst * 0.7]
            batches = [args, a2]
            out = jax.jit(jax.vmap(gfun))(*[jnp.stack([jnp.asarray(p), jnp.asarray(q)]) for p, q in zip(args, a2)])
            outs = [[np.asarray(o)[i] for o in out] for i in range(2)]
        else:
            outs = [gfun(*[jnp.asarray(v) for v in args])]
        e = 1e-5
        for av, gv in zip(batches, outs):
            for i, nm in enumerate(names):
                v = np.array(av[i], float)
                want = np.zeros_like(v)
                for ix in np.ndindex(v.shape):
                    p, m = v.copy(), v.copy()
                    p[ix] += e
                    m[ix] -= e
                    lp = ref_loss(*[(p if j == i else q) for j, q in enumerate(av)])
                    lm = ref_loss(*[(m if j == i else q) for j, q in enumerate(av)])
                    want[ix] = (lp - lm) / (2 * e)
                rec.close(gv[i], want, f"gradient:{nm}", rtol=1e-5, atol=1e-6)
                rec.step()
                rec.state(st, mode, nm)
                rec.outcome(np.round(want, 6).tobytes())
            rec.trace()

    elif family == "override":
        base = dict(t_start=0.25, t_end=1.75, dt=0.125, saveat=diffrax.SaveAt(t0=True, t1=True), solver_state=jnp.ones(2),
                    controller_state=jnp.zeros(3))
        new = dict(t_start=-1.0, t_end=0.0, dt=0.5, saveat=diffrax.SaveAt(steps=True), solver_state=jnp.zeros(1),
                   controller_state=jnp.ones(1))
        falsy = dict(t_start=0.0, t_end=0.0)
        other = dict(solver=diffrax.Euler(), max_steps=77, throw=False, stepsize_controller=diffrax.PIDController(rtol=1e-3, atol=1e-3))
        keys = list(base)
        cfg = bijx.DiffraxConfig(**base, **other)

        def same(u, v):
            return u is v or (not isinstance(u, diffrax.SaveAt) and np.array_equal(np.asarray(u), np.asarray(v)))

        for r in range(len(keys) + 1):
            for sub in itertools.combinations(keys, r):
                for ov in (new, falsy):
                    if ov is falsy and not set(sub) <= set(falsy):
                        continue
                    o = {k: ov[k] for k in sub}
                    for how in ("optional", "replace"):
                        c2 = cfg.optional_override(**o, **{k: None for k in keys if k not in sub}) if how == "optional" else cfg.replace(**o)
                        for k in keys:
                            rec.expect(same(getattr(c2, k), (ov if k in sub else base)[k]), "override:field", k=k, sub=sub)
                            rec.expect(same(getattr(cfg, k), base[k]), "override:original-changed", k=k)
                        for k, v in other.items():
                            rec.expect(getattr(c2, k) is v or getattr(c2, k) == v, "override:unrelated-field", k=k)
                        rec.step()
                        rec.state(sub, ov is falsy, how)
                    rec.trace()

    elif family == "sde":
        w = (0.2, 1.2) if case["dir"] == "forward" else (1.2, 0.2)
        key = jax.random.key(3)
        y0 = jnp.asarray(Y0)
        drift = lambda t, y, args: core_f(t, y, Av, jnp.asarray(Bv), Kv)  # noqa: E731

        def euler(n):
            y, hh = Y0.copy(), (w[1] - w[0]) / n
            for i in range(n):
                y = y + hh * f_np(w[0] + i * hh, y, Av, Bv, Kv)
            return y

        for n in (1, 4, 8):
            cfg = bijx.DiffraxConfig(t_start=w[0], t_end=w[1], dt=1.0 / n)
            want = euler(n)
            z = cfg.solve_sde(drift, lambda t, y, a: jnp.zeros_like(y), y0, key)
            rec.close(z.ys[-1], want, "sde:no-noise", rtol=1e-7, atol=1e-9)
            z2 = cfg.solve_sde(drift, lambda t, y, a: jnp.ones_like(y), y0, key, noise_transform=lambda dw: 0.0 * dw)
            rec.close(z2.ys[-1], want, "sde:muted-noise", rtol=1e-7, atol=1e-9)
            rec.step(2 * n)
            # zero drift, constant amplitude: the increments add up and scale component-wise
            amp = jnp.asarray([1.0, 2.0, -0.5])
            zero = lambda t, y, a: jnp.zeros_like(y)  # noqa: E731
            unit = cfg.solve_sde(zero, lambda t, y, a: jnp.ones_like(y), y0, key).ys[-1] - y0
            sc = cfg.solve_sde(zero, lambda t, y, a: amp, y0, key).ys[-1] - y0
            rec.close(sc, unit * amp, "sde:diagonal-noise", rtol=1e-7, atol=1e-9)
            tr = cfg.solve_sde(zero, lambda t, y, a: amp, y0, key, noise_transform=lambda dw: dw[::-1]).ys[-1] - y0
            rec.close(tr, unit[::-1] * amp, "sde:noise-transform", rtol=1e-7, atol=1e-9)
            ar = cfg.solve_sde(lambda t, y, a: a["d"] * jnp.ones_like(y), lambda t, y, a: a["s"] * jnp.ones_like(y), y0, key,
                               {"d": 0.3, "s": 2.0}).ys[-1] - y0
            rec.close(ar, 0.3 * (w[1] - w[0]) + 2 * unit, "sde:arguments", rtol=1e-7, atol=1e-9)
            rec.expect(np.all(np.abs(np.asarray(unit)) > 1e-6), "sde:noise-present")
            rec.step(4 * n)
            rec.trace()
            rec.state(w, n)
            rec.outcome(np.round(want, 6).tobytes())

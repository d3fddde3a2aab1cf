"""P10: structure-preserving integrator on matrix groups."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P10"
RULE = (
    "Every built-in and two custom explicit schemes x group {U(1), U(2), SU(2), SU(3), SO(3), GL(2), product with a vector} x time window "
    "(forward, backward, non-divisible step; window lengths of 0..1.2 (quick) or 0..3 in tenths of a step) x projection switches: every step against an independent scipy.expm stepper; "
    "manifold membership after every step; observed order of convergence; gradients with respect to state, times, "
    "arguments and closed-over arrays against back-propagation through the independent stepper; every 2x2 coefficient matrix "
    "over {0,1/2,1} x weight vectors for scheme validation."
)
ASSUMPTIONS = ["one generic non-commuting, time- and state-dependent field per group"]

GROUPS = ["u1", "u2", "su2", "su3", "so3", "gl2", "mixed"]
WINS = [(0.0, 1.0), (1.0, 0.2), (-0.3, 0.45)]
TABS = ["euler", "cg2", "cg3", "heun", "k4"]


def cases(tier):
    full = tier == "thorough"
    for g in GROUPS:
        for t in TABS:
            if full or t in {"u1": ("cg2",), "u2": ("cg2",), "su2": ("k4",), "su3": ("euler", "cg3"), "so3": ("cg2",),
                             "gl2": ("heun",), "mixed": ("euler", "cg2", "cg3")}[g]:
                yield "steps", dict(group=g, tab=t, full=full)
    for g in GROUPS:
        for t in ("euler", "cg2", "cg3"):
            if full or g in ("su3", "mixed"):
                yield "order", dict(group=g, tab=t)
    for g in ("u2", "su2", "su3", "so3"):
        for t in ("euler", "cg2", "cg3"):
            if full or (g, t) in (("u2", "cg2"), ("su3", "euler"), ("so3", "cg2")):
                yield "project", dict(group=g, tab=t)
    for g in ("u2", "su3", "so3", "gl2", "mixed"):
        for m in ("plain", "transport") if g != "mixed" else ("plain",):
            if full or (g, m) in (("su3", "plain"), ("u2", "transport"), ("mixed", "plain"), ("so3", "transport")):
                yield "adjoint", dict(group=g, mode=m)
    for g, m in [("su2", "matrix"), ("mixed", "transport"), ("su3", "proj-step"), ("u2", "proj-stage"), ("gl2", "transport"), ("su2", "proj-stage-forward"), ("u2", "matrix-transport")]:
        if full or m in ("matrix", "proj-step", "proj-stage") or g == "mixed":
            yield "adjoint", dict(group=g, mode=m)
    for g, t in [("su2", "cg2"), ("mixed", "cg3"), ("gl2", "euler"), ("su3", "heun")]:
        if full or g in ("su2", "mixed"):
            yield "ratios", dict(group=g, tab=t, n=120 if full else 48)
    yield "tableau", dict(n=2)
    yield "reject", dict(n=0)
    for g in ("su2", "su3") if full else ("su2",):
        for w in WINS:
            yield "flow", dict(group=g, win=list(w))


def weight(f, c):
    return {"adjoint": 5, "order": 2, "project": 6, "flow": 4}.get(f, 1)


TAB = {
    "euler": ([[0]], [1]),
    "cg2": ([[0, 0], [0.5, 0]], [0, 1]),
    "cg3": ([[0, 0, 0], [3 / 4, 0, 0], [119 / 216, 17 / 108, 0]], [13 / 51, -2 / 3, 24 / 17]),
    "heun": ([[0, 0], [1, 0]], [0.5, 0.5]),
    "k4": ([[0, 0, 0, 0], [0.5, 0, 0, 0], [0.25, 0.25, 0, 0], [0, -1, 2, 0]], [1 / 6, 0, 2 / 3, 1 / 6]),
}


def alg(g, salt):
    n = {"u1": 1, "u2": 2, "su2": 2, "mixed": 2, "su3": 3, "so3": 3, "gl2": 2}[g]
    a = generic((n, n), -1, 1, salt=salt)
    if g == "gl2":
        return a * 0.6
    if g == "so3":
        return a - a.T
    a = a + 1j * generic((n, n), -1, 1, salt=salt + 1)
    a = (a - a.conj().T) / 2
    if g not in ("u2", "u1"):
        a = a - np.trace(a) / n * np.eye(n)
    return a


def setup(g):
    from scipy.linalg import expm

    A, B, M = alg(g, 1), alg(g, 3), alg(g, 5)
    U0 = expm(alg(g, 7))
    return A, B, M, U0


def field(g, xp, A, B, M):
    """u, t, amp -> Lie algebra element (state and time dependent)."""
    n = A.shape[0]

    def f(t, U, amp):
        P = U @ M
        if g == "gl2":
            Q = 0.2 * P
        else:
            Q = (P - xp.swapaxes(xp.conj(P), -1, -2)) / 2
            if g not in ("u2", "u1"):
                tr = xp.trace(Q, axis1=-2, axis2=-1)
                Q = Q - tr[..., None, None] / n * xp.eye(n)
        return amp * A + xp.sin(2 * t) * B + 0.5 * Q

    return f


def mixed(f, xp):
    def h(t, s, amp):
        U, x = s
        tr = xp.real(xp.trace(U, axis1=-2, axis2=-1))
        return f(t, U, amp) * (1 + 0.1 * xp.sum(x)), xp.cos(t) * x * amp + 0.3 * tr * xp.ones_like(x)

    return h


def stepper(xp, expm, fv, tab, s, t0, t1, h, amp, is_mixed, keep=None):
    a, b = TAB[tab]

    def move(s, terms):
        if is_mixed:
            U, x = s
            for c, k in terms:
                U = expm(c * k[0]) @ U
                x = x + c * k[1]
            return U, x
        for c, k in terms:
            s = expm(c * k) @ s
        return s

    t = t0
    n = 0
    while (t < t1) if h > 0 else (t > t1):
        nt = min(t + h, t1) if h > 0 else max(t + h, t1)
        d = nt - t
        k = []
        for row in a:
            k.append(fv(t + d * sum(row), move(s, [(d * q, v) for q, v in zip(row, k) if q]), amp))
        s = move(s, [(d * q, v) for q, v in zip(b, k) if q])
        t = nt
        n += 1
        if keep is not None:
            keep.append(s)
    return s, n


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from scipy.linalg import expm as sexpm

    import bijx
    from bijx import cg

    tabs = {"euler": cg.EULER, "cg2": cg.CG2, "cg3": cg.CG3}

    def tableau(t):
        return tabs[t] if t in tabs else cg.ButcherTableau(*TAB[t])

    g = case.get("group")
    if g:
        A, B, M, U0 = setup(g)
        mx = g == "mixed"
        X0 = np.array([0.3, -0.8])
        fn = field(g, np, A, B, M)
        fj = field(g, jnp, jnp.asarray(A), jnp.asarray(B), jnp.asarray(M))
        fnv = mixed(fn, np) if mx else fn
        fjv = mixed(fj, jnp) if mx else fj
        s0 = (U0, X0) if mx else U0
        special = g not in ("u2", "u1", "gl2")

        def mtype(**k):
            U = cg.Matrix(**{a: b for a, b in k.items() if a == "transport_adjoint"}) if g == "gl2" else cg.Unitary(special=special, **k)
            return (U, cg.Euclidean()) if mx else U

        J = lambda s: jax.tree.map(jnp.asarray, s)  # noqa: E731

        def on_manifold(s, tol=1e-9):
            U = np.asarray(s[0] if mx else s)
            if g == "gl2":
                return True
            e = np.abs(U @ U.conj().T - np.eye(U.shape[-1])).max()
            return e < tol and (not special or abs(np.linalg.det(U) - 1) < tol)

    if family == "steps":
        tab = case["tab"]
        for (t0, t1), h in itertools.product(WINS if case["full"] else WINS[:2], (0.25, 0.1, 2.0) if case["full"] else (0.3, 2.0)):
            hh = h if t1 > t0 else -h
            go = jax.jit(lambda s, a: cg.crouch_grossmann(lambda t, y, p: fjv(t, y, p["amp"]), s, {"amp": a}, t0, t1, hh,
                                                          manifold_types=mtype(), tableau=tableau(tab)))
            want, n = stepper(np, sexpm, fnv, tab, s0, t0, t1, hh, 0.7, mx)
            got = go(J(s0), 0.7)
            for p, q in zip(jax.tree.leaves(got), jax.tree.leaves(want)):
                rec.close(p, q, "step-result", rtol=1e-9, atol=1e-9, win=(t0, t1), h=h)
            rec.expect(on_manifold(got), "left-manifold", win=(t0, t1), h=h)
            rec.step(n)
            rec.trace()
            rec.state(g, tab, t0, h)
            rec.outcome(np.round(np.asarray(jax.tree.leaves(want)[0]), 7).tobytes())

    elif family == "ratios":
        # the number of steps: every window length between a tenth of a step and several steps, in both directions,
        # as run-time values of one compiled program
        tab = case["tab"]
        go = {sg: jax.jit(lambda s, a, ta, tb, sg=sg: cg.crouch_grossmann(lambda t, y, p: fjv(t, y, p), s, a, ta, tb, 0.25 * sg,
                                                                          manifold_types=mtype(), tableau=tableau(tab))) for sg in (1, -1)}
        for (t0, sgn), i in itertools.product([(0.0, 1), (1.0, -1), (-0.3, 1)], range(case["n"] + 1)):
            h, T = 0.25, 0.025 * i
            t1 = t0 + sgn * T
            want, n = stepper(np, sexpm, fnv, tab, s0, t0, t1, sgn * h, 0.7, mx)
            got = go[sgn](J(s0), 0.7, t0, t1)
            for p, q in zip(jax.tree.leaves(got), jax.tree.leaves(want)):
                rec.close(p, q, "ratio-result", rtol=1e-9, atol=1e-9, t0=t0, t1=t1, h=sgn * h)
            rec.expect(on_manifold(got), "left-manifold", t0=t0, t1=t1)
            rec.step(n)
            rec.trace()
            rec.state(g, tab, t0, i)
            rec.outcome(np.round(np.asarray(jax.tree.leaves(want)[0]), 7).tobytes())

    elif family == "order":
        tab = case["tab"]
        p = {"euler": 1, "cg2": 2, "cg3": 3}[tab]
        from scipy.integrate import solve_ivp

        def rhs(t, v):
            nU = U0.size
            U = (v[:nU] + 1j * v[nU:2 * nU]).reshape(U0.shape)
            if mx:
                x = v[2 * nU:]
                dU, dx = fnv(t, (U, x), 0.7)
                dU = dU @ U
                return np.concatenate([dU.real.ravel(), dU.imag.ravel(), dx])
            dU = fnv(t, U, 0.7) @ U
            return np.concatenate([dU.real.ravel(), dU.imag.ravel()])

        v0 = np.concatenate([np.real(U0).ravel(), np.imag(U0).ravel()] + ([X0] if mx else []))
        for t0, t1 in [(0.0, 1.0), (1.0, 0.2)]:
            s = solve_ivp(rhs, (t0, t1), v0, method="DOP853", rtol=1e-12, atol=1e-13).y[:, -1]
            exact = (s[:U0.size] + 1j * s[U0.size:2 * U0.size]).reshape(U0.shape)
            err = []
            for n in (8, 16, 32):
                got = cg.crouch_grossmann(lambda t, y, a: fjv(t, y, a), J(s0), jnp.asarray(0.7), t0, t1, (t1 - t0) / n,
                                          manifold_types=mtype(), tableau=tableau(tab))
                e = np.abs(np.asarray(got[0] if mx else got) - exact).max()
                if mx:
                    e = max(e, np.abs(np.asarray(got[1]) - s[2 * U0.size:]).max())
                err.append(e)
                rec.step(n)
            o = np.log2(err[1] / err[2])
            rec.expect(o > p - 0.35, "order", got=o, want=p, err=err)
            rec.expect(err[2] < 0.2 ** p, "accuracy", err=err)
            rec.trace()
            rec.state(g, tab, t0)
            rec.outcome(round(float(o), 3))

    elif family == "project":
        eps = 1e-3 * (generic(U0.shape, salt=11) + (0 if g == "so3" else 1j * generic(U0.shape, salt=12)))
        V0 = U0 + eps

        def polar(m):
            u, _, vh = np.linalg.svd(m)
            u = u @ vh
            return u / (np.linalg.det(u) ** (1 / m.shape[-1])) if special else u

        for step, stage in itertools.product((False, True), repeat=2):
            mt = cg.Unitary(special=special, project_step=step, project_stage=stage)
            for tab, n in itertools.product((case["tab"],), (1, 3)):
                out = cg.crouch_grossmann(lambda t, y, a: fj(t, y, a), jnp.asarray(V0), jnp.asarray(0.7), 0.0, 0.6, 0.6 / n,
                                          manifold_types=mt, tableau=tableau(tab))
                ok = on_manifold(out, 1e-9)
                rec.expect(ok == (step or stage), "projection-switch", step=step, stage=stage, tab=tab, n=n)
                free = cg.crouch_grossmann(lambda t, y, a: fj(t, y, a), jnp.asarray(V0), jnp.asarray(0.7), 0.0, 0.6, 0.6 / n,
                                           manifold_types=cg.Unitary(special=special), tableau=tableau(tab))
                if n == 1 and step and not stage:
                    rec.close(out, polar(np.asarray(free)), "projection-value", rtol=1e-8, atol=1e-8)
                rec.expect(np.abs(np.asarray(out) - np.asarray(free)).max() < 2e-2, "projection-distance")
                rec.step(2 * n)
                rec.trace()
                rec.state(g, step, stage, tab, n)
        # point projections: on-manifold points are fixed, images are members, batches act per matrix
        mt = cg.Unitary(special=special)
        batch = np.stack([U0, V0, V0 @ V0]).reshape((3, 1) + U0.shape)
        got = np.asarray(mt.project(jnp.asarray(batch)))
        rec.close(got[0, 0], U0, "project:fixes-members", atol=1e-9)
        for i in range(3):
            rec.close(got[i, 0], polar(batch[i, 0]), "project:polar", rtol=1e-9, atol=1e-9)
        if special:  # the documented defaults are the special groups
            rec.close(cg.Unitary().project(jnp.asarray(V0)), polar(V0), "project:default", rtol=1e-9, atol=1e-9)
            tr = cg.UnitaryDeriv().project(jnp.asarray(V0))
            rec.close(np.trace(np.asarray(tr)), 0, "project:default-algebra", atol=1e-9)
            out = cg.crouch_grossmann(lambda t, y, a: fj(t, y, a), jnp.asarray(V0), jnp.asarray(0.7), 0.0, 0.6, 0.3,
                                      manifold_types=cg.Unitary(project_step=True), tableau=tableau(case["tab"]))
            rec.expect(on_manifold(out), "project:default-switch")
            a, b = (cg.crouch_grossmann(lambda t, y, a: fj(t, y, a), jnp.asarray(U0), jnp.asarray(0.7), 0.0, 0.6, 0.3, tableau=tableau(case["tab"]), **k)
                    for k in ({}, dict(manifold_types=cg.Unitary())))
            rec.close(a, b, "default-manifold", rtol=1e-12, atol=1e-12)
        d = cg.UnitaryDeriv(special=special)
        H = generic((2,) + U0.shape, salt=13) + (0 if g == "so3" else 1j * generic((2,) + U0.shape, salt=14))
        got = np.asarray(d.project(jnp.asarray(H)))
        n = U0.shape[-1]
        want = (H - np.swapaxes(H.conj(), -1, -2)) / 2
        if special:
            want = want - np.trace(want, axis1=-2, axis2=-1)[:, None, None] / n * np.eye(n)
        rec.close(got, want, "project:algebra", rtol=1e-9, atol=1e-9)
        rec.close(d.project(jnp.asarray(want)), want, "project:algebra-idempotent", rtol=1e-9, atol=1e-9)
        rec.step(3)

    elif family == "adjoint":
        mode = case["mode"]
        n, t0, t1 = 40, 0.2, 0.9
        transport = mode.startswith(("transport", "proj", "matrix-t"))

        def mtypes():
            if mode.startswith("matrix"):
                return cg.Matrix(transport_adjoint=transport)
            if mode.startswith("proj"):
                d = cg.UnitaryDeriv(project_step="step" in mode, project_stage="stage" in mode, special=special)
                return cg.Unitary(special=special, transport_adjoint=True, derivative=d, project_step=mode.endswith("forward"))
            return mtype(transport_adjoint=transport)

        W = generic(U0.shape, salt=15) + (1j * generic(U0.shape, salt=16) if np.iscomplexobj(U0) else 0)
        jexp = jax.scipy.linalg.expm

        def val(s):
            U = s[0] if mx else s
            r = jnp.sum(jnp.sin(jnp.real(U * W)))
            return r + jnp.sum(jnp.cos(s[1])) if mx else r

        cl = jnp.asarray([1.1, 0.4])

        def loss(s, ta, tb, amp, c):
            return val(cg.crouch_grossmann(lambda t, y, p: fjv(t + c[1] - 0.4, y, p["amp"] * c[0]), s, {"amp": amp}, ta, tb,
                                           (t1 - t0) / n, manifold_types=mtypes(),
                                           tableau=cg.CG3))

        def ref(s, ta, tb, amp, c, n=40):
            h = (tb - ta) / n
            aa, bb = TAB["cg3"]

            def move(s, terms):
                if mx:
                    U, x = s
                    for q, k in terms:
                        U = jexp(q * k[0]) @ U
                        x = x + q * k[1]
                    return U, x
                for q, k in terms:
                    s = jexp(q * k) @ s
                return s

            def body(s, i):
                t = ta + i * h
                k = []
                for row in aa:
                    k.append(fjv(t + h * sum(row) + c[1] - 0.4, move(s, [(h * q, v) for q, v in zip(row, k) if q]), amp * c[0]))
                return move(s, [(h * q, v) for q, v in zip(bb, k) if q]), None

            s, _ = jax.lax.scan(body, s, jnp.arange(n))
            return val(s)

        args = (J(s0), jnp.asarray(t0), jnp.asarray(t1), jnp.asarray(0.7), cl)
        which = (0, 1, 2, 3, 4)
        got = jax.jit(jax.grad(loss, argnums=which))(*args)
        want = jax.jit(jax.grad(ref, argnums=which))(*args)
        if transport:
            # documented meaning: the cotangent of the state is expressed in the (dual) algebra at the identity,
            # i.e. its pairing with v is the derivative along exp(t v) U; optionally projected onto the algebra
            def down(c):
                c = c @ U0.T
                if mode.startswith("proj"):
                    c = (c - np.swapaxes(np.conj(c), -1, -2)) / 2
                    if special:
                        c = c - np.trace(c) / c.shape[-1] * np.eye(c.shape[-1])
                return c
            w0 = jax.tree.map(np.asarray, want[0])
            want = ((down(w0[0]), w0[1]) if mx else down(w0),) + tuple(want[1:])
        for w, a, b in zip(which, got, want):
            for p, q in zip(jax.tree.leaves(a), jax.tree.leaves(b)):
                rec.close(p, q, "gradient:" + ["state", "start", "end", "argument", "closure"][w], rtol=3e-4, atol=3e-4)
            rec.step()
            rec.state(g, mode, w)
        rec.outcome(np.round(np.asarray(jax.tree.leaves(want)[0]), 6).tobytes())
        rec.trace()

    elif family == "reject":
        U = jnp.eye(2) + 0j
        ok = lambda t, y, a: 0 * y  # noqa: E731
        for name, fn in [
            ("string-argument", lambda: cg.crouch_grossmann(ok, U, {"a": "text"}, 0.0, 1.0, 0.5)),
            ("object-argument", lambda: cg.crouch_grossmann(ok, U, [object()], 0.0, 1.0, 0.5)),
            ("left-invariant", lambda: cg.Matrix(right_invariant=False)),
            ("left-invariant-unitary", lambda: cg.Unitary(right_invariant=False)),
            ("adjoint-projection-step", lambda: cg.Unitary(derivative=cg.UnitaryDeriv(project_step=True))),
            ("adjoint-projection-stage", lambda: cg.Unitary(derivative=cg.UnitaryDeriv(project_stage=True))),
        ]:
            try:
                fn()
                rec.expect(False, "reject:" + name)
            except (TypeError, AssertionError, ValueError, NotImplementedError):
                rec.expect(True, "reject:" + name)
            rec.step()
            rec.state(name)
        rec.trace()

    elif family == "tableau":
        V = (0.0, 0.5, 1.0)
        for m in itertools.product(V, repeat=4):
            a = [list(m[:2]), list(m[2:])]
            for b in itertools.product(V, repeat=2):
                ok = m[0] == m[1] == m[3] == 0 and abs(sum(b) - 1) < 1e-9
                try:
                    t = cg.ButcherTableau(a, list(b))
                    res = True
                except (AssertionError, ValueError):
                    res = False
                rec.expect(res == ok, "tableau:accepted", a=a, b=b)
                if res and ok:
                    rec.close(np.asarray(tuple(t.c)), [sum(r) for r in a], "tableau:nodes")
                rec.step()
                rec.state(m, b)
                rec.outcome(res)
        for a, b in [([[0, 0]], [1]), ([[0], [0.5]], [0, 1]), ([[0, 0], [0.5, 0]], [1]), ([[0]], [0.5, 0.5])]:
            try:
                cg.ButcherTableau(a, b)
                rec.expect(False, "tableau:shape-accepted", a=a, b=b)
            except (AssertionError, ValueError, IndexError):
                rec.expect(True, "tableau:shape")
        rec.trace(81 * 9)

    elif family == "flow":
        # the flow bijection on a group: windows, direction, manifold, inverse
        def vf(t, U, amp=0.7):
            return fj(t, U, amp), -jnp.cos(t) * amp * jnp.ones(U.shape[:-2])

        U = jnp.stack([jnp.asarray(U0), jnp.asarray(U0 @ U0)])
        ld = jnp.asarray([0.3, -0.2])
        for w in [tuple(case["win"])]:
            fl = bijx.ContFlowCG(vf, t_start=w[0], t_end=w[1], steps=30, tableau=cg.CG3)
            for kw in ({}, {"amp": 0.4}):
                y, l = fl.forward(U, ld, **kw)
                a = kw.get("amp", 0.7)
                for i in range(2):
                    want, n = stepper(np, sexpm, fn, "cg3", np.asarray(U[i]), w[0], w[1], (w[1] - w[0]) / 30, a, False)
                    rec.close(y[i], want, "flow:state", rtol=1e-8, atol=1e-8)
                    rec.expect(on_manifold(y[i]), "flow:left-manifold")
                rec.close(l, np.asarray(ld) - a * (np.sin(w[1]) - np.sin(w[0])), "flow:density", atol=1e-5)
                xb, lb = fl.reverse(y, l, **kw)
                rec.close(xb, U, "flow:roundtrip", rtol=1e-4, atol=1e-4)
                rec.close(lb, ld, "flow:roundtrip-density", atol=1e-5)
                rec.step(60)
                rec.trace()
                rec.state(w, a)

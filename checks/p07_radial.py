"""P07: radial and ray transformations."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P07"
RULE = (
    "All combinations of dimension 1..4 x radius map alphabet x {isotropic, anisotropic scale} x {zero, generic centre} x "
    "batch shapes x point alphabet (centre itself, axis points, 1e-9 to 1e-2 from the centre, generic, far) x direction; oracle: "
    "numpy closed form for the image, full AD Jacobian for the density; slopes exp(-40..40), radii 1e-8..1e8 and powers 1/4..6 against closed forms; conditional variant with direction-dependent "
    "parameters likewise."
)

RAD = ["power", "scaling", "ray-affine", "ray-softplus", "ray-sinh", "ray-conj", "ray-exp", "ray-chain"]


def cases(tier):
    for n in (1, 2, 3) + ((4, 5) if tier == "thorough" else ()):
        for r in RAD:
            yield "radial", dict(n=n, rad=r)
        for r in ("cpower", "cray"):
            yield "conditional", dict(n=n, rad=r)
    for n in (1, 2, 3, 7):
        for k in ("rates", "crates"):
            yield k, dict(n=n)
    for n in (7, 16):
        for r in RAD[:3]:
            yield "radial", dict(n=n, rad=r)
        yield "conditional", dict(n=n, rad="cray")
    for r in ["affine", "softplus", "sinh", "conj", "exp", "cubic", "chain", "vec", "kw"]:
        yield "ray", dict(name=r)


def scal(name):
    import jax.numpy as jnp

    import bijx

    A = jnp.asarray
    if name == "power":
        return bijx.Power(A(1.4))
    if name == "scaling":
        return bijx.Scaling(A(0.6))
    if name == "ray-affine" or name == "affine":
        b = bijx.AffineLinear(A(0.3), A(0.8))
    elif name in ("ray-softplus", "softplus"):
        b = bijx.SoftPlus()
    elif name in ("ray-sinh", "sinh"):
        b = bijx.Chain(bijx.Shift(A(0.4)), bijx.Sinh())
    elif name in ("ray-conj", "conj"):
        b = bijx.SinhConjugation(A(0.3), A(0.5), A(0.7), A(0.4), A(-0.3))
    elif name in ("ray-exp", "exp"):
        b = bijx.Exponential()
    elif name == "cubic":
        b = bijx.CubicRational(A(0.3), A(0.2), A(0.1))
    elif name in ("ray-chain", "chain"):
        b = bijx.Chain(bijx.SoftPlus(), bijx.AffineLinear(A(-0.2), A(-1.0)), bijx.Sinh())
    elif name == "vec":
        b = bijx.AffineLinear(A([0.3, -0.2, 0.1]), A([0.8, 0.1, -0.5]))
    else:
        raise KeyError(name)
    return bijx.RayTransform(b)


_sp = lambda x: np.logaddexp(0, x)  # noqa: E731


def scal_ref(name):
    """f(r), f'(r)"""
    if name == "power":
        return lambda r: r**1.4, lambda r: 1.4 * r**0.4
    if name == "scaling":
        return lambda r: 0.6 * r, lambda r: 0.6 + 0 * r
    if name.endswith("affine"):
        return lambda r: np.exp(0.3) * r, lambda r: np.exp(0.3) + 0 * r
    if name.endswith("softplus"):
        return lambda r: _sp(r) - np.log(2), lambda r: 1 / (1 + np.exp(-r))
    if name.endswith("sinh"):
        return lambda r: np.sinh(r + 0.4) - np.sinh(0.4), lambda r: np.cosh(r + 0.4)
    if name.endswith("conj"):
        al = _sp(0.5) + 0.01
        mu, nu = np.arcsinh(0.4), np.arcsinh(-0.3)

        def g(x):
            z = (x - 0.3) / al
            return np.arcsinh(np.exp(mu) * (np.exp(nu) * np.sinh(z) + 0.7)) * al + 0.3

        def dg(x):
            z = (x - 0.3) / al
            a = np.exp(mu) * (np.exp(nu) * np.sinh(z) + 0.7)
            return np.exp(mu + nu) * np.cosh(z) / np.sqrt(1 + a * a)

        return lambda r: g(r) - g(0.0), dg
    if name.endswith("exp"):
        return lambda r: np.expm1(r), np.exp
    if name.endswith("chain"):
        s = np.exp(-0.2)
        g = lambda r: np.sinh(s * _sp(r) - 1.0)  # noqa: E731
        return lambda r: g(r) - g(0.0), lambda r: np.cosh(s * _sp(r) - 1.0) * s / (1 + np.exp(-r))
    raise KeyError(name)


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    def pts(n, c):
        P = [c, c + 1e-9 * generic((n,), salt=1), c + generic((n,), -0.8, 0.8, salt=2),
             c + generic((n,), -2.0, 2.0, salt=3), c - generic((n,), 0.1, 1.0, salt=4)]
        P += [c + s * generic((n,), 0.5, 1.0, salt=8) * (-1.0) ** np.arange(n) for s in (2e-5, 3e-4, -2e-3, 0.02)]
        for i in range(n):
            e = np.zeros(n)
            e[i] = 0.7
            P += [c + e, c - 1.3 * e]
        return np.stack(P)

    def explore(make, n, f_of, df_of, name):
        for cc, ss in itertools.product((0, 1), (0, 1)):
            c = generic((n,), -1, 1, salt=5) * cc
            ls = generic((n,), -0.6, 0.6, salt=6) * ss
            bij = make(jnp.asarray(c), jnp.asarray(ls))
            S = np.exp(ls)
            X = pts(n, c)
            sx = (X - c) * S
            r = np.linalg.norm(sx, axis=-1)
            hat = sx / np.where(r > 0, r, 1)[:, None]
            f, df = f_of(hat), df_of(hat)
            fr = f(r)
            want = c + hat * fr[:, None] / S
            with np.errstate(divide="ignore", invalid="ignore"):
                lr = np.where(r > 0, np.log(np.abs(fr / np.where(r > 0, r, 1))), np.log(df(r)))
                wl = np.log(df(r)) + (n - 1) * lr
            ok = np.isfinite(wl)
            if name.endswith("power"):
                ok &= r > 1e-6  # r^p has no finite slope at the centre
            else:
                # f(r)-f(0) loses relative accuracy at r ~ 1e-9
                pass
            ld0 = generic((len(X),), salt=7)

            @jax.jit
            def go(x, l, bij=bij):
                y, a = bij.forward(x, l)
                xb, b = bij.reverse(y, a)
                J = jax.vmap(jax.jacfwd(lambda q: bij.forward(q, jnp.zeros(()))[0]))(x)
                return y, a, xb, b, J

            y, l, xb, lb, J = (np.asarray(v) for v in go(jnp.asarray(X), jnp.asarray(ld0)))
            rec.step(2 * len(X))
            rec.close(y, want, "image", rtol=1e-7, atol=1e-8, cc=cc, ss=ss)
            tol = np.where(r > 1e-6, 1e-6, 1e-5 if n == 1 else 1e-5 * n)
            rec.expect(np.all(np.abs(l - ld0 + wl)[ok] <= (tol * (1 + np.abs(wl)))[ok]), "density",
                       got=(l - ld0)[ok], want=-wl[ok], cc=cc, ss=ss)
            far = ok & (r > 1e-6)
            rec.close((l - ld0)[far], -np.linalg.slogdet(J)[1][far], "density-vs-jacobian", rtol=1e-6, atol=1e-6)
            rec.close(xb, X, "roundtrip", rtol=1e-6, atol=1e-7)
            rec.expect(np.all(np.abs(lb - ld0)[ok] <= tol[ok] * 10), "roundtrip-density", got=lb[ok], want=ld0[ok])
            # pure reverse from an independently computed image point
            xr, lr2 = bij.reverse(jnp.asarray(want), jnp.asarray(ld0))
            rec.close(xr, X, "reverse-image", rtol=1e-6, atol=1e-7)
            rec.expect(np.all(np.abs(np.asarray(lr2) - ld0 - wl)[far] <= 1e-5 * (1 + np.abs(wl[far]))), "reverse-density")
            rec.step(len(X))
            # batch shapes agree with per-point evaluation
            for b in [(), (2, 2), (0,)]:
                k = int(np.prod(b))
                Xb = X[:k].reshape(b + (n,)) if k else np.zeros(b + (n,))
                yb, l2 = bij.forward(jnp.asarray(Xb), jnp.zeros(b))
                rec.close(yb, want[:k].reshape(b + (n,)) if k else np.zeros(b + (n,)), "batch-image", b=b)
                if k:
                    o = ok[:k]
                    rec.close(np.asarray(l2).reshape(-1)[o], (l - ld0)[:k][o], "batch-density", atol=2e-5, b=b)
                rec.step()
            rec.state(name, n, cc, ss)
            rec.trace(len(X))
            rec.outcome(np.round(y, 7).tobytes())

    if family == "radial":
        n, name = case["n"], case["rad"]
        f, df = scal_ref(name)
        explore(lambda c, s: bijx.Radial(scal(name), c, s), n, lambda h: f, lambda h: df, name)

    elif family == "conditional":
        n, name = case["n"], case["rad"]
        w = generic((n,), -0.7, 0.7, salt=9)
        w2 = generic((n,), -0.7, 0.7, salt=10)

        class Net(nnx.Module):
            def __call__(self, u, **kw):
                a = jnp.tanh(u @ jnp.asarray(w))
                if name == "cpower":
                    return (1.5 + 0.5 * a)[..., None]
                return jnp.stack([0.4 * a + 0.25, u @ jnp.asarray(w2) + 0.35], -1)  # scale, shift in path order

        if name == "cpower":
            base = bijx.Power(jnp.asarray(1.0))
            fo = lambda h: (lambda r: r ** (1.5 + 0.5 * np.tanh(h @ w)))  # noqa: E731
            do = lambda h: (lambda r: (1.5 + 0.5 * np.tanh(h @ w)) * r ** (0.5 + 0.5 * np.tanh(h @ w)))  # noqa: E731
        else:
            base = bijx.RayTransform(bijx.Chain(bijx.AffineLinear(jnp.asarray(0.0), jnp.asarray(0.0)), bijx.Sinh()))
            # the network's value at the zero vector (the centre) is a scale and shift with a slope different from one
            la = lambda h: 0.4 * np.tanh(h @ w) + 0.25  # noqa: E731
            sh = lambda h: h @ w2 + 0.35  # noqa: E731
            fo = lambda h: (lambda r: np.sinh(np.exp(la(h)) * r + sh(h)) - np.sinh(sh(h)))  # noqa: E731
            do = lambda h: (lambda r: np.cosh(np.exp(la(h)) * r + sh(h)) * np.exp(la(h)))  # noqa: E731
        explore(lambda c, s: bijx.RadialConditional(base, Net(), c, s), n, fo, do, name)

    elif family in ("rates", "crates"):
        # slopes from exp(-40) to exp(40), radii from 1e-8 to 1e8, powers from 1/4 to 6: closed forms
        n = case["n"]
        R = 10.0 ** np.arange(-8, 9, 2)
        dirs = np.stack([generic((n,), -1, 1, salt=s) for s in (1, 2)] + [np.eye(n)[0], -np.eye(n)[n - 1]])
        dirs /= np.linalg.norm(dirs, axis=-1, keepdims=True)
        ls = generic((n,), -0.6, 0.6, salt=6)
        S = np.exp(ls)
        U = dirs[:, None, :] * R[:, None]  # scaled coordinates
        X, lr, l0 = U / S, np.broadcast_to(np.log(R), U.shape[:-1]), generic(U.shape[:-1], salt=7)
        maps = [("slope", s) for s in (-40.0, -14.0, -9.0, -7.0, -4.0, 4.0, 7.0, 9.0, 14.0, 40.0)] + [("power", p) for p in (0.25, 0.5, 3.0, 6.0)]

        def build(kind, v):
            if family == "rates":
                inner = bijx.AffineLinear(v, jnp.zeros(())) if kind == "slope" else bijx.Power(v)
                return bijx.Radial(inner, jnp.zeros(n), jnp.asarray(ls))
            if kind == "slope":
                return bijx.RadialConditional(bijx.Scaling(jnp.ones(())), lambda u: jnp.broadcast_to(jnp.exp(v), u.shape[:-1] + (1,)), jnp.zeros(n), jnp.asarray(ls))
            return bijx.RadialConditional(bijx.Power(jnp.ones(())), lambda u: jnp.broadcast_to(v, u.shape[:-1] + (1,)), jnp.zeros(n), jnp.asarray(ls))

        go = {k: jax.jit(lambda v, x, l, k=k: (build(k, v).forward(x, l), build(k, v).reverse(x, l))) for k in ("slope", "power")}
        for kind, v in maps:
            (y, l), (z, m) = go[kind](jnp.asarray(v), jnp.asarray(X), jnp.asarray(l0))
            if kind == "slope":
                wf, wr, df, dr = v, -v, n * v + 0 * lr, -n * v + 0 * lr
            else:
                wf, wr = (v - 1) * lr, (1 / v - 1) * lr
                df, dr = np.log(v) + n * wf, -np.log(v) + n * wr
            for lab, got, gl, a, dl in (("forward", y, l, wf, df), ("reverse", z, m, wr, dr)):
                rec.close(np.asarray(got) / np.exp(a + 0 * lr)[..., None] * S, U, "rates:" + lab + ":image", rtol=1e-9, atol=1e-16, kind=kind, v=v)
                rec.close(gl, l0 - dl, "rates:" + lab + ":density", rtol=1e-9, atol=1e-9, kind=kind, v=v)
                rec.step(U.shape[0] * U.shape[1])
                rec.state(n, family, kind, v, lab)
            rec.outcome(np.round(np.asarray(l), 6).tobytes())
            rec.trace()

    elif family == "ray":
        name = case["name"]
        if name == "kw":
            class Kw(bijx.ScalarBijection):
                def fwd(self, x, *, c=0.5, **k):
                    return jnp.exp(c * x) + c

                def rev(self, y, *, c=0.5, **k):
                    return jnp.log(y - c) / c

                def log_jac(self, x, y, *, c=0.5, **k):
                    return jnp.log(c) + c * x

            base, ray, kws = Kw(), bijx.RayTransform(Kw()), [{}, {"c": 1.3}]
        else:
            ray = scal(name)
            base, kws = ray.bijection, [{}]
        for kw in kws:
            for b, e in [((), ()), ((2,), ()), ((), (3,)), ((2,), (3,))]:
                x = generic(b + e, 0.1, 1.5, salt=3)
                ld = generic(b, salt=4)
                if name == "vec" and e != (3,):
                    continue
                y, l = ray.forward(jnp.asarray(x), jnp.asarray(ld), **kw)
                yb, lb = base.forward(jnp.asarray(x), jnp.asarray(ld), **kw)
                z, _ = base.forward(jnp.zeros(b + e), jnp.zeros(b), **kw)
                rec.close(y, np.asarray(yb) - np.asarray(z), "ray:value", kw=kw)
                rec.close(l, lb, "ray:density", kw=kw)
                x2, l2 = ray.reverse(y, l, **kw)
                rec.close(x2, x, "ray:roundtrip", rtol=1e-6, atol=1e-7, kw=kw)
                rec.close(l2, ld, "ray:roundtrip-density", rtol=1e-6, atol=1e-7, kw=kw)
                z0, _ = ray.forward(jnp.zeros(b + e), jnp.zeros(b), **kw)
                rec.close(z0, np.zeros(b + e), "ray:fixes-zero", kw=kw)
                rec.step(3)
                rec.trace()
                rec.state("ray", name, b, e, str(kw))

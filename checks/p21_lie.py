"""P21: derivatives on matrix groups and algebra helpers."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P21"
RULE = (
    "Groups U(1), SU(2), SU(3), SO(3) x functions (words of degree 1..4 in u and its adjoint, plus non-polynomial ones) x points (centre "
    "elements, one-parameter points on every generator, generic) x every combination of argument position, auxiliary output, value request, "
    "side and batch shape; every derivative differentiated again (forward and reverse mode) with respect to what the element or the function depends on, and applied to one another.  Directions: the complete generator basis plus one combination (derivatives are linear in the direction, so the basis "
    "decides all of them; second derivatives: all basis elements).  Oracle: eighth-order central differences of the numpy version of the function "
    "along exp(tX) computed by scipy.  Contractions: all words of <=4 factors over matrix sizes {1,2,3} and batch shapes, against explicit sums."
)
ASSUMPTIONS = ["derivatives compared at 1e-6 relative (finite-difference oracle)",
               "contract is claimed for factors that share their batch rank or are unbatched"]

GROUPS = ("U1", "SU2", "SU3", "SO3")
FUNCS = ("lin", "imquad", "adj", "abs2", "cubic", "sin", "quartic")


def cases(tier):
    for g in GROUPS:
        yield "gens", dict(group=g)
        for f in FUNCS:
            yield "grad", dict(group=g, fn=f)
            yield "curve", dict(group=g, fn=f)
            yield "path", dict(group=g, fn=f)
            if tier != "quick" or f in ("imquad", "sin"):
                yield "nested", dict(group=g, fn=f)
    for n in (1, 2, 3, 4) + ((5,) if tier != "quick" else ()):
        yield "contract", dict(n=n)
    yield "helpers", dict()
    for n in ("SU2", "SU3"):
        yield "calls", dict(group=n)


def weight(f, c):
    return {"path": 4, "grad": 3, "curve": 2, "nested": 6}.get(f, 1)


def gens_of(group):
    from bijx import lie

    if group == "SO3":
        g = np.zeros((3, 3, 3))
        for k, (i, j) in enumerate([(0, 1), (0, 2), (1, 2)]):
            g[k, i, j], g[k, j, i] = 1, -1
        return g.astype(complex)
    return np.asarray({"U1": lie.U1_GEN, "SU2": lie.SU2_GEN, "SU3": lie.SU3_GEN}[group])


def make(fn, n, salt=0):
    """f(xp, u): real scalar function of one matrix."""
    A, B, C = (generic((n, n), -1, 1, salt=salt + 3 * k) + 1j * generic((n, n), -1, 1, salt=salt + 3 * k + 1) for k in range(3))

    def tr(xp, *m):
        r = m[0]
        for k in m[1:]:
            r = r @ k
        return xp.trace(r)

    def f(xp, u):
        d = u.conj().T
        if fn == "lin":
            return xp.real(tr(xp, A, u))
        if fn == "imquad":
            return xp.imag(tr(xp, A, u, B, u))
        if fn == "adj":
            return xp.real(tr(xp, A, u, B, d))
        if fn == "abs2":
            return xp.abs(xp.trace(u @ A)) ** 2
        if fn == "cubic":
            return xp.real(tr(xp, u, A)) ** 2 * xp.imag(tr(xp, C, u))
        if fn == "sin":
            return xp.sin(xp.real(tr(xp, A, u))) + xp.real(tr(xp, B, u))
        return xp.real(tr(xp, A, u, B, d, C, u, u))

    return f


# eighth-order stencils
C1 = {1: 4 / 5, 2: -1 / 5, 3: 4 / 105, 4: -1 / 280}
C2 = {0: -205 / 72, 1: 8 / 5, 2: -1 / 5, 3: 8 / 315, 4: -1 / 560}
H = 0.02


def d1(curve):
    return sum(c * (curve(k * H) - curve(-k * H)) for k, c in C1.items()) / H


def d2(curve):
    return (C2[0] * curve(0.0) + sum(C2[k] * (curve(k * H) + curve(-k * H)) for k in (1, 2, 3, 4))) / H**2


def points(group, G):
    from scipy.linalg import expm

    n = G.shape[-1]
    out = [np.eye(n, dtype=complex)]
    if group in ("U1", "SU2"):
        out.append(-np.eye(n, dtype=complex))
    if group == "SU3":
        out.append(np.exp(2j * np.pi / 3) * np.eye(3))
    out += [expm(0.7 * g) for g in G]
    out += [expm(np.einsum("i,ijk->jk", generic((len(G),), -1, 1, salt=s), G)) for s in (1, 2)]
    return out


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from scipy.linalg import expm

    from bijx import lie

    if family == "contract":
        return contract(case["n"], rec)
    if family == "helpers":
        return helpers(rec)
    if family == "calls":
        return calls(case["group"], rec)
    G = gens_of(case["group"])
    n = G.shape[-1]
    if family == "gens":
        rec.close(np.swapaxes(G.conj(), -1, -2), -G, "skew-hermitian")
        if case["group"].startswith("SU"):
            rec.expect(len(G) == n * n - 1, "dimension")
            rec.close(np.trace(G, axis1=-2, axis2=-1), np.zeros(len(G)), "traceless", atol=1e-6)
            gram = np.array([[np.asarray(lie.scalar_prod(jnp.asarray(a), jnp.asarray(b))) for a in G] for b in G])
            rec.close(gram, np.eye(len(G)), "orthonormal", atol=1e-6)
            for a in G:
                for b in G:
                    c = a @ b - b @ a
                    co = [np.trace(g.conj().T @ c).real / 2 for g in G]
                    rec.close(np.einsum("i,ijk->jk", co, G), c, "closed", atol=1e-6)
                    rec.step()
        rec.expect(np.linalg.matrix_rank(G.reshape(len(G), -1).view(float).reshape(len(G), -1)) == len(G), "independent")
        rec.state(case["group"])
        rec.trace()
        return

    f = make(case["fn"], n)
    h = make("lin", n, salt=20)
    P = points(case["group"], G)
    dirs = list(G) + [np.einsum("i,ijk->jk", generic((len(G),), -1, 1, salt=4), G)]

    if family == "grad":
        tan = [np.array([d1(lambda t, g=g, u=u: f(np, expm(t * g) @ u)) for g in dirs]) for u in P]
        want_gen = [np.einsum("i,ijk->jk", t[: len(G)], G) for t in tan]
        UP = jnp.asarray(np.stack(P))
        default = case["group"].startswith("SU")
        algs = [("gens", jnp.asarray(G))] + ([("default", None)] if default else [])
        for alg, aval in algs:
            for rv, aux in itertools.product((False, True), repeat=2):
                kw = dict(return_value=rv, has_aux=aux, **({} if aval is None else dict(algebra=aval)))

                def fa(u):
                    v = f(jnp, u)
                    return (v, dict(a=u @ u)) if aux else v

                out = jax.jit(jax.vmap(lie.grad(fa, **kw)))(UP)
                if rv:
                    val, gr = out
                    if aux:
                        val, au = val
                    rec.close(val, [f(np, u) for u in P], "grad:value", rtol=1e-7, rv=rv, aux=aux)
                elif aux:
                    gr, au = out
                else:
                    gr = out
                if aux:
                    rec.close(au["a"], np.stack([u @ u for u in P]), "grad:aux")
                for k, u in enumerate(P):
                    g = np.asarray(gr[k])
                    if alg == "gens":
                        rec.close(g, want_gen[k], "grad:generators", rtol=1e-6, atol=1e-7, point=k)
                    else:
                        rec.close(g, -g.conj().T, "grad:skew", atol=1e-9)
                        rec.close(np.trace(g), 0.0, "grad:traceless", atol=1e-9)
                        pr = [np.trace(g.conj().T @ X).real / 2 for X in dirs]
                        rec.close(pr, tan[k], "grad:riesz", rtol=1e-6, atol=1e-6, point=k)
                    rec.step()
                rec.state(case["group"], case["fn"], alg, rv, aux)
        # argument position, batch of matrices, keyword arguments
        kwa = {} if default else dict(algebra=jnp.asarray(G))
        x0 = jnp.asarray(0.3)
        u = jnp.asarray(P[-1])
        g0 = np.asarray(lie.grad(lambda u: f(jnp, u), **kwa)(u))
        rec.close(lie.grad(lambda s, u: s * f(jnp, u), argnum=1, **kwa)(x0, u), 0.3 * g0, "grad:argnum")
        rec.close(lie.grad(lambda u, s=1.0: s * f(jnp, u), **kwa)(u, s=2.0), 2.0 * g0, "grad:kwarg")
        two = jnp.stack([jnp.asarray(P[0]), u])
        for shp in ((2,), (1, 2), (2, 1)):
            b = two.reshape(*shp, n, n)

            def fb(v):
                v = v.reshape(2, n, n)
                return f(jnp, v[0]) + 2 * h(jnp, v[1])

            gg = np.asarray(lie.grad(fb, **kwa)(b)).reshape(2, n, n)
            rec.close(gg[0], lie.grad(lambda u: f(jnp, u), **kwa)(two[0]), "grad:batch0", atol=1e-9)
            rec.close(gg[1], 2 * np.asarray(lie.grad(lambda u: h(jnp, u), **kwa)(two[1])), "grad:batch1", atol=1e-9)
            rec.state("batch", shp)
        # value, gradient, laplacian
        val, gr, lap = jax.jit(jax.vmap(lambda u: lie.value_grad_divergence(lambda v: f(jnp, v), u, jnp.asarray(G))))(UP)
        for k, u in enumerate(P):
            rec.close(val[k], f(np, u), "vgd:value")
            rec.close(gr[k], want_gen[k], "vgd:grad", rtol=1e-6, atol=1e-6)
            rec.close(lap[k], sum(d2(lambda t, g=g: f(np, expm(t * g) @ u)) for g in G), "vgd:laplacian", rtol=1e-5, atol=1e-5, point=k)
            rec.step(3)
        rec.trace(len(P))
        return

    if family == "nested":
        # derivatives of derivatives: with respect to something the group element or the function depends on (forward and
        # reverse mode), and the derivatives applied to one another
        u0, u1 = P[-1], P[-2]
        X, Y = dirs[-1], dirs[0]
        jG, jX, jY = (jnp.asarray(v) for v in (G, X, Y))
        kwa = {} if case["group"].startswith("SU") else dict(algebra=jG)
        jexp = jax.scipy.linalg.expm
        elem = lambda a: jexp(a * jX) @ jnp.asarray(u0)  # noqa: E731
        re = lambda v: jnp.stack([jnp.real(v), jnp.imag(v)]) if jnp.iscomplexobj(v) else v  # noqa: E731
        flat = lambda t: jnp.concatenate([jnp.ravel(re(v)) for v in jax.tree.leaves(t)])  # noqa: E731
        fp = lambda s, u: s * f(jnp, u) + jnp.sin(s) * h(jnp, u) ** 2  # noqa: E731
        V = generic((len(G),), -1, 1, salt=12)
        vec = lambda s, u: jnp.asarray(V) * fp(s, u) + jnp.sin(jnp.asarray(V) * s * h(jnp, u))  # noqa: E731
        Q = {
            "grad": lambda s, a: flat(lie.grad(lambda u: fp(s, u), **kwa)(elem(a))),
            "value-grad": lambda s, a: flat(lie.grad(lambda u: fp(s, u), return_value=True, **kwa)(elem(a))),
            "curve": lambda s, a: flat(lie.curve_grad(lambda u: fp(s, u), jY)(elem(a))),
            "curve-left": lambda s, a: flat(lie.curve_grad(lambda u: fp(s, u), jY, left=True)(elem(a))),
            "vgd": lambda s, a: flat(lie.value_grad_divergence(lambda u: fp(s, u), elem(a), jG)),
            "path": lambda s, a: flat(lie.path_grad(lambda t: fp(s, t[0]) * h(jnp, t[1]), jG, [elem(a), jnp.asarray(u1)])),
            "path2": lambda s, a: flat(lie.path_grad2(lambda t: fp(s, t[0]) * h(jnp, t[1]), jG, [elem(a), elem(2 * a)])),
            "div": lambda s, a: flat(lie.path_div(lambda t: vec(s, t[0])[None], jG, elem(a)[None])),
        }
        s0, a0 = 0.7, 0.4
        for name, q in Q.items():
            qj = jax.jit(q)
            wa = d1(lambda t: np.asarray(qj(s0, a0 + t)))
            ws = d1(lambda t: np.asarray(qj(s0 + t, a0)))
            for mode, jac in (("forward", jax.jacfwd), ("reverse", jax.jacrev)):
                gs, ga = jax.jit(jac(q, argnums=(0, 1)))(s0, a0)
                rec.close(ga, wa, f"nested:{name}:element", rtol=1e-6, atol=1e-6, mode=mode)
                rec.close(gs, ws, f"nested:{name}:parameter", rtol=1e-6, atol=1e-6, mode=mode)
                rec.step(2)
                rec.state(case["group"], case["fn"], name, mode)
            rec.outcome(np.round(wa, 6).tobytes())
            rec.trace()
        # D_X D_Y f and grad (D_Y f) against nested central differences of the function along the two curves
        dY = lambda v, lf: d1(lambda t: f(np, v @ expm(t * Y) if lf else expm(t * Y) @ v))  # noqa: E731
        for lx, ly in itertools.product((False, True), repeat=2):
            inner = lie.curve_grad(lambda u: f(jnp, u), jY, left=ly)
            got = jax.jit(lie.curve_grad(inner, jX, left=lx))(jnp.asarray(u0))
            want = d1(lambda t: dY(u0 @ expm(t * X) if lx else expm(t * X) @ u0, ly))
            rec.close(got, want, "nested:curve-curve", rtol=1e-6, atol=1e-6, lx=lx, ly=ly)
            if not lx:
                gg = np.asarray(jax.jit(lie.grad(inner, algebra=jG))(jnp.asarray(u0)))
                co = [d1(lambda t, g=g: dY(expm(t * g) @ u0, ly)) for g in G]
                rec.close(gg, np.einsum("i,ijk->jk", co, G), "nested:grad-curve", rtol=1e-6, atol=1e-6, ly=ly)
            rec.step()
            rec.state(case["group"], case["fn"], lx, ly)
        return

    if family == "curve":
        UP = jnp.asarray(np.stack(P))
        X = jnp.asarray(np.stack(dirs))
        wants = {}
        for left in (False, True):
            wants[left] = np.array([[d1(lambda t: f(np, u @ expm(t * g) if left else expm(t * g) @ u)) for g in dirs] for u in P])
        val = np.array([f(np, u) for u in P])
        sq = np.stack([u @ u for u in P])
        for left, rv, aux, pos in itertools.product((False, True), (False, True), (False, True), (0, 1)):
            def fa(*a, k=1.0):
                u = a[pos]
                s = a[1 - pos]
                v = k * s * f(jnp, u)
                return (v, u @ u) if aux else v

            def one(u, d):
                a = (u, 2.0) if pos == 0 else (2.0, u)
                return lie.curve_grad(fa, d, argnum=pos, has_aux=aux, return_value=rv, left=left)(*a, k=0.5)

            out = jax.jit(jax.vmap(jax.vmap(one, (None, 0)), (0, None)))(UP, X)
            if rv:
                if aux:
                    v, t, au = out
                else:
                    v, t = out
                rec.close(v, np.repeat(val[:, None], len(dirs), 1), "curve:value", atol=1e-7)
            elif aux:
                t, au = out
            else:
                t = out
            rec.close(t, wants[left], "curve:derivative", rtol=1e-6, atol=1e-6, left=left, rv=rv, aux=aux, pos=pos)
            if aux:
                rec.close(au[:, 0], sq, "curve:aux")
            rec.step(len(P) * len(dirs))
            rec.state(case["group"], case["fn"], left, rv, aux, pos)
        # a whole array of group elements is moved at once, along one direction or along one direction per element
        two = np.stack([P[1], P[-1]])
        for left, lead, shared in itertools.product((False, True), ((2,), (1, 2), (2, 1)), (True, False)):
            d = np.asarray(dirs[0]) if shared else np.stack([dirs[0], dirs[-1]]).reshape(lead + (n, n))
            da = [dirs[0], dirs[0] if shared else dirs[-1]]

            def fb(b):
                v = b.reshape((2, n, n))
                return f(jnp, v[0]) * h(jnp, v[1]) + 0.3 * f(jnp, v[1])

            def moved(t):
                v = [u @ expm(t * g) if left else expm(t * g) @ u for u, g in zip(two, da)]
                return f(np, v[0]) * h(np, v[1]) + 0.3 * f(np, v[1])

            got = lie.curve_grad(fb, jnp.asarray(d), left=left)(jnp.asarray(two.reshape(lead + (n, n))))
            rec.close(got, d1(moved), "curve:batch", rtol=1e-6, atol=1e-6, left=left, lead=lead, shared=shared)
            rec.step()
            rec.state("curve-batch", case["group"], left, lead, shared)
        # defaults of unpassed arguments are used
        rec.close(lie.curve_grad(lambda u, k=3.0: k * f(jnp, u), X[0])(UP[1]), 3 * wants[False][1, 0], "curve:default", rtol=1e-6, atol=1e-6)
        rec.trace(len(P))
        return

    # path_*: several matrices at once
    u = [P[-1], P[-2], P[min(3, len(P) - 1)]]
    for kind in ("single", "list", "dict", "batched", "mixed"):
        def joint(xp, a, b, c):
            return f(xp, a) + xp.real(xp.trace(a @ b.conj().T @ c)) * 0.7 + h(xp, b) * h(xp, c)

        if kind == "single":
            tree = u[0]
            fun = lambda xp, t: f(xp, t)  # noqa: E731
            at = {(): u[0]}
            ev = lambda m: f(np, m[()])  # noqa: E731
            idx = [()]
        else:
            idx = [0, 1, 2]
            at = dict(enumerate(u))
            ev = lambda m: joint(np, m[0], m[1], m[2])  # noqa: E731
            if kind == "list":
                tree = list(u)
                fun = lambda xp, t: joint(xp, *t)  # noqa: E731
            elif kind == "dict":
                tree = {"z": u[0], "a": u[1], "m": u[2]}
                fun = lambda xp, t: joint(xp, t["z"], t["a"], t["m"])  # noqa: E731
            elif kind == "batched":
                tree = np.stack(u).reshape(1, 3, n, n)
                fun = lambda xp, t: joint(xp, t[0, 0], t[0, 1], t[0, 2])  # noqa: E731
            else:
                tree = (np.stack(u[:2]), {"k": u[2]})
                fun = lambda xp, t: joint(xp, t[0][0], t[0][1], t[1]["k"])  # noqa: E731
        jt = jax.tree.map(jnp.asarray, tree)

        def entry(t, i):
            if kind == "single":
                return t
            if kind == "list":
                return t[i]
            if kind == "dict":
                return t[["z", "a", "m"][i]]
            if kind == "batched":
                return t[0, i]
            return t[0][i] if i < 2 else t[1]["k"]

        v1, j1 = jax.jit(lambda t: lie.path_grad(lambda s: fun(jnp, s), jnp.asarray(G), t))(jt)
        v2, j2, jj = jax.jit(lambda t: lie.path_grad2(lambda s: fun(jnp, s), jnp.asarray(G), t))(jt)
        rec.close(v1, ev(at), "path:value")
        rec.close(v2, ev(at), "path2:value")
        # array-valued functions: derivative axes follow the axes of the value
        W1, W2 = generic((2, 3), -1, 1, salt=8) + 1j * generic((2, 3), -1, 1, salt=9), generic((2, 3), -1, 1, salt=10)
        arr = lambda xp, v: W1 * v + W2 * xp.sin(v)  # noqa: E731
        va, ja = jax.jit(lambda t: lie.path_grad(lambda s: arr(jnp, fun(jnp, s)), jnp.asarray(G), t))(jt)
        va2, ja2, jja = jax.jit(lambda t: lie.path_grad2(lambda s: arr(jnp, fun(jnp, s)), jnp.asarray(G), t))(jt)
        rec.close(va, arr(np, ev(at)), "path:array-value")
        rec.close(va2, arr(np, ev(at)), "path2:array-value")

        def aentry(t, i):
            if kind == "batched":
                return np.asarray(t)[:, :, 0, i]
            if kind == "mixed":
                return np.asarray(t[0])[:, :, i] if i < 2 else t[1]["k"]
            return entry(t, i)
        for i in idx:
            def moved(t, g, i=i):
                m = dict(at)
                m[i] = expm(t * g) @ m[i]
                return ev(m)

            w1 = [d1(lambda t, g=g: moved(t, g)) for g in G]
            w2 = [d2(lambda t, g=g: moved(t, g)) for g in G]
            rec.close(entry(j1, i), w1, "path:grad", rtol=1e-6, atol=1e-6, kind=kind, i=i)
            rec.close(entry(j2, i), w1, "path2:grad", rtol=1e-6, atol=1e-6, kind=kind, i=i)
            rec.close(entry(jj, i), w2, "path2:second", rtol=1e-5, atol=1e-5, kind=kind, i=i)
            wa1 = np.stack([d1(lambda t, g=g: arr(np, moved(t, g))) for g in G], -1)
            wa2 = np.stack([d2(lambda t, g=g: arr(np, moved(t, g))) for g in G], -1)
            rec.close(aentry(ja, i), wa1, "path:array-grad", rtol=1e-6, atol=1e-6, kind=kind, i=i)
            rec.close(aentry(ja2, i), wa1, "path2:array-grad", rtol=1e-6, atol=1e-6, kind=kind, i=i)
            rec.close(aentry(jja, i), wa2, "path2:array-second", rtol=1e-5, atol=1e-5, kind=kind, i=i)
            rec.step(3 * len(G))
            rec.state(case["group"], case["fn"], kind, i)
        rec.trace()
        # divergence of a vector field given in generator components
        if kind in ("single", "batched"):
            k = 1 if kind == "single" else 3
            W = generic((k * len(G),), 0.3, 1.3, salt=6)

            def comp(xp, t):
                ms = [t] if kind == "single" else [t[0, 0], t[0, 1], t[0, 2]]
                base = fun(xp, t)
                return xp.stack([W[a * len(G) + b] * (make("imquad", n, salt=5 + b)(xp, ms[a]) + base * h(xp, ms[a]))
                                 for a in range(k) for b in range(len(G))])

            out, div = lie.path_div(lambda t: comp(jnp, t).reshape(t.shape[:-2] + (len(G),)), jnp.asarray(G), jt)
            rec.close(out, comp(np, np.asarray(tree)).reshape(-1, len(G)), "div:value")
            tot = 0.0
            for a in range(k):
                for b in range(len(G)):
                    def mv(t):
                        m = np.array(tree, dtype=complex)
                        if kind == "single":
                            m = expm(t * G[b]) @ m
                        else:
                            m[0, a] = expm(t * G[b]) @ m[0, a]
                        return comp(np, m)[a * len(G) + b]

                    tot += d1(mv)
            rec.close(div, tot, "div:divergence", rtol=1e-6, atol=1e-6, kind=kind)
            rec.step()


def contract(n, rec):
    import jax.numpy as jnp
    from bijx import lie

    batches = [(), (2,), (2, 3)] if n <= 3 else [(), (2,)]
    for dims in itertools.product((1, 2, 3), repeat=n + 1):
        if n >= 4 and sum(dims) % 2:
            continue
        for bt in batches:
            for mask in itertools.product((0, 1), repeat=n) if bt else [(0,) * n]:
                if bt and (not any(mask) or (n >= 3 and 0 < sum(mask) < n and len(bt) > 1)):
                    continue
                fs = []
                for k in range(n):
                    s = (bt if mask[k] else ()) + (dims[k], dims[k + 1])
                    fs.append(generic(s, salt=k) + 1j * generic(s, salt=k + 5))
                want = fs[0]
                for k in range(1, n):
                    want = np.matmul(want, fs[k])
                rec.step()
                rec.state(dims, bt, mask)
                # traced first: cheaper than compiling every shape twice
                if dims[0] == dims[-1]:
                    rec.close(lie.contract(*fs_np(fs), trace=True), np.trace(want, axis1=-2, axis2=-1), "contract:trace", dims=dims, bt=bt, mask=mask)
                if n <= 2 or len(set(dims)) > 1:
                    rec.close(lie.contract(*fs_np(fs)), want, "contract", dims=dims, bt=bt, mask=mask)
    # the index notation alone: evaluated by an independent implementation of the notation
    for ranks in itertools.product((2, 3, 4), repeat=n):
        lead = (2, 3)
        fs = [generic(lead[: r - 2] + (2, 2), salt=k) for k, r in enumerate(ranks)]
        for tr in (False, True):
            ins, out = lie.contract(*fs, trace=tr, return_einsum_indices=True)
            names = {}
            code = lambda words: "".join(names.setdefault(w, chr(97 + len(names))) for w in words.split())  # noqa: E731
            spec = ",".join(code(w) for w in ins.split(",")) + "->" + code(out)
            rec.expect(len(ins.split(",")) == n, "contract:indices-count", ranks=ranks)
            got = np.einsum(spec, *fs)
            rec.close(lie.contract(*fs, trace=tr), got, "contract:indices", ranks=ranks, trace=tr)
            rec.step()
            rec.state("notation", ranks, tr)
    rec.trace()


def fs_np(fs):
    return fs


def helpers(rec):
    import jax.numpy as jnp
    from bijx import lie

    for shp in [(1, 1), (2, 2), (2, 3), (3, 2, 2), (2, 3, 1, 2), (0, 2, 2)]:
        a = generic(shp, salt=1) + 1j * generic(shp, salt=2)
        b = generic(shp, salt=3) + 1j * generic(shp, salt=4)
        rec.close(lie.adjoint(jnp.asarray(a)), np.conj(np.swapaxes(a, -1, -2)), "adjoint")
        rec.close(lie.adjoint(lie.adjoint(jnp.asarray(a))), a, "adjoint:involution")
        rec.close(lie.adjoint(jnp.asarray(a.real)), np.swapaxes(a.real, -1, -2), "adjoint:real")
        w = np.array([np.trace(x.conj().T @ y) / 2 for x, y in zip(a.reshape(-1, *shp[-2:]), b.reshape(-1, *shp[-2:]))]).reshape(shp[:-2])
        rec.close(lie.scalar_prod(jnp.asarray(a), jnp.asarray(b)), w, "scalar_prod")
        rec.state(shp)
        rec.step(3)
    for n in (1, 2, 3, 4):
        for s in range(3):
            a = generic((2, n, n), salt=s) + 1j * generic((2, n, n), salt=s + 3)
            g, _ = np.linalg.qr(generic((2, n, n), salt=s + 6) + 1j * generic((2, n, n), salt=s + 9))
            p = np.asarray(lie.skew_traceless_cot(jnp.asarray(a), jnp.asarray(g)))
            rec.close(p, -np.conj(np.swapaxes(p, -1, -2)), "cot:skew")
            rec.close(np.trace(p, axis1=-2, axis2=-1), np.zeros(2), "cot:traceless", atol=1e-12)
            m = g @ np.swapaxes(a, -1, -2)
            m = np.conj(np.swapaxes(m, -1, -2)) - m
            m = m - np.trace(m, axis1=-2, axis2=-1)[:, None, None] * np.eye(n) / n
            rec.close(p, m, "cot:projection")
            rec.state(n, s)
            rec.step()
    rec.trace()


def calls(group, rec):
    """every way of passing the further arguments of a function x derivative helper x flags"""
    import jax.numpy as jnp
    from scipy.linalg import expm

    from bijx import lie

    G = gens_of(group)
    n = G.shape[-1]
    u0 = expm(np.einsum("i,ijk->jk", generic((len(G),), -1, 1, salt=1), G))
    A = generic((n, n), salt=3) + 1j * generic((n, n), salt=4)
    X = np.einsum("i,ijk->jk", generic((len(G),), -1, 1, salt=2), G)

    def base(xp, u, s, t):
        return s * xp.real(xp.trace(A @ u)) + t * xp.imag(xp.trace(u @ A @ u)) ** 2

    forms = {
        "pos": (lambda u, s, t: base(jnp, u, s, t), 0),
        "default": (lambda u, s=0.7, t=-0.4: base(jnp, u, s, t), 0),
        "kwonly": (lambda u, *, s=0.7, t=-0.4: base(jnp, u, s, t), 0),
        "varkw": (lambda u, s=0.7, **kw: base(jnp, u, s, kw.get("t", -0.4)), 0),
        "varargs": (lambda u, *r, t=-0.4: base(jnp, u, r[0] if r else 0.7, t), 0),
        "middle": (lambda s, u, t=-0.4: base(jnp, u, s, t), 1),
        "last": (lambda s, t, u: base(jnp, u, s, t), 2),
    }
    # form -> list of (arguments before, arguments after, keywords, s, t)
    uses = {
        "pos": [((), (1.3, 0.6), {}, 1.3, 0.6), ((), (1.3,), dict(t=0.6), 1.3, 0.6), ((), (), dict(t=0.6, s=1.3), 1.3, 0.6)],
        "default": [((), (), {}, 0.7, -0.4), ((), (1.3,), {}, 1.3, -0.4), ((), (), dict(s=1.3), 1.3, -0.4), ((), (), dict(t=0.6), 0.7, 0.6), ((), (1.3,), dict(t=0.6), 1.3, 0.6)],
        "kwonly": [((), (), {}, 0.7, -0.4), ((), (), dict(s=1.3), 1.3, -0.4), ((), (), dict(t=0.6, s=1.3), 1.3, 0.6)],
        "varkw": [((), (), {}, 0.7, -0.4), ((), (1.3,), dict(t=0.6), 1.3, 0.6), ((), (), dict(t=0.6, s=1.3), 1.3, 0.6), ((), (), dict(t=0.6, other=3.0), 0.7, 0.6)],
        "varargs": [((), (), {}, 0.7, -0.4), ((), (1.3,), {}, 1.3, -0.4), ((), (1.3,), dict(t=0.6), 1.3, 0.6)],
        "middle": [((1.3,), (), {}, 1.3, -0.4), ((1.3,), (0.6,), {}, 1.3, 0.6), ((1.3,), (), dict(t=0.6), 1.3, 0.6)],
        "last": [((1.3, 0.6), (), {}, 1.3, 0.6)],
    }
    for name, (f, pos) in forms.items():
        for pre, post, kw, s, t in uses[name]:
            args = (*pre, jnp.asarray(u0), *post)
            val = base(np, u0, s, t)
            for aux in (False, True):
                fn = (lambda *a, **k: (f(*a, **k), dict(aux=f(*a, **k)))) if aux else f
                if aux:
                    # keeps the signature visible
                    import functools

                    fn = functools.wraps(f)(fn)
                for rv in (False, True):
                    for left in (False, True):
                        want = d1(lambda q: base(np, u0 @ expm(q * X) if left else expm(q * X) @ u0, s, t))
                        out = lie.curve_grad(fn, jnp.asarray(X), argnum=pos, has_aux=aux, return_value=rv, left=left)(*args, **kw)
                        if rv:
                            rec.close(out[0], val, "calls:curve-value", form=name)
                            got = out[1]
                        else:
                            got = out[0] if aux else out
                        rec.close(got, want, "calls:curve", rtol=1e-7, atol=1e-7, form=name, kw=kw, left=left, aux=aux, rv=rv)
                        rec.step()
                    want = sum(d1(lambda q: base(np, expm(q * g) @ u0, s, t)) * g for g in G)
                    out = lie.grad(fn, argnum=pos, has_aux=aux, return_value=rv)(*args, **kw)
                    if rv:
                        v, got = out
                        rec.close(v[0] if aux else v, val, "calls:grad-value", form=name)
                    else:
                        got = out[0] if aux else out
                    rec.close(got, want, "calls:grad", rtol=1e-7, atol=1e-7, form=name, kw=kw, aux=aux, rv=rv)
                    rec.state(group, name, pre, post, str(kw), aux, rv)
        rec.trace()

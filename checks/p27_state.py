"""P27: transparency of module state."""
import copy
import itertools

import numpy as np

from mc.lib import generic, prod

PROPERTY = "P27"
RULE = (
    "Every module kind of the table x all words over the state operations {split/merge, filtered split/merge, clone, tree map, deep copy, self update} up to "
    "the depth bound: the compiled evaluation of the resulting (structure, state) pair equals the eager evaluation of the original, without a new "
    "compilation (equal structure).  Every single trainable entry of every module is edited by each route (in place, update, merge, compiled state argument, "
    "stacked state under vmap): all agree, take effect, are undone exactly, and their first order effect is the state gradient.  The trainable and constant "
    "entries of every kind are those of the constructor table, for every argument x every way of specifying it.  All chain words with frozen, constant and "
    "inverted members up to the length bound: filters select exactly the frozen entries, gradients and updates touch exactly the others.  All set "
    "partitions of shared parameters.  All kinds of parameter specifications.  All edit/read histories of transformed parameters.  All filters of the noise helper."
)
ASSUMPTIONS = ["modules with deterministic evaluation (samplers with explicit key)"]


def kinds():
    """name -> (builder, probe kind, event shape, entries without first order effect)"""
    import bijx
    import jax
    import jax.numpy as jnp
    from bijx import cg
    from flax import nnx

    A = jnp.asarray
    g = lambda s, lo=-1.0, hi=1.0, salt=0: A(generic(s, lo, hi, salt))
    R = lambda s=0: nnx.Rngs(s)
    from checks import p06_coupling, p08_cnf

    def coupling(split):
        mask = bijx.checker_mask((4,), True)
        t = bijx.ModuleReconstructor(bijx.Chain(bijx.AffineLinear(A(0.1), A(0.2)), bijx.Sinh(), bijx.Shift(A(0.3))))
        P = t.params_total_size

        class Net(nnx.Module):
            def __init__(self):
                self.lin = nnx.Linear(2 if split else 4, (2 if split else 4) * P, rngs=R(3))

            def __call__(self, x, **kw):
                return self.lin(x).reshape(*x.shape[:-1], 2 if split else 4, P)

        return bijx.GeneralCouplingLayer(Net(), mask, t, bijection_event_rank=0, split=split)

    def radcond(n):
        s = bijx.Power(A(1.4))

        class C(nnx.Module):
            def __init__(self):
                self.w = nnx.Param(g((n, 1), 0.5, 1))

            def __call__(self, d, **kw):
                return 1.2 + jnp.tanh(d @ self.w[...])

        return bijx.RadialConditional(s, C(), center=g((n,)), scale=g((n,), -0.3, 0.3, 2))

    def convvf(**k):
        from functools import partial

        from bijx.nn import embeddings, features

        return bijx.ConvVF.build((3, 3), time_kernel=embeddings.KernelGauss(3), time_kernel_reduced=2,
                                 features=(partial(features.FourierFeatures, 3), partial(features.PolynomialFeatures, (1,))), features_reduced=2, rngs=R(4), **k)

    sc = dict(
        identity=lambda: bijx.Chain(),
        affine=lambda: bijx.AffineLinear(g((3,)), g((3,), salt=2)), scaling=lambda: bijx.Scaling(g((3,), 0.5, 2)), shift=lambda: bijx.Shift(g((3,))),
        power=lambda: bijx.Power(g((3,), 0.5, 2)), gausscdf=lambda: bijx.GaussianCDF(g((3,)), g((3,), salt=4)), beta=lambda: bijx.BetaStretch(g((3,))),
        cubic=lambda: bijx.CubicRational(g((3,)), g((3,), salt=1), g((3,), salt=2)),
        sinhconj=lambda: bijx.SinhConjugation(*[g((3,), salt=i) for i in range(5)]),
        cubicconj=lambda: bijx.CubicConjugation(*[g((3,), salt=i) for i in range(4)]),
        rqs=lambda: bijx.MonotoneRQSpline(3, (3,), rngs=R()), const=lambda: bijx.Scaling(bijx.Const(g((3,), 0.5, 2))),
        notransform=lambda: bijx.AffineLinear(g((3,), 0.5, 2), g((3,)), transform_scale=None, transform_shift=jnp.sin),
        chain=lambda: bijx.Chain(bijx.AffineLinear(g((3,)), g((3,), salt=2)), bijx.Sinh(), bijx.Scaling(g((3,), 0.5, 2))),
        inverse=lambda: bijx.Inverse(bijx.Chain(bijx.AffineLinear(g((3,)), g((3,), salt=2)), bijx.Sinh())),
        condinv=lambda: bijx.CondInverse(bijx.AffineLinear(g((3,)), g((3,), salt=2)), True),
        frozen=lambda: bijx.Chain(bijx.Frozen(bijx.AffineLinear(g((3,)), g((3,), salt=2))), bijx.Scaling(g((3,), 0.5, 2))),
        scan=lambda: bijx.ScanChain(nnx.vmap(lambda i: bijx.AffineLinear(0.1 * i + jnp.zeros(3), 0.2 * i + jnp.zeros(3)))(jnp.arange(3.0))),
        partial_=lambda: bijx.Partial(bijx.AffineLinear(g((3,)), g((3,), salt=2))),
        expand=lambda: bijx.Chain(bijx.ExpandDims(), bijx.AffineLinear(g((3, 1)), g((3, 1))), bijx.SqueezeDims()),
        reshape=lambda: bijx.Chain(bijx.Reshape((3,), (3, 1)), bijx.AffineLinear(g((3, 1)), g((3, 1))), bijx.Reshape((3, 1), (3,))),
        ray=lambda: bijx.RayTransform(bijx.Power(g((3,), 0.5, 2))),
        radial=lambda: bijx.Radial(bijx.Power(A(1.4)), center=g((3,)), scale=g((3,), -0.3, 0.3)),
        radcond=lambda: radcond(3),
        diffrax=lambda: bijx.ContFlowDiffrax(cnf(), bijx.DiffraxConfig(dt=0.25)), rk4=lambda: bijx.ContFlowRK4(cnf(), steps=2),
        cgflow=lambda: bijx.ContFlowCG(cnf(), cg.Euclidean(), tableau=cg.CG2, steps=2),
        autojac=lambda: bijx.ContFlowRK4(bijx.AutoJacVF(Vel(), event_dim=1), steps=2),
    )

    def cnf():
        return p08_cnf.field(nnx, jnp)

    class Vel(nnx.Module):
        def __init__(self):
            self.w = nnx.Param(g((3, 3)))

        def __call__(self, t, x, **kw):
            return jnp.tanh(x @ self.w[...]) * (1 + t)

    T = {}
    for k, b in sc.items():
        T[k] = (b, "bij", (2,) if k in ("diffrax", "rk4", "cgflow") else (3,))
    T["coupling"] = (lambda: coupling(True), "bij", (4,))
    T["coupling-mult"] = (lambda: coupling(False), "bij", (4,))
    T["spectrum"] = (lambda: bijx.SpectrumScaling(g((2, 3), 0.5, 2), shape_info=None) if False else bijx.FreeTheoryScaling(nnx.Param(A(1.3)), (2, 4)), "bij", (2, 4))
    T["freeconst"] = (lambda: bijx.FreeTheoryScaling(1.3, (2, 4)), "bij", (2, 4))
    T["spectral"] = (lambda: bijx.SpectrumScaling(nnx.Param(g((2, 3), 0.5, 2))), "bij", (2, 4))
    T["tofourier"] = (lambda: bijx.ToFourierData((2, 4), rep=bijx.fourier.FFTRep.comp_real, unpack=True), "bij", (2, 4))
    T["convcnf"] = (lambda: bijx.ContFlowRK4(convvf(), steps=1), "bij", (3, 3))
    T["convvf"] = (lambda: convvf(use_bias=True), "vf", (3, 3))
    T["normal"] = (lambda: bijx.IndependentNormal((3,), rngs=R(1)), "dist", (3,))
    T["uniform"] = (lambda: bijx.IndependentUniform((3,), rngs=R(1)), "dist", (3,))
    T["mvn"] = (lambda: bijx.MultivariateNormal(g((3,)), g((6,), 0.5, 2)), "dist", (3,))
    T["mvn-cov"] = (lambda: bijx.MultivariateNormal.given_cov(g((3,)), jnp.eye(3) + 0.2), "dist", (3,))
    T["diag"] = (lambda: bijx.DiagonalNormal(g((3,)), g((3,), 0.5, 2)), "dist", (3,))
    T["mixture"] = (lambda: bijx.MixtureStack(bijx.DiagonalNormal(g((2, 3)), g((2, 3), 0.5, 2)), g((2,))), "dist", (3,))
    T["gmm"] = (lambda: bijx.GaussianMixture(g((2, 3)), jnp.stack([jnp.eye(3), jnp.eye(3) + 0.3]), g((2,))), "dist", (3,))
    T["transformed"] = (lambda: bijx.Transformed(bijx.DiagonalNormal(g((3,)), g((3,), 0.5, 2)), bijx.AffineLinear(g((3,)), g((3,)))), "dist", (3,))
    T["haar"] = (lambda: bijx.lie.HaarDistribution(2) if False else bijx.lie.HaarDistribution(n=2), "dist", (2, 2))
    nn = bijx.nn
    T["mlp"] = (lambda: nn.nets.MLP(3, 2, [4], rngs=R()), "net", (3,))
    T["resnet"] = (lambda: nn.nets.ResNet(3, 2, 4, 2, rngs=R()), "net", (3,))
    T["convnet"] = (lambda: nn.nets.ConvNet(1, 1, (3, 3), [2], rngs=R()), "net", (3, 3, 1))
    T["convsym"] = (lambda: nn.conv.ConvSym(1, 2, (3, 3), nn.conv.kernel_d4, rngs=R()), "net", (3, 3, 1))
    T["gauss"] = (lambda: nn.embeddings.KernelGauss(4), "net", ())
    T["kfourier"] = (lambda: nn.embeddings.KernelFourier(4), "net", ())
    T["kreduced"] = (lambda: nn.embeddings.KernelReduced(nn.embeddings.KernelGauss(4), 2, rngs=R()), "net", ())
    T["ffeat"] = (lambda: nn.features.FourierFeatures(3, 2, rngs=R()), "feat", (1, 2))
    T["pfeat"] = (lambda: nn.features.PolynomialFeatures((1, 2), 2, rngs=R()), "feat", (1, 2))
    return T


def probe(kind, m, x):
    """Everything observable about a module, as a list of arrays."""
    import jax
    import jax.numpy as jnp

    if kind == "bij":
        y, l = m.forward(x, jnp.zeros(()) + 0.1)
        if not isinstance(y, jax.Array):
            y = y.data
            return [y, l]
        z, r = m.reverse(y, l)
        # the inverse at another point so that the reverse direction is not trivially the identity
        w, q = m.reverse(0.9 * y, l)
        return [y, l, z, r, w, q]
    if kind == "dist":
        s, l = m.sample((2,), rng=jax.random.key(3))
        return [s, l, m.log_density(x if s.ndim == x.ndim + 1 and not jnp.iscomplexobj(s) else s)]
    if kind == "vf":
        return list(m(0.3, x))
    if kind == "feat":
        return list(m(x, jnp.ones((x.shape[-1], m.out_channel_size))))
    return [m(x)]


OPS = "SFCTU"


def apply_op(op, m):
    import jax
    from flax import nnx

    if op == "S":
        gd, st = nnx.split(m)
        return nnx.merge(gd, st)
    if op == "F":
        gd, p, r = nnx.split(m, nnx.Param, ...)
        return nnx.merge(gd, r, p)
    if op == "C":
        return nnx.clone(m)
    if op == "T":
        return jax.tree.map(lambda v: v, m)
    if op == "D":
        return copy.deepcopy(m)
    if op == "U":
        nnx.update(m, jax.tree.map(lambda v: v, nnx.state(m)))
        return m


# constructor -> trainable entries (number of real entries), by kind
TRAINABLE = dict(
    identity=0, affine=6, scaling=3, shift=3, power=3, gausscdf=6, beta=3, cubic=9, sinhconj=15, cubicconj=12, rqs=3 * 8, const=0, notransform=6, chain=9,
    inverse=6, condinv=6, frozen=9, scan=18, partial_=6, expand=6, reshape=6, ray=3, radial=7, diffrax=4, rk4=4, cgflow=4, autojac=9, spectrum=1, freeconst=0,
    spectral=6, tofourier=0, normal=0, uniform=0, mvn=9, diag=6, haar=0, mlp=3 * 4 + 4 + 8 + 2, resnet=16 + 2 * 20 + 10, convnet=9 * 2 + 2 + 18 + 1,
    pfeat=0,
)


def cases(tier):
    names = [
        "identity", "affine", "scaling", "shift", "power", "gausscdf", "beta", "cubic", "sinhconj", "cubicconj", "rqs", "const", "notransform", "chain",
        "inverse", "condinv", "frozen", "scan", "partial_", "expand", "reshape", "ray", "radial", "radcond", "diffrax", "rk4", "cgflow", "autojac", "coupling",
        "coupling-mult", "spectrum", "freeconst", "spectral", "tofourier", "convcnf", "convvf", "normal", "uniform", "mvn", "mvn-cov", "diag", "mixture", "gmm",
        "transformed", "haar", "mlp", "resnet", "convnet", "convsym", "gauss", "kfourier", "kreduced", "ffeat", "pfeat",
    ]
    for n in names:
        if n == "convcnf" and tier == "quick":
            continue
        yield "kind", dict(name=n, depth=2 if tier == "quick" else 3)
    L = 2 if tier == "quick" else 3
    for n in range(1, L + 1):
        for w in itertools.product("ACFGI", repeat=n):
            yield "frozen", dict(word="".join(w))
    for n in range(1, 4 if tier == "quick" else 5):
        for p in partitions(n):
            yield "shared", dict(part=p)
    yield "wrap", dict()
    for n in ARGS:
        yield "args", dict(name=n)
    yield "tparam", dict(depth=3 if tier == "quick" else 5)
    yield "noise", dict()
    yield "fourierdata", dict(shapes=[(2,), (3,), (2, 3), (4, 4)])


def weight(f, c):
    heavy = {"diffrax": 9, "rk4": 5, "cgflow": 6, "convcnf": 9, "autojac": 5, "gmm": 6, "transformed": 3, "radcond": 4}
    return heavy.get(c.get("name"), 2) if f == "kind" else 1


def partitions(n):
    if n == 0:
        return [[]]
    out = []
    for p in partitions(n - 1):
        k = max(p) + 1 if p else 0
        out += [p + [i] for i in range(k + 1)]
    return out


def run_case(family, case, rec):
    globals()["run_" + family](rec, **case)


def params_of(m):
    """[(path, variable)] of the trainable variables, each object once, in state order."""
    from flax import nnx

    return list(nnx.to_flat_state(nnx.state(m, nnx.Param)))


def run_kind(rec, name, depth):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    build, kind, es = kinds()[name]
    x = jnp.asarray(generic(es, 0.2, 0.8)) if es else jnp.asarray(0.3)
    m = build()
    base = [np.asarray(v) for v in probe(kind, m, x)]
    n_comp = [0]

    def body(gd, st):
        n_comp[0] += 1
        return probe(kind, nnx.merge(gd, st), x)

    jev = jax.jit(body, static_argnums=0)
    tol = dict(rtol=1e-9, atol=1e-10)

    def same(got, want, label, **d):
        rec.expect(len(got) == len(want), label + ":arity", name=name)
        for i, (p, q) in enumerate(zip(got, want)):
            rec.close(p, q, label, name=name, i=i, **tol, **d)
        rec.step()

    gd0, st0 = nnx.split(m)
    same(jev(gd0, st0), base, "compiled")
    same(probe(kind, m, x), base, "repeatable")
    n_leaves = len(jax.tree.leaves(st0))
    for d in range(1, depth + 1):
        for w in itertools.product(OPS, repeat=d):
            q = nnx.clone(m) if "U" in w else m
            try:
                for op in w:
                    q = apply_op(op, q)
            except ValueError as e:
                rec.expect("U" not in w, "update:full-state", name=name, word=w, error=str(e)[:200])
                continue
            gd, st = nnx.split(q)
            rec.expect(gd == gd0, "structure-changed", name=name, word=w)
            rec.expect(len(jax.tree.leaves(st)) == n_leaves, "state-size-changed", name=name, word=w)
            same(jev(gd0 if gd == gd0 else gd, st), base, "word", word=w)
            rec.state(name, w)
        if d == 1:
            for op in "SFCTD":
                try:
                    q = apply_op(op, build())
                except TypeError as e:
                    rec.expect(False, "raises:" + op, name=name, error=str(e)[:200])
                    continue
                same(probe(kind, q, x), base, "word:eager", word=op)
    rec.trace()
    # the original object is untouched by all of this
    same(probe(kind, m, x), base, "original-untouched")

    # nnx.jit on the module itself
    same(nnx.jit(lambda q: probe(kind, q, x))(m), base, "nnx-jit")

    P = params_of(m)
    total = sum(int(np.size(v[...])) for _, v in P)
    if name in TRAINABLE:
        rec.expect(total == TRAINABLE[name], "trainable-entries", name=name, got=total, want=TRAINABLE[name])
    if not P:
        return
    if kind == "bij":
        # density of data: forward image and its density are differentiable functions of the state
        obs = lambda q: [v for v in (lambda y, l: (y, l))(*q.forward(x, jnp.zeros(())))]
    elif kind == "dist":
        obs = lambda q: [q.log_density(x)]
    else:
        obs = lambda q: probe(kind, q, x)[:1]

    def grad_dir(st, dirn):
        f = lambda s: obs(nnx.merge(gd0, s))
        return jax.jvp(f, (st,), (dirn,))[1]

    jobs = jax.jit(lambda gd, st: obs(nnx.merge(gd, st)), static_argnums=0)
    jvmap = jax.jit(lambda st: jax.vmap(lambda s: probe(kind, nnx.merge(gd0, s), x))(st))
    isx = lambda v: hasattr(v, "dtype") and jnp.issubdtype(v.dtype, jnp.inexact)
    flats, edited_states, edited_vals = [], [], []
    kp, td = jax.tree_util.tree_flatten_with_path(st0)
    keys = [tuple(str(getattr(k, "key", getattr(k, "idx", None))) for k in p if hasattr(k, "key") or hasattr(k, "idx")) for p, _ in kp]

    def edited(st, path, val):
        leaves = jax.tree.leaves(st)
        i = [k for k, p in enumerate(keys) if p == tuple(map(str, path))]
        assert len(i) == 1, (path, keys)
        leaves[i[0]] = jnp.asarray(val)
        return td.unflatten(leaves)

    for path, var in P:
        old = np.asarray(var[...])
        dv = 0.05 * generic(old.shape, 0.5, 1.5, 5)
        gd, st = nnx.split(m)
        st = jax.tree.map(lambda v: v, st)  # private copy
        est = edited(st, path, old + dv)
        want = [np.asarray(v) for v in jev(gd0, est)]
        moved = any(not np.allclose(p, q, rtol=1e-7, atol=1e-7) for p, q in zip(want, base))
        rec.expect(moved, "edit-without-effect", name=name, path=str(path))
        same(probe(kind, m, x) if False else jev(gd0, nnx.split(m)[1]), base, "edit:original-untouched", path=str(path))
        same(probe(kind, nnx.merge(gd0, est), x), want, "edit:merge", path=str(path))
        q = build()
        nnx.update(q, nnx.filter_state(est, nnx.Param))
        same(probe(kind, q, x), want, "edit:update", path=str(path))
        q = build()
        v = dict(params_of(q))[path]
        v.set_value(jnp.asarray(old + dv))
        same(probe(kind, q, x), want, "edit:in-place", path=str(path))
        v.set_value(jnp.asarray(old))
        same(probe(kind, q, x), base, "edit:undone", path=str(path))
        edited_states.append(est)
        edited_vals.append(want)
        rec.state(name, str(path))
        rec.trace()
        # first order effect
        h = 1e-5
        pm = []
        for s in (1, -1):
            pm.append([np.asarray(u) for u in jobs(gd0, edited(st0, path, old + s * h * dv))])
        rec.step(2)
        flats.append((path, old, dv, [(a - b) / (2 * h) for a, b in zip(*pm)]))
    same([v[0] for v in jvmap(jax.tree.map(lambda *v: jnp.stack([jnp.asarray(u) for u in v]), st0, *edited_states))], base, "stacked:first")
    sv = jvmap(jax.tree.map(lambda *v: jnp.stack([jnp.asarray(u) for u in v]), st0, *edited_states))
    for i, want in enumerate(edited_vals):
        same([v[i + 1] for v in sv], want, "stacked", k=i)
    # gradient through the state argument (reverse mode: some flows define only that)
    leaves, td = jax.tree.flatten(st0)
    idx = [i for i, v in enumerate(leaves) if isx(v)]

    def on(vals):
        full = list(leaves)
        for i, v in zip(idx, vals):
            full[i] = v
        return sum((a * o).sum() for a, o in zip(wts, obs(nnx.merge(gd0, td.unflatten(full)))))

    o0 = obs(m)
    wts = [jnp.asarray(generic(np.shape(o), 0.5, 1.5, 3 + i)) for i, o in enumerate(o0)]
    g = jax.jit(jax.grad(lambda v: jnp.real(on(v))))([leaves[i] for i in idx])
    gfull = [np.zeros(np.shape(v)) for v in leaves]
    for i, v in zip(idx, g):
        gfull[i] = np.asarray(v)
    gst = dict(nnx.to_flat_state(td.unflatten(gfull)))
    cont = name in ("diffrax", "cgflow")
    for path, old, dv, fd in flats:
        gv = gst[path]
        gv = np.asarray(gv[...] if hasattr(gv, "set_value") else gv)
        rec.close((gv * dv).sum(), np.real(sum((np.asarray(a) * f).sum() for a, f in zip(wts, fd))), "gradient", name=name, path=str(path),
                  rtol=5e-2 if cont or name in ("rk4", "autojac", "convcnf") else 1e-4, atol=1e-3 if name in ("rk4", "autojac", "convcnf") else 1e-6)


# ---------------------------------------------------------------- freezing


def letter(ch, salt):
    import bijx
    import jax.numpy as jnp

    s, t = jnp.asarray(generic((2,), -0.5, 0.5, salt)), jnp.asarray(generic((2,), -0.5, 0.5, salt + 1))
    a = bijx.AffineLinear(s, t)
    if ch == "A":
        return a, [False, False]
    if ch == "C":  # constant slope, trainable shift
        return bijx.AffineLinear(bijx.Const(s), t), [True, False]
    if ch == "F":
        return bijx.Frozen(a), [True, True]
    if ch == "G":  # frozen chain around a partially constant member
        return bijx.Frozen(bijx.Chain(bijx.AffineLinear(bijx.Const(s), t), bijx.Sinh())), [True, True]
    if ch == "I":
        return bijx.Inverse(bijx.Frozen(a)), [True, True]


def run_frozen(rec, word):
    import bijx
    import jax
    import jax.numpy as jnp
    from flax import nnx

    ms, fr = zip(*[letter(c, 3 * i) for i, c in enumerate(word)])
    m = bijx.Chain(*ms)
    n_frozen, n_free = sum(map(sum, fr)), sum(len(f) - sum(f) for f in fr)
    gd, frozen, train, rest = nnx.split(m, bijx.FrozenFilter, nnx.Param, ...)
    cnt = lambda s: len(jax.tree.leaves(s))
    rec.expect(cnt(frozen) == n_frozen, "frozen-count", word=word, got=cnt(frozen), want=n_frozen)
    rec.expect(cnt(train) == n_free, "trainable-count", word=word, got=cnt(train), want=n_free)
    rec.expect(cnt(rest) == 0, "other-count", word=word)
    for i, (c, f) in enumerate(zip(word, fr)):
        want = dict(A=(), C=("scale",), F=("scale", "shift"), G=("scale", "shift"), I=("scale", "shift"))[c]
        got = sorted({p[-2] for p, _ in nnx.to_flat_state(frozen) if str(p[list(map(str, p)).index("bijections") + 1]) == str(i)})
        rec.expect(tuple(got) == want, "frozen-which", word=word, i=i, got=got, want=want)
    # the wrapper is transparent
    x = jnp.asarray(generic((2,), -0.3, 0.4, 7))
    y, l = x, 0.0
    for c, q in zip(word, ms):
        s, t = None, None
        inner = q
        inv = c == "I"
        if c == "I":
            inner = q.bijection.frozen if hasattr(q, "bijection") else None
        if c == "F":
            inner = q.frozen
        i = word.index(c)
        y, dl = (inner.reverse if inv else inner.forward)(y, jnp.zeros(())) if inner is not None else q.forward(y, jnp.zeros(()))
        l = l + dl
    gy, gl = m.forward(x, jnp.zeros(()))
    rec.close(gy, y, "transparent:image", word=word)
    rec.close(gl, l, "transparent:density", word=word)
    bx, bl = m.reverse(gy, gl)
    rec.close(bx, x, "transparent:inverse", word=word, rtol=1e-6, atol=1e-7)
    rec.close(bl, 0.0, "transparent:inverse-density", word=word, rtol=1e-6, atol=1e-7)

    # a gradient step with respect to the free state moves exactly the free entries
    def loss(tr):
        q = nnx.merge(gd, frozen, tr, rest)
        y, l = q.forward(x, jnp.zeros(()))
        return (y**2).sum() - l

    before = {p: np.asarray(v[...]) for p, v in nnx.to_flat_state(nnx.state(m))}
    fset = {p for p, _ in nnx.to_flat_state(frozen)}
    if n_free:
        new = jax.tree.map(lambda p, g: p - 0.1 * g, train, jax.grad(loss)(train))
        q = nnx.merge(gd, frozen, new, rest)
        for p, v in nnx.to_flat_state(nnx.state(q)):
            changed = np.any(np.asarray(v[...]) != before[p])
            rec.expect(changed == (p not in fset), "step:moved", word=word, path=str(p), changed=changed)
        # the same through nnx transformations with a filtered differentiation target
        q = nnx.clone(m)
        g = nnx.grad(lambda q: (lambda y, l: (y**2).sum() - l)(*q.forward(x, jnp.zeros(()))), argnums=nnx.DiffState(0, nnx.All(nnx.Param, nnx.Not(bijx.FrozenFilter))))(q)
        rec.expect({p for p, _ in nnx.to_flat_state(g)} == {p for p, _ in nnx.to_flat_state(train)}, "filtered-gradient", word=word)
    rec.state(word)
    rec.step(len(word))
    rec.trace()


# ---------------------------------------------------------------- sharing


def run_shared(rec, part):
    """Layers i, j use one and the same parameter iff part[i] == part[j]."""
    import bijx
    import jax
    import jax.numpy as jnp
    from flax import nnx

    n, k = len(part), max(part) + 1
    vals = generic((k, 2), 0.6, 1.4, 3)

    def build():
        ps = [nnx.Param(jnp.asarray(v)) for v in vals]
        return bijx.Chain(*[bijx.Scaling(ps[c]) if i % 2 == 0 else bijx.AffineLinear(ps[c], jnp.zeros(2), transform_scale=None) for i, c in enumerate(part)])

    x = jnp.asarray(generic((2,), 0.3, 1.2))
    cnt = np.bincount(part, minlength=k)

    def want(v):
        s = np.prod(np.asarray(v) ** cnt[:, None], 0)
        return np.asarray(x) * s, -np.log(np.abs(s)).sum()

    n_shift = n // 2
    for d in range(0, 3):
        for w in itertools.product("SFCDT", repeat=d):
            m = build()
            for op in w:
                m = apply_op(op, m)
            gd, st = nnx.split(m, )
            leaves = jax.tree.leaves(st)
            if "T" not in w:
                rec.expect(len(leaves) == k + n_shift, "shared-leaves", part=part, word=w, got=len(leaves))
            y, l = m.forward(x, jnp.zeros(()))
            wy, wl = want(vals)
            rec.close(y, wy, "image", part=part, word=w)
            rec.close(l, wl, "density", part=part, word=w)
            if "T" in w:
                continue
            # edit through one user, seen by all
            for i in range(n):
                q = nnx.clone(m)
                u = q.bijections[i].scale.param
                new = vals.copy()
                new[part[i]] = new[part[i]] * 1.3
                u.set_value(jnp.asarray(new[part[i]]))
                wy, wl = want(new)
                y, l = q.forward(x, jnp.zeros(()))
                rec.close(y, wy, "edit:image", part=part, word=w, i=i)
                rec.close(l, wl, "edit:density", part=part, word=w, i=i)
                y, l = m.forward(x, jnp.zeros(()))
                rec.close(y, want(vals)[0], "edit:clone-independent", part=part, word=w, i=i)
                rec.step(2)
            rec.state(tuple(part), w)
    # gradient of a shared parameter is the sum over its uses
    m = build()
    g = nnx.grad(lambda q: q.forward(x, jnp.zeros(()))[1])(m)
    got = [np.asarray(v[...]) for p, v in nnx.to_flat_state(g) if "scale" in map(str, p)]
    rec.expect(len(got) == k, "gradient:leaves", part=part)
    first = [list(part).index(c) for c in range(k)]
    for c, v in zip(sorted(range(k), key=lambda c: first[c]), got):
        rec.close(v, -cnt[c] / vals[c], "gradient", part=part)
    rec.trace()


# ---------------------------------------------------------------- parameter specifications


def run_wrap(rec):
    import bijx
    import jax
    import jax.numpy as jnp
    from bijx.utils import default_wrap, is_shape
    from flax import nnx

    class V(nnx.Variable):
        pass

    for x in [(), (1,), (2, 3), [4], [], (0,), (1, 0), (-1,), (2.0,), ("a",), (True,), 3, None, "ab", {1: 2}, np.array([1, 2]), (np.int64(2),), ((1,),), (None,)]:
        want = isinstance(x, (tuple, list)) and all(isinstance(d, int) and d > 0 for d in x)
        rec.expect(is_shape(x) == want, "is-shape", x=x)
        rec.step()
    for cls, icls in itertools.product((nnx.Param, bijx.Const, V), repeat=2):
        for val in [jnp.arange(3.0), np.arange(3.0), np.asarray(2.0), jnp.zeros((2, 0)), jnp.arange(2), np.array(True)]:
            for vc in (nnx.Param, bijx.Const, V):
                v = vc(jnp.asarray(val))
                r = default_wrap(v, cls=cls, init_cls=icls)
                rec.expect(r is v, "variable-kept")
                rec.step()
            r = default_wrap(val, cls=cls, init_cls=icls)
            rec.expect(type(r) is cls, "array-class", got=type(r))
            rec.close(r[...], np.asarray(val), "array-value")
            rec.expect(isinstance(r.get_value(), jax.Array) and r.get_value().dtype == jnp.asarray(val).dtype, "array-kind")
            rec.step()
        for shape in [(), (2,), [3], (2, 3), (1, 1, 1)]:
            calls = []

            def init(key, s):
                calls.append((key, s))
                return jnp.full(tuple(s), 7.0) + jax.random.uniform(key)

            r1, r2 = nnx.Rngs(5), nnx.Rngs(5)
            r = default_wrap(shape, cls=cls, init_cls=icls, init_fn=init, rngs=r1)
            rec.expect(type(r) is icls, "shape-class", got=type(r))
            rec.expect(r[...].shape == tuple(shape), "shape-shape")
            rec.expect(len(calls) == 1 and tuple(calls[0][1]) == tuple(shape), "init-called-once")
            rec.close(r[...], 7.0 + np.asarray(jax.random.uniform(r2.params())) * np.ones(tuple(shape)), "shape-value")
            a, b = default_wrap((3,), rngs=r1), default_wrap((3,), rngs=r1)
            rec.expect(not np.any(np.asarray(a[...]) == np.asarray(b[...])), "fresh-initialisation")
            rec.step(3)
    for bad in [1.0, 2, None, "x", (0,), (1.5,), (-2,), {"a": 1}, [[1]], object()]:
        try:
            default_wrap(bad, rngs=nnx.Rngs(0))
            rec.expect(False, "accepted-unsupported", spec=bad)
        except ValueError:
            rec.expect(True, "ok")
        rec.step()
    rec.state("wrap")
    rec.trace()


# constructor arguments that take a parameter specification: class, argument -> path of the variable
ARGS = {
    "GaussianCDF": dict(scale="scale.param", mean="mean.param"), "Power": dict(exponent="exponent.param"),
    "AffineLinear": dict(scale="scale.param", shift="shift.param"), "Scaling": dict(scale="scale.param"), "Shift": dict(shift="shift.param"),
    "BetaStretch": dict(a="a.param"), "CubicRational": dict(loc="loc.param", alpha="alpha.param", beta="beta.param"),
    "SinhConjugation": dict(loc="loc", alpha="alpha.param", beta="beta", mu="mu.param", nu="nu.param"),
    "CubicConjugation": dict(loc="loc", beta="beta", a="a.param", b="b.param"),
    "Radial": dict(center="center", scale="log_scale"), "MultivariateNormal": dict(mean="mean", cholesky="cholesky"),
    "DiagonalNormal": dict(mean="mean", scales="scales_bare"),
}


def run_args(rec, name):
    """Each argument in turn is given as Param, Const, own variable class, array, numpy array, shape; the others stay at a fixed array."""
    import bijx
    import jax.numpy as jnp
    from flax import nnx

    class V(nnx.Variable):
        pass

    cls = getattr(bijx, name)
    table = ARGS[name]
    pre = (bijx.Power(jnp.asarray(1.4)),) if name == "Radial" else ()
    shape_of = {a: (3,) if not (name == "MultivariateNormal" and a == "cholesky") else (6,) for a in table}

    def get(m, path):
        for p in path.split("."):
            m = getattr(m, p)
        return m

    import inspect

    par = inspect.signature(cls.__init__).parameters
    for arg, path in table.items():
        if arg not in par:
            # positional name differs: take the argument in order
            continue
        val = generic(shape_of[arg], 0.5, 1.5, 4)
        for spec in ("Param", "Const", "V", "jax", "numpy", "shape"):
            s = dict(Param=lambda: nnx.Param(jnp.asarray(val)), Const=lambda: bijx.Const(jnp.asarray(val)), V=lambda: V(jnp.asarray(val)),
                     jax=lambda: jnp.asarray(val), numpy=lambda: val, shape=lambda: shape_of[arg])[spec]()
            kw = {a: jnp.asarray(generic(shape_of[a], 0.5, 1.5, 9)) for a in table if a in par and a != arg}
            m = cls(*pre, **{**kw, arg: s}, rngs=nnx.Rngs(0))
            v = get(m, path)
            rec.expect(isinstance(v, dict(Const=bijx.Const, V=V).get(spec, nnx.Param)), "class", name=name, arg=arg, spec=spec, got=type(v))
            if spec in ("Param", "Const", "V"):
                rec.expect(v is s, "same-variable", name=name, arg=arg, spec=spec)
            rec.expect(v[...].shape == shape_of[arg], "shape", name=name, arg=arg, spec=spec)
            if spec != "shape":
                rec.close(v[...], val, "value", name=name, arg=arg, spec=spec)
            for a in kw:
                rec.close(get(m, table[a])[...], kw[a], "other-arguments", name=name, arg=arg, spec=spec, other=a)
            tot = sum(int(np.size(u[...])) for _, u in params_of(m))
            free = sum(prod(shape_of[a]) for a in table if a in par) - (prod(shape_of[arg]) if spec in ("Const", "V") else 0) + (1 if name == "Radial" else 0)
            rec.expect(tot == free, "trainable", name=name, arg=arg, spec=spec, got=tot, want=free)
            rec.state(name, arg, spec)
            rec.step()
    rec.trace()


# ---------------------------------------------------------------- transformed parameters


def run_tparam(rec, depth):
    import jax
    import jax.numpy as jnp
    from bijx.bijections.scalar import TransformedParameter
    from flax import nnx

    tf = dict(none=None, exp=jnp.exp, square=lambda v: v**2, softplus=nnx.softplus, const=lambda v: jnp.ones_like(v), sum=lambda v: v.sum())
    npf = dict(none=lambda v: v, exp=np.exp, square=lambda v: v**2, softplus=lambda v: np.logaddexp(0, v), const=lambda v: np.ones_like(v), sum=lambda v: v.sum())
    for name, f in tf.items():
        for vals in (generic((2,), -1, 1), np.asarray(0.3)):
            for w in itertools.product("+*RJ", repeat=depth):
                p = nnx.Param(jnp.asarray(vals))
                t = TransformedParameter(p, f)
                cur = np.asarray(vals)
                gd, _ = nnx.split(t)
                for op in w:
                    if op == "+":
                        p.set_value(p[...] + 0.25)
                        cur = cur + 0.25
                    elif op == "*":
                        t.param.set_value(t.param[...] * -0.5)
                        cur = cur * -0.5
                    elif op == "R":
                        t = nnx.merge(*nnx.split(t))
                        p = t.param
                    elif op == "J":
                        rec.close((lambda st: nnx.merge(gd, st).get_value())(nnx.split(t)[1]), npf[name](cur), "read:split", name=name, word=w)
                    rec.close(t.get_value(), npf[name](cur), "read", name=name, word=w)
                    rec.close(t.param[...], cur, "raw", name=name, word=w)
                    rec.step()
                rec.trace()
                rec.state(name, np.ndim(vals), w)
            gd, st = nnx.split(t)
            rec.close(jax.jit(lambda s: nnx.merge(gd, s).get_value())(st), npf[name](cur), "read:compiled", name=name)
            J = jax.jacrev(lambda s: nnx.merge(gd, s).get_value())(st)
            d = np.asarray(jax.tree.leaves(J)[0])
            D = {"none": 1 + 0 * cur, "exp": np.exp(cur), "square": 2 * cur, "softplus": 1 / (1 + np.exp(-cur)), "const": 0 * cur}
            if name in D:
                rec.close(d, np.diag(D[name]) if cur.ndim else D[name], "gradient", name=name)


# ---------------------------------------------------------------- noise


def run_noise(rec):
    import bijx
    import jax
    import jax.numpy as jnp
    from flax import nnx

    class V(nnx.Variable):
        pass

    def model():
        class Leaf(nnx.Module):
            def __init__(s):
                s.p = nnx.Param(jnp.zeros((2,)))
                s.c = bijx.Const(jnp.ones((2,)))
                s.v = V(jnp.full((3,), 2.0))

        class M(nnx.Module):
            def __init__(s):
                s.a, s.frozen, s.l = Leaf(), Leaf(), nnx.List([Leaf(), Leaf()])
                s.p = nnx.Param(jnp.asarray(0.5))

        return M()

    flat = lambda m: {p: np.asarray(v[...]) for p, v in nnx.to_flat_state(nnx.state(m))}
    F = {
        (): lambda p, v: isinstance(v, nnx.Param), ("Param",): lambda p, v: isinstance(v, nnx.Param), ("Const",): lambda p, v: isinstance(v, bijx.Const),
        ("V",): lambda p, v: isinstance(v, V), ("Param", "V"): lambda p, v: isinstance(v, (nnx.Param, V)), ("Frozen",): lambda p, v: isinstance(v, bijx.Const) or "frozen" in p,
        ("NotFrozen",): lambda p, v: not (isinstance(v, bijx.Const) or "frozen" in p), ("Free",): lambda p, v: isinstance(v, nnx.Param) and "frozen" not in p,
        ("All",): lambda p, v: True, ("Const", "V"): lambda p, v: isinstance(v, (bijx.Const, V)),
    }
    obj = dict(Param=nnx.Param, Const=bijx.Const, V=V, Frozen=bijx.FrozenFilter, NotFrozen=nnx.Not(bijx.FrozenFilter), All=nnx.Everything(),
               Free=nnx.All(nnx.Param, nnx.Not(bijx.FrozenFilter)))
    for names, sel in F.items():
        m = model()
        before = flat(m)
        vs = dict(nnx.to_flat_state(nnx.state(m)))
        fl = [obj[n] for n in names]
        for scale in (0, 1, 0.5, -2.0):
            q = bijx.noise_model(jax.random.key(0), m, scale, *fl, noise_fn=lambda k, s: jnp.ones(s))
            after = flat(q)
            rec.expect(set(after) == set(before), "structure", filters=names)
            for p in before:
                rec.close(after[p], before[p] + (scale if sel(p, vs[p]) else 0), "selected", filters=names, scale=scale, path=str(p))
                rec.expect(np.array_equal(flat(m)[p], before[p]), "original-edited", filters=names, path=str(p))
            rec.step()
            rec.state(names, scale)
        if not names:
            q = bijx.noise_model(jax.random.key(0), m, noise_fn=lambda k, s: jnp.ones(s))
            for p, v in flat(q).items():
                rec.close(v, before[p] + (1 if sel(p, vs[p]) else 0), "default-scale-is-one", path=str(p))
        # reproducible from the key, different for different keys, independent between entries
        for src in ("key", "rngs"):
            mk = (lambda s: jax.random.key(s)) if src == "key" else (lambda s: nnx.Rngs(s))
            a, b, c = (flat(bijx.noise_model(mk(s), m, 1.0, *fl)) for s in (1, 1, 2))
            hit = [p for p in before if sel(p, vs[p])]
            for p in hit:
                rec.close(a[p], b[p], "reproducible", filters=names)
                rec.expect(not np.any(a[p] == c[p]), "key-dependence", filters=names)
            d = [a[p] - before[p] for p in hit if before[p].shape == (2,)] + [a[p] - before[p] for p in hit if before[p].shape == (3,)]
            allv = np.concatenate([v.ravel() for v in d]) if d else np.zeros(0)
            rec.expect(len(set(allv.round(12))) == allv.size, "independent-entries", filters=names, src=src)
            rec.step(3)
        r = nnx.Rngs(3)
        q1, q2 = flat(bijx.noise_model(r, m, 1.0, *fl)), flat(bijx.noise_model(r, m, 1.0, *fl))
        for p in hit:
            rec.expect(not np.any(q1[p] == q2[p]), "stream-advances", filters=names)
    # real modules: noise reaches the evaluation
    for b in (bijx.AffineLinear(jnp.zeros(2), jnp.zeros(2)), bijx.Chain(bijx.Frozen(bijx.Scaling(jnp.ones(2))), bijx.Shift(jnp.zeros(2)))):
        x = jnp.ones(2)
        y0 = b.forward(x, jnp.zeros(()))[0]
        y1 = bijx.noise_model(jax.random.key(1), b, 0.1).forward(x, jnp.zeros(()))[0]
        rec.expect(not np.any(np.asarray(y0) == np.asarray(y1)), "reaches-evaluation")
        y2 = bijx.noise_model(jax.random.key(1), b, 0.1, bijx.Const).forward(x, jnp.zeros(()))[0]
        rec.close(y2, y0, "unselected-evaluation")
        rec.step(2)
    rec.trace()


# ---------------------------------------------------------------- Fourier container as argument


def run_fourierdata(rec, shapes):
    import jax
    import jax.numpy as jnp
    from bijx.fourier import FFTRep, FourierData

    for s in map(tuple, shapes):
        x = jnp.asarray(generic(s))
        for a, b in itertools.product(FFTRep, repeat=2):
            fd = FourierData.from_real(x, s, to=a)
            want = fd.to(b).data
            got = jax.jit(lambda v: FourierData.from_real(v, s, to=a).to(b).data)(x)
            rec.close(got, want, "closure", shape=s, a=a.name, b=b.name)
            leaves, td = jax.tree.flatten(fd)
            back = td.unflatten(leaves)
            rec.close(back.to(b).data, want, "flatten", shape=s, a=a.name, b=b.name)
            twice = jax.tree.map(lambda v: v, fd)
            rec.close(twice.to(b).data, want, "tree-map", shape=s, a=a.name, b=b.name)
            rec.state(s, a, b)
            rec.step(3)
            try:
                rec.close(jax.jit(lambda f: f.to(b).data)(fd), want, "argument", shape=s, a=a.name, b=b.name)
            except Exception as e:
                rec.expect(False, f"argument:not-compilable:{list(s)}:{a.name}:{b.name}", error=type(e).__name__)
    rec.trace()

"""P26: bridge to the FlowJAX library."""
import itertools
import math

import numpy as np

from mc.lib import generic, prod

PROPERTY = "P26"
RULE = (
    "Every FlowJAX bijection kind of the table wrapped for bijx x every batch shape x log-density shape x condition batch x condition name, and every "
    "bijx layer of the table wrapped for FlowJAX, each compared with the unwrapped object evaluated point by point (image, inverse, log determinant "
    "with the sign of the respective library, parameter gradients), directly, compiled from split state and vectorised; the same for all distribution "
    "kinds in both directions (samples of every key of the table, densities, joint); all conversion words up to the depth bound; all mixed chains over "
    "a mixed alphabet up to the length bound as flows of either library; the complete table of invalid uses."
)
ASSUMPTIONS = [
    "a condition passed to a converted bijection without condition shape is an error (pinned by the repository's tests)",
    "typed random keys, as FlowJAX requires",
]

BATCH = [(), (2,), (2, 3), (1,)]
FB = ["affine", "affine0", "exp", "tri", "rqs", "maf", "mafc", "coup", "coupc", "planar", "perm", "flip", "addc", "chain", "chainc", "inv",
      "leaky", "vmap", "reshape", "house", "power", "dct", "scan", "sandwich", "stack", "concat", "indexed", "embed", "softplus", "cond0", "cond22", "cond0x"]
BB = ["scaling", "shift", "affine", "sigmoid", "sinh", "chain", "inverse", "rqs", "coupling", "cond", "condz", "cond0", "cond22", "sampled", "cnf", "fourier", "wrapf"]
FD = ["normal", "normal0", "std", "uniform", "mvn", "student", "mixture", "beta", "gamma", "trans", "transc", "flow", "flowc"]
BD = ["normal", "normal0", "uniform", "mvn", "diag", "gmm", "stack", "trans", "transc", "buffered", "wrapf"]
MIX = ["fa", "fe", "bs", "bn", "fm", "bc"]


def cases(tier):
    for n in FB:
        yield "f2b", dict(name=n)
    for n in BB:
        yield "b2f", dict(name=n)
    for n in FD:
        for b in range(len(BATCH)):
            if tier != "quick" or b < 3:
                yield "fdist", dict(name=n, b=b)
    for n in BD:
        for b in range(len(BATCH)):
            if tier != "quick" or b < 3:
                yield "bdist", dict(name=n, b=b)
    depth = 3 if tier == "quick" else 5
    for n in ["affine", "rqs", "mafc", "perm", "addc"]:
        yield "round", dict(lib="f", name=n, depth=depth)
    for n in ["scaling", "cond", "coupling", "rqs"]:
        yield "round", dict(lib="b", name=n, depth=depth)
    for n in ["normal", "mixture", "transc"]:
        yield "roundd", dict(lib="f", name=n, depth=depth)
    for n in ["gmm", "transc", "buffered"]:
        yield "roundd", dict(lib="b", name=n, depth=depth)
    L = 2 if tier == "quick" else 3
    for n in range(1, L + 1):
        for w in itertools.product(MIX, repeat=n):
            yield "mixed", dict(word=list(w))
    yield "errors", dict()


def weight(f, c):
    return {"f2b": 5, "b2f": 4, "fdist": 6, "bdist": 6, "round": 3, "roundd": 4}.get(f, 1)


def fbij(name):
    import equinox as eqx
    import flowjax.bijections as fb
    import jax
    import jax.numpy as jnp

    k = jax.random.key(3)
    g = lambda s, lo=-1.0, hi=1.0, salt=0: jnp.asarray(generic(s, lo, hi, salt))
    aff = lambda n, salt=0: fb.Affine(g((n,), -1, 1, salt), g((n,), 0.4, 2, salt + 1))
    nn = dict(nn_width=4, nn_depth=1)

    class Move(fb.AbstractBijection):
        """scale and shift by the sum of a condition of any rank"""

        rate: jax.Array
        shape: tuple
        cond_shape: tuple

        def transform_and_log_det(self, x, condition=None):
            s = (jnp.arange(1.0, 1 + condition.size).reshape(condition.shape) * condition).sum()
            return (x + self.rate * s) * jnp.exp(s), s * math.prod(self.shape)

        def inverse_and_log_det(self, y, condition=None):
            s = (jnp.arange(1.0, 1 + condition.size).reshape(condition.shape) * condition).sum()
            return y * jnp.exp(-s) - self.rate * s, -s * math.prod(self.shape)

    T = dict(
        cond0=lambda: Move(g((2,)), (2,), ()), cond22=lambda: Move(g((3,)), (3,), (2, 2)), cond0x=lambda: Move(jnp.asarray(0.4), (), ()),
        affine=lambda: aff(2), affine0=lambda: fb.Affine(1.0, 2.0), exp=lambda: fb.Exp((2,)),
        tri=lambda: fb.TriangularAffine(g((2,)), jnp.array([[1.3, 0.0], [0.5, 0.7]])),
        rqs=lambda: fb.RationalQuadraticSpline(knots=4, interval=2),
        maf=lambda: fb.MaskedAutoregressive(k, transformer=fb.Affine(), dim=3, **nn),
        mafc=lambda: fb.MaskedAutoregressive(k, transformer=fb.Affine(), dim=3, cond_dim=2, **nn),
        coup=lambda: fb.Coupling(k, transformer=fb.Affine(), untransformed_dim=1, dim=3, **nn),
        coupc=lambda: fb.Coupling(k, transformer=fb.Affine(), untransformed_dim=1, dim=3, cond_dim=2, **nn),
        planar=lambda: fb.Planar(k, dim=2, negative_slope=0.1), perm=lambda: fb.Permute(jnp.array([2, 0, 1])), flip=lambda: fb.Flip((3,)),
        addc=lambda: fb.AdditiveCondition(eqx.nn.Linear(2, 3, key=k), (3,), (2,)),
        chain=lambda: fb.Chain([aff(2), fb.Exp((2,)), aff(2, 3)]),
        chainc=lambda: fb.Chain([fb.AdditiveCondition(eqx.nn.Linear(2, 3, key=k), (3,), (2,)), aff(3), fb.Permute(jnp.array([1, 2, 0]))]),
        inv=lambda: fb.Invert(aff(2)), leaky=lambda: fb.LeakyTanh(1, (2,)),
        vmap=lambda: fb.Vmap(aff(2), in_axes=None, axis_size=3), reshape=lambda: fb.Reshape(aff(4), (2, 2)),
        house=lambda: fb.Householder(g((3,))), power=lambda: fb.Power(2.0, (2,)), dct=lambda: fb.DiscreteCosine((3,)),
        scan=lambda: fb.Scan(eqx.filter_vmap(lambda s: fb.Affine(s, jnp.exp(s)))(g((3, 2)))),
        sandwich=lambda: fb.Sandwich(aff(2), fb.Exp((2,))), stack=lambda: fb.Stack([fb.Affine(1.0, 2.0), fb.Exp(())]),
        concat=lambda: fb.Concatenate([aff(1), fb.Exp((2,))]),
        indexed=lambda: fb.Indexed(fb.Exp((2,)), jnp.array([0, 2]), (3,)),
        embed=lambda: fb.EmbedCondition(fb.AdditiveCondition(lambda c: jnp.tile(c, 3)[:3], (3,), (2,)), lambda c: 2 * c, (2,)),
        softplus=lambda: fb.SoftPlus((2,)),
    )
    return T[name]()


def bbij(name):
    """module, event shape, condition shape, condition name"""
    import bijx
    import jax
    import jax.numpy as jnp
    from flax import nnx

    g = lambda s, lo=-1.0, hi=1.0, salt=0: jnp.asarray(generic(s, lo, hi, salt))

    class Cond(bijx.Bijection):
        def __init__(self, name):
            self.a = nnx.Param(jnp.array([1.5, 0.5, 2.0]))
            self.name = name

        def forward(self, x, ld, **kw):
            c = kw[self.name]
            return x * self.a[...] * jnp.exp(c[..., :1]) + c.sum(-1, keepdims=True), ld - jnp.log(self.a[...]).sum() - 3 * c[..., 0]

        def reverse(self, y, ld, **kw):
            c = kw[self.name]
            return (y - c.sum(-1, keepdims=True)) / self.a[...] / jnp.exp(c[..., :1]), ld + jnp.log(self.a[...]).sum() + 3 * c[..., 0]

    class Move(bijx.Bijection):
        def __init__(self, rank):
            self.a, self.rank = nnx.Param(jnp.asarray(0.6)), rank

        def total(self, c):
            return c.sum(tuple(range(-self.rank, 0)), keepdims=False) if self.rank else c

        def forward(self, x, ld, *, condition):
            s = self.total(condition)
            return (x + self.a[...] * s[..., None]) * jnp.exp(s)[..., None], ld - 3 * s

        def reverse(self, y, ld, *, condition):
            s = self.total(condition)
            return y * jnp.exp(-s)[..., None] - self.a[...] * s[..., None], ld + 3 * s

    def coupling():
        template = bijx.AffineLinear(jnp.ones(()), jnp.ones(()))
        template_rec = bijx.ModuleReconstructor(template)
        mask = bijx.checker_mask((4,), True)
        net = nnx.Linear(2, 2 * template_rec.params_total_size, rngs=nnx.Rngs(2))
        b, r, n = template_rec, 1, 2
        return bijx.GeneralCouplingLayer(lambda x: net(x).reshape(*x.shape[:-1], n, template_rec.params_total_size), mask, b, bijection_event_rank=0)

    T = dict(
        scaling=lambda: (bijx.Scaling(g((3,), 0.5, 2)), (3,)), shift=lambda: (bijx.Shift(g((3,))), (3,)),
        affine=lambda: (bijx.AffineLinear(g((3,), 0.5, 2), g((3,), 0.5, 2, 3)), (3,)),
        sigmoid=lambda: (bijx.Sigmoid(), (2, 2)), sinh=lambda: (bijx.Sinh(), ()),
        chain=lambda: (bijx.Chain(bijx.Scaling(g((3,), 0.5, 2)), bijx.Sinh(), bijx.Shift(g((3,)))), (3,)),
        inverse=lambda: (bijx.Inverse(bijx.Chain(bijx.Scaling(g((3,), 0.5, 2)), bijx.Sinh())), (3,)),
        rqs=lambda: (bijx.MonotoneRQSpline(4, (3,), rngs=nnx.Rngs(1)), (3,)),
        coupling=lambda: (coupling(), (4,)),
        cond0=lambda: (Move(0), (3,), ()), cond22=lambda: (Move(2), (3,), (2, 2)),
        cond=lambda: (Cond("condition"), (3,), (2,)), condz=lambda: (Cond("z"), (3,), (2,), "z"),
        sampled=lambda: (bijx.Chain(*[bijx.Scaling(jnp.asarray(0.5 + i)) for i in range(3)]), (2,)),
        cnf=lambda: (bijx.ContFlowRK4(bijx.AutoJacVF(lambda t, x: jnp.sin(x) + t), steps=20), (2,)),
        fourier=lambda: (bijx.FreeTheoryScaling(1.3, (4, 2)), (4, 2)),
        wrapf=lambda: (__import__("bijx.flowjax").flowjax.from_flowjax(fbij("tri")), (2,)),
    )
    r = T[name]()
    return (*r, *(None, "condition")[len(r) - 2:])


def pts(shape, batch=(), salt=0, lo=0.15, hi=0.85):
    return generic((*batch, *shape), lo, hi, salt)


def loop(f, args, batch, ranks):
    """Apply f to every batch entry (broadcasting each argument over the batch)."""
    full = [np.broadcast_to(a, (*batch, *np.shape(a)[np.ndim(a) - r:])) if a is not None else None for a, r in zip(args, ranks)]
    outs = [f(*[None if a is None else a[i] for a in full]) for i in np.ndindex(*batch)]
    return tuple(np.stack([np.asarray(o[j]) for o in outs]).reshape((*batch, *np.shape(outs[0][j]))) for j in range(len(outs[0])))


def run_case(family, case, rec):
    globals()["run_" + family](rec, **case)


def run_f2b(rec, name):
    import bijx.flowjax as B
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from flax import nnx

    fj = fbij(name)
    es, cs = fj.shape, fj.cond_shape
    w = B.from_flowjax(fj)
    z = B.FlowjaxToBijxBijection(fj, cond_name="z")
    gd, st = nnx.split(w)
    one_f, one_i = eqx.filter_jit(fj.transform_and_log_det), eqx.filter_jit(fj.inverse_and_log_det)
    call = jax.jit(lambda st, x, ld, c: nnx.merge(gd, st).forward(x, ld, **c))
    back = jax.jit(lambda st, x, ld, c: nnx.merge(gd, st).reverse(x, ld, **c))
    for bs in BATCH:
        for cb in [None] if cs is None else [()] + ([bs] if bs else []) + ([bs[1:]] if len(bs) > 1 else []):
            c = None if cs is None else pts(cs, cb, salt=5)
            kw = {} if c is None else dict(condition=jnp.asarray(c))
            x = pts(es, bs)
            wy, wl = loop(lambda x, c: one_f(jnp.asarray(x), None if c is None else jnp.asarray(c)), (x, c), bs, (len(es), 0 if cs is None else len(cs)))
            rec.state(name, bs, cb)
            for ldv in [np.zeros(bs), generic(bs, -1, 1, 7)] + ([0.3] if bs else []):
                for fn, tag in ((lambda a, b: w.forward(a, b, **kw), "direct"), (lambda a, b: call(st, a, b, kw), "compiled"))[: 2 if bs == (2, 3) and np.ndim(ldv) else 1]:
                    y, l = fn(jnp.asarray(x), jnp.asarray(ldv))
                    rec.close(y, wy, "image:" + tag, name=name, bs=bs)
                    rec.close(l, ldv - wl, "density:" + tag, name=name, bs=bs)
                    rec.step()
            ld = generic(bs, -1, 1, 7)
            if cs is not None:
                y, l = z.forward(jnp.asarray(x), jnp.asarray(ld), z=kw["condition"], condition=kw["condition"] + 1)
                rec.close(y, wy, "image:renamed-condition", name=name, bs=bs)
                rec.close(l, ld - wl, "density:renamed-condition", name=name, bs=bs)
            vx, vl = loop(lambda x, c: one_i(jnp.asarray(x), None if c is None else jnp.asarray(c)), (wy, c), bs, (len(es), 0 if cs is None else len(cs)))
            if cs is not None:
                xr, lr = z.reverse(jnp.asarray(wy), jnp.asarray(ld), z=kw["condition"], condition=kw["condition"] + 1)
                rec.close(xr, vx, "inverse:renamed-condition", name=name, bs=bs)
                rec.close(lr, ld - vl, "inverse-density:renamed-condition", name=name, bs=bs)
            for fn, tag in ((lambda a, b: w.reverse(a, b, **kw), "direct"), (lambda a, b: back(st, a, b, kw), "compiled"))[: 2 if bs == (2, 3) else 1]:
                xr, lr = fn(jnp.asarray(wy), jnp.asarray(ld))
                rec.close(xr, vx, "inverse:" + tag, name=name, bs=bs)
                rec.close(xr, x, "inverse:" + tag + ":undoes", name=name, bs=bs, rtol=1e-4, atol=1e-5)
                rec.close(lr, ld - vl, "inverse-density:" + tag, name=name, bs=bs)
                rec.step()
            rec.trace()
        # unrelated keywords (shared with other members of a chain) are ignored
        if cs is None:
            y, l = w.forward(jnp.asarray(x), jnp.zeros(bs), unrelated=jnp.ones((9,)))
            rec.close(y, wy, "ignored-keyword", name=name)
    # parameter gradients are those of the wrapped object; nothing but real arrays is trainable
    c = None if cs is None else jnp.asarray(pts(cs, (), salt=5))
    kw = {} if c is None else dict(condition=c)
    x = jnp.asarray(pts(es))
    a = jnp.asarray(generic(es, -1, 1, 4))

    def loss_b(m):
        y, l = m.forward(x, jnp.zeros(()), **kw)
        return (a * y).sum() - 2 * l

    def loss_f(m):
        y, l = m.transform_and_log_det(x, c)
        return (a * y).sum() + 2 * l

    gb = jax.tree.leaves(nnx.grad(loss_b)(w))
    gf = jax.tree.leaves(eqx.filter_grad(loss_f)(fj))
    rec.expect(len(gb) == len(gf), "gradient:leaves", name=name, got=len(gb), want=len(gf))
    for p, q in zip(gb, gf):
        rec.close(p, q, "gradient", name=name)
    # state edits act on the wrapped object's parameters
    new = jax.tree.map(lambda v: v * 1.1 if jnp.issubdtype(v.dtype, jnp.inexact) else v, st)
    ref = jax.tree.map(lambda v: v * 1.1 if eqx.is_inexact_array(v) else v, fj)
    y, l = call(new, x, jnp.zeros(()), kw)
    wy, wl = ref.transform_and_log_det(x, c)
    rec.close(y, wy, "state-edit:image", name=name)
    rec.close(l, -wl, "state-edit:density", name=name)
    rec.trace()


def run_b2f(rec, name):
    import bijx.flowjax as B
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from flax import nnx

    m, es, cs, cn = bbij(name)
    f = B.BijxToFlowjaxBijection.from_bijection(m, es, cs, cn)
    rec.expect(f.shape == es and f.cond_shape == cs, "declared-shapes", name=name)
    if cn == "condition":
        h = B.to_flowjax(m, shape=es, cond_shape=cs)
        rec.expect(h.shape == es and h.cond_shape == cs, "declared-shapes:helper", name=name)
    tf = eqx.filter_jit(lambda f, x, c: f.transform_and_log_det(x, c))
    ti = eqx.filter_jit(lambda f, x, c: f.inverse_and_log_det(x, c))
    tv = eqx.filter_jit(lambda f, x, c: (jax.vmap(f.transform_and_log_det)(x) if c is None else jax.vmap(f.transform_and_log_det)(x, c)))
    X, C = [], []
    for s in range(4):
        x = jnp.asarray(pts(es, (), salt=s))
        c = None if cs is None else jnp.asarray(pts(cs, (), salt=s + 5))
        X.append(x), C.append(c)
        kw = {} if c is None else {cn: c}
        y, nl = m.forward(x, jnp.zeros(()), **kw)
        for fn, tag in ((f.transform_and_log_det, "direct"), (lambda a, b: tf(f, a, b), "compiled")):
            gy, gl = fn(x, c)
            rec.close(gy, y, "image:" + tag, name=name)
            rec.close(gl, -nl, "log-det:" + tag, name=name)
            rec.step()
        if prod(es) > 0:
            J = jax.jacrev(lambda v: f.transform(v.reshape(es), c).reshape(-1))(x.reshape(-1)).reshape(prod(es), prod(es))
            rec.close(gl, jnp.linalg.slogdet(J)[1], "log-det:jacobian", name=name, rtol=1e-4, atol=1e-4)
        for fn, tag in ((f.inverse_and_log_det, "direct"), (lambda a, b: ti(f, a, b), "compiled")):
            gx, gl2 = fn(y, c)
            rx, rl = m.reverse(y, jnp.zeros(()), **kw)
            rec.close(gx, rx, "inverse:" + tag, name=name)
            rec.close(gl2, -rl, "inverse-log-det:" + tag, name=name)
            rec.close(gl2, -gl, "inverse-log-det:negated", name=name, rtol=1e-5, atol=1e-5)
            rec.step()
        rec.close(f.transform(x, c), y, "transform", name=name)
        rec.close(f.inverse(y, c), x, "inverse", name=name, rtol=1e-5, atol=1e-6)
        # repeated evaluation is pure
        rec.close(f.transform_and_log_det(x, c)[1], gl, "pure", name=name)
        rec.state(name, s)
        rec.trace()
    vy, vl = tv(f, jnp.stack(X), None if cs is None else jnp.stack(C))
    for i in range(4):
        y, l = f.transform_and_log_det(X[i], C[i])
        rec.close(vy[i], y, "vectorised:image", name=name)
        rec.close(vl[i], l, "vectorised:log-det", name=name)
    a = jnp.asarray(generic(es, -1, 1, 4))
    kw = {} if cs is None else {cn: C[0]}

    def loss_b(q):
        y, l = q.forward(X[0], jnp.zeros(()), **kw)
        return (a * y).sum() - 2 * l

    def loss_f(q):
        y, l = q.transform_and_log_det(X[0], C[0])
        return (a * y).sum() + 2 * l

    gd, st = nnx.split(m)
    isx = lambda v: hasattr(v, "dtype") and jnp.issubdtype(v.dtype, jnp.inexact)
    gf = jax.tree.leaves(eqx.filter_grad(loss_f)(f))
    leaves, td = jax.tree.flatten(st)
    diff = [v for v in leaves if isx(v)]

    def on(vals):
        it = iter(vals)
        return loss_b(nnx.merge(gd, td.unflatten([next(it) if isx(v) else v for v in leaves])))

    gb = jax.grad(on)(diff) if diff else []
    rec.expect(len(gb) == len(gf), "gradient:leaves", name=name, got=len(gf), want=len(gb))
    for p, q in zip(gf, gb):
        rec.close(p, q, "gradient", name=name)


def fdist(name):
    import equinox as eqx
    import flowjax.bijections as fb
    import flowjax.distributions as fd
    import jax
    import jax.numpy as jnp

    T = dict(
        normal=lambda: fd.Normal(jnp.array([1.0, -2.0]), jnp.array([0.5, 2.0])), normal0=lambda: fd.Normal(0.3, 2.0), std=lambda: fd.StandardNormal((2, 3)),
        uniform=lambda: fd.Uniform(jnp.array([-1.0, 2.0]), jnp.array([1.0, 5.0])),
        mvn=lambda: fd.MultivariateNormal(jnp.array([1.0, 0.0]), jnp.array([[1.0, 0.2], [0.2, 0.7]])), student=lambda: fd.StudentT(jnp.array([3.0, 4.0])),
        mixture=lambda: fd.VmapMixture(eqx.filter_vmap(fd.Normal)(jnp.array([-2.0, 0.0, 3.0])), weights=jnp.array([1.0, 2.0, 0.5])),
        beta=lambda: fd.Beta(2.0, 3.0), gamma=lambda: fd.Gamma(jnp.array([2.0, 1.5]), jnp.array([1.0, 3.0])),
        trans=lambda: fd.Transformed(fd.StandardNormal((2,)), fbij("tri")), transc=lambda: fd.Transformed(fd.StandardNormal((3,)), fbij("chainc")),
        flow=lambda: fd.Transformed(fd.StandardNormal((3,)), fbij("coup")), flowc=lambda: fd.Transformed(fd.StandardNormal((3,)), fbij("mafc")),
    )
    return T[name]()


def bdist(name):
    """distribution, event shape, cond shape"""
    import bijx
    import bijx.flowjax as B
    import jax.numpy as jnp
    from flax import nnx

    g = lambda s, lo=-1.0, hi=1.0, salt=0: jnp.asarray(generic(s, lo, hi, salt))
    T = dict(
        normal=lambda: (bijx.IndependentNormal((2,), rngs=nnx.Rngs(4)), (2,), None), normal0=lambda: (bijx.IndependentNormal(()), (), None),
        uniform=lambda: (bijx.IndependentUniform((2, 3)), (2, 3), None),
        mvn=lambda: (bijx.MultivariateNormal(g((2,)), jnp.array([1.0, 0.2, 0.6])), (2,), None),
        diag=lambda: (bijx.DiagonalNormal(g((3,)), g((3,), 0.5, 2)), (3,), None),
        gmm=lambda: (bijx.GaussianMixture(g((3, 2)), jnp.stack([jnp.eye(2) * s for s in (0.5, 1.0, 2.0)]), jnp.array([0.2, 0.5, 0.3])), (2,), None),
        stack=lambda: (bijx.MixtureStack(bijx.DiagonalNormal(g((2, 3)), g((2, 3), 0.5, 2)), jnp.array([0.4, 0.6])), (3,), None),
        trans=lambda: (bijx.Transformed(bijx.IndependentNormal((3,)), bbij("chain")[0]), (3,), None),
        transc=lambda: (bijx.Transformed(bijx.IndependentNormal((3,)), bbij("cond")[0]), (3,), (2,)),
        buffered=lambda: (bijx.BufferedSampler(bijx.IndependentNormal((2,), rngs=nnx.Rngs(0)), 4), (2,), None),
        wrapf=lambda: (B.from_flowjax(fdist("mvn")), (2,), None),
    )
    return T[name]()


def run_fdist(rec, name, b):
    import bijx
    import bijx.flowjax as B
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from flax import nnx

    d = fdist(name)
    es, cs = d.shape, d.cond_shape
    w = B.from_flowjax(d)
    wr = B.FlowjaxToBijxDistribution(d, cond_name="z", rngs=nnx.Rngs(7))
    rec.expect(isinstance(w, bijx.Distribution), "type", name=name)
    gd, st = nnx.split(w)
    for bs in [BATCH[b]]:
        jitted = jax.jit(lambda st, k, c: nnx.merge(gd, st).sample(bs, rng=k, **c))
        ref = eqx.filter_jit(lambda k, c: (lambda x: (x, d.log_prob(x, c)))(d.sample(k, bs, c)))
        for cb in [()] if cs is None else [(), (2,)]:
            c = None if cs is None else jnp.asarray(pts(cs, cb, salt=3))
            kw = {} if c is None else dict(condition=c)
            for seed in range(2 if b == 1 else 1):
                k = jax.random.key(seed)
                wx, wl = ref(k, c)
                x, l = w.sample(bs, rng=k, **kw)
                rec.close(x, wx, "samples", name=name, bs=bs)
                rec.close(l, wl, "samples:density", name=name, bs=bs)
                rec.expect(x.shape == (*bs, *cb, *es) and l.shape == (*bs, *cb), "samples:shape", name=name, bs=bs, got=x.shape)
                rec.step()
            xj, lj = jitted(st, k, kw)
            rec.close(xj, wx, "samples:compiled", name=name, bs=bs)
            rec.close(lj, wl, "samples:compiled:density", name=name, bs=bs, rtol=1e-6)
            rec.close(w.log_density(wx, **kw), wl, "log-density", name=name, bs=bs)
            rec.close(w.density(wx, **kw), np.exp(wl), "density", name=name, bs=bs)
            rec.expect(tuple(w.get_batch_shape(wx)) == (*bs, *cb), "batch-shape", name=name, bs=bs)
            kz = {} if c is None else dict(z=c)
            if b == 1 and cb == ():
                xz, lz = wr.sample(bs, rng=k, **kz)
                rec.close(xz, wx, "renamed-condition", name=name, bs=bs)
                rec.close(wr.log_density(wx, **kz), wl, "renamed-condition:density", name=name, bs=bs)
                # internal stream: successive draws differ and agree with their density; explicit keys leave it alone
                n0 = int(wr.rngs.default.count[...])
                x1, l1 = wr.sample(bs, **kz)
                wr.sample(bs, rng=k, **kz)
                x2, l2 = wr.sample(bs, **kz)
                rec.expect(int(wr.rngs.default.count[...]) == n0 + 2, "stream:count", name=name, bs=bs)
                rec.expect(not np.any(np.asarray(x1) == np.asarray(x2)), "stream:distinct", name=name, bs=bs)
                rec.close(l1, d.log_prob(x1, c), "stream:density", name=name, bs=bs)
            rec.state(name, bs, cb)
            rec.trace()
    if b != 1:
        return
    try:
        w.sample((2,), **kw)
        rec.expect(False, "missing-random-source-accepted", name=name)
    except ValueError:
        rec.expect(True, "ok")
    # parameter gradient of the density
    x = wx
    gb = jax.tree.leaves(nnx.grad(lambda m: m.log_density(x, **kw).sum())(w))
    gf = jax.tree.leaves(eqx.filter_grad(lambda m: m.log_prob(x, c).sum())(d))
    rec.expect(len(gb) == len(gf), "gradient:leaves", name=name)
    for p, q in zip(gb, gf):
        rec.close(p, q, "gradient", name=name)
    # as prior of a bijx flow
    if es:
        s = jnp.asarray(generic(es, 0.5, 2))
        t = bijx.Transformed(w, bijx.Scaling(s))
        k = jax.random.key(5)
        tx, tl = t.sample((2,), rng=k, **kw)
        px, pl = w.sample((2,), rng=k, **kw)
        rec.close(tx, px * s, "as-prior:samples", name=name)
        rec.close(tl, pl - jnp.log(s).sum(), "as-prior:density", name=name)
        rec.close(t.log_density(tx, **kw), tl, "as-prior:log-density", name=name, rtol=1e-6)


def run_bdist(rec, name, b):
    import bijx
    import bijx.flowjax as B
    import equinox as eqx
    import flowjax.bijections as fb
    import flowjax.distributions as fd
    import jax
    import jax.numpy as jnp
    from flax import nnx

    d, es, cs = bdist(name)
    f = B.to_flowjax(d, shape=es, cond_shape=cs)
    rec.expect(isinstance(f, fd.AbstractDistribution) and f.shape == es and f.cond_shape == cs, "type", name=name)
    draw = jax.jit(lambda k, kw: bdist(name)[0].sample((), rng=k, **kw))
    for bs in [BATCH[b]]:
        for cb in [()] if cs is None else [(), (2,)]:
            c = None if cs is None else jnp.asarray(pts(cs, cb, salt=3))
            n = prod((*bs, *cb))
            for seed in range(2 if b == 1 else 1):
                k = jax.random.key(seed)
                keys = jax.random.split(k, n)
                cc = None if c is None else np.broadcast_to(c, (*bs, *c.shape)).reshape(n, *cs)
                want = []
                for i in range(n):
                    want.append(draw(keys[i], {} if c is None else dict(condition=jnp.asarray(cc[i]))))
                wx = np.stack([np.asarray(v[0]) for v in want]).reshape((*bs, *cb, *es))
                wl = np.stack([np.asarray(v[1]) for v in want]).reshape((*bs, *cb))
                fs = eqx.filter_jit(lambda f, k, c: f.sample_and_log_prob(k, bs, c))
                rec.close(f.sample(k, bs, c), wx, "samples", name=name, bs=bs)
                x, l = f.sample_and_log_prob(k, bs, c)
                rec.close(x, wx, "joint:samples", name=name, bs=bs)
                rec.close(l, wl, "joint:density", name=name, bs=bs)
                rec.close(f.log_prob(wx, c), wl, "log-prob", name=name, bs=bs)
                if b == 0:
                    rec.close(f.sample(k, bs, c), wx, "samples:repeatable", name=name, bs=bs)
                rec.step(4)
            x, l = fs(f, k, c)
            rec.close(x, wx, "compiled:samples", name=name, bs=bs)
            rec.close(l, wl, "compiled:density", name=name, bs=bs, rtol=1e-6)
            rec.state(name, bs, cb)
            rec.trace()
    if b != 1:
        return
    if cs is not None:
        # the condition travels under the declared keyword
        g = B.BijxToFlowjaxDistribution.from_distribution(bijx.Transformed(bijx.IndependentNormal(es), bbij("condz")[0]), es, cs, "z")
        h = B.to_flowjax(bijx.Transformed(bijx.IndependentNormal(es), bbij("cond")[0]), shape=es, cond_shape=cs)
        rec.expect(g.shape == es and g.cond_shape == cs, "renamed-condition:shapes", name=name)
        k = jax.random.key(4)
        rec.close(g.sample(k, (2,), c), h.sample(k, (2,), c), "renamed-condition:samples", name=name)
        for a, q in zip(g.sample_and_log_prob(k, (2,), c), h.sample_and_log_prob(k, (2,), c)):
            rec.close(a, q, "renamed-condition:joint", name=name)
        rec.close(g.log_prob(wx, c), h.log_prob(wx, c), "renamed-condition:log-prob", name=name)
        rec.close(h.log_prob(wx, c), f.log_prob(wx, c), "renamed-condition:reference", name=name)
        rec.step(4)
    # gradient of the density with respect to stored parameters
    gf = jax.tree.leaves(eqx.filter_grad(lambda m: m.log_prob(wx, c).sum())(f))
    gd, st = nnx.split(d)
    isx = lambda v: hasattr(v, "dtype") and jnp.issubdtype(v.dtype, jnp.inexact)
    leaves, td = jax.tree.flatten(st)
    diff = [v for v in leaves if isx(v)]

    def on(vals):
        it = iter(vals)
        kw = {} if c is None else dict(condition=c)
        return nnx.merge(gd, td.unflatten([next(it) if isx(v) else v for v in leaves])).log_density(jnp.asarray(wx), **kw).sum()

    if cs is None:
        gb = jax.grad(on)(diff) if diff else []
        rec.expect(len(gb) == len(gf), "gradient:leaves", name=name)
        for p, q in zip(gf, gb):
            rec.close(p, q, "gradient", name=name)
    # as base of a FlowJAX flow
    a = fb.Affine(jnp.ones(es), 2 * jnp.ones(es))
    t = fd.Transformed(f, a)
    k = jax.random.key(9)
    x, l = t.sample_and_log_prob(k, (2,), c)
    bx, bl = f.sample_and_log_prob(k, (2,), c)
    rec.close(x, 2 * bx + 1, "as-base:samples", name=name)
    rec.close(l, bl - prod(es) * np.log(2), "as-base:density", name=name)
    rec.close(t.log_prob(x, c), l, "as-base:log-prob", name=name, rtol=1e-6)


def run_round(rec, lib, name, depth):
    import bijx.flowjax as B
    import jax.numpy as jnp

    if lib == "f":
        base = fbij(name)
        es, cs = base.shape, base.cond_shape
        ref = lambda x, c: base.transform_and_log_det(x, c)
        rin = lambda x, c: base.inverse_and_log_det(x, c)
    else:
        base, es, cs, _ = bbij(name)
        kw = lambda c: {} if c is None else dict(condition=c)
        ref = lambda x, c: (lambda y, l: (y, -l))(*base.forward(x, jnp.zeros(()), **kw(c)))
        rin = lambda x, c: (lambda y, l: (y, -l))(*base.reverse(x, jnp.zeros(()), **kw(c)))
    cur, is_f = base, lib == "f"
    x = jnp.asarray(pts(es))
    c = None if cs is None else jnp.asarray(pts(cs, (), salt=5))
    y, l = ref(x, c)
    xi, li = rin(y, c)
    for d in range(1, depth + 1):
        cur = B.from_flowjax(cur) if is_f else B.to_flowjax(cur, shape=es, cond_shape=cs)
        is_f = not is_f
        if is_f:
            got, inv = cur.transform_and_log_det(x, c), cur.inverse_and_log_det(y, c)
        else:
            k = {} if c is None else dict(condition=c)
            got = (lambda y, l: (y, -l))(*cur.forward(x, jnp.zeros(()), **k))
            inv = (lambda y, l: (y, -l))(*cur.reverse(y, jnp.zeros(()), **k))
            b = cur.forward(jnp.stack([x, x]), jnp.zeros(2), **k)
            rec.close(b[0], jnp.stack([y, y]), "batched:image", name=name, depth=d)
            rec.close(b[1], -jnp.stack([l, l]), "batched:density", name=name, depth=d)
        rec.close(got[0], y, "image", name=name, depth=d)
        rec.close(got[1], l, "log-det", name=name, depth=d)
        rec.close(inv[0], xi, "inverse", name=name, depth=d)
        rec.close(inv[1], li, "inverse-log-det", name=name, depth=d)
        rec.state(lib, name, d)
        rec.step(2)
    rec.trace()


def run_roundd(rec, lib, name, depth):
    import bijx.flowjax as B
    import jax
    import jax.numpy as jnp

    if lib == "f":
        cur = fdist(name)
        es, cs = cur.shape, cur.cond_shape
        f0 = cur
    else:
        cur, es, cs = bdist(name)
        f0 = B.to_flowjax(cur, shape=es, cond_shape=cs)
    is_f = lib == "f"
    c = None if cs is None else jnp.asarray(pts(cs, (), salt=5))
    k = jax.random.key(2)
    x, l = f0.sample_and_log_prob(k, (3,), c)
    kw = {} if c is None else dict(condition=c)
    for d in range(1, depth + 1):
        cur = B.from_flowjax(cur) if is_f else B.to_flowjax(cur, shape=es, cond_shape=cs)
        is_f = not is_f
        if is_f:
            rec.close(cur.log_prob(x, c), l, "log-prob", name=name, depth=d)
            s = cur.sample(k, (3,), c)
            rec.close(cur.log_prob(s, c), cur.sample_and_log_prob(k, (3,), c)[1], "joint", name=name, depth=d)
        else:
            rec.close(cur.log_density(x, **kw), l, "log-density", name=name, depth=d)
            s, sl = cur.sample((3,), rng=k, **kw)
            rec.close(sl, f0.log_prob(s, c), "joint", name=name, depth=d)
            rec.expect(s.shape == x.shape, "shape", name=name, depth=d)
        rec.state(lib, name, d)
        rec.step(2)
    rec.trace()


def letter(ch):
    """flowjax object, bijx object, scalar map with derivative (all elementwise on shape (3,))"""
    import bijx
    import flowjax.bijections as fb
    import jax.numpy as jnp

    s = generic((3,), 0.5, 2, 2)
    if ch == "fa":
        return "f", fb.Affine(jnp.ones(3) * 0.3, jnp.asarray(s)), lambda x, c: (x * s + 0.3, np.log(s).sum())
    if ch == "fe":
        return "f", fb.LeakyTanh(1, (3,)), None
    if ch == "fm":
        return "f", fbij("addc"), None
    if ch == "bs":
        return "b", bijx.Scaling(jnp.asarray(s)), lambda x, c: (x * s, np.log(s).sum())
    if ch == "bn":
        return "b", bijx.Sinh(), lambda x, c: (np.sinh(x), np.log(np.cosh(x)).sum())
    if ch == "bc":
        return "b", bbij("cond")[0], None


def run_mixed(rec, word):
    """A mixed chain as a flow of either library agrees with the member-by-member composition."""
    import bijx
    import bijx.flowjax as B
    import flowjax.bijections as fb
    import flowjax.distributions as fd
    import jax
    import jax.numpy as jnp

    L = [letter(w) for w in word]
    cond = {"fm", "bc"}
    x = jnp.asarray(pts((3,), (), lo=-0.4, hi=0.4))
    c = jnp.asarray(pts((2,), (), salt=5))
    y, tot = x, 0.0
    fw, bw = [], []
    needs = any(w in cond for w in word)
    for w, (lib, o, ref) in zip(word, L):
        if ref is not None:
            y2, l = ref(np.asarray(y), None)
        elif lib == "f":
            y2, l = o.transform_and_log_det(y, c if w in cond else None)
        else:
            y2, l = o.forward(y, jnp.zeros(()), condition=c)
            l = -l
        y, tot = jnp.asarray(y2), tot + l
        # the FlowJAX chain passes the condition to every member, so all converted members declare it if any member is conditional
        fw.append(o if lib == "f" else B.to_flowjax(o, shape=(3,), cond_shape=(2,) if needs else None))
        bw.append(B.from_flowjax(o) if lib == "f" else o)
    kw = dict(condition=c) if needs else {}
    cc = c if needs else None
    F, G = fb.Chain(fw), bijx.Chain(*bw)
    fy, fl = F.transform_and_log_det(x, cc)
    rec.close(fy, y, "flowjax:image", word=word)
    rec.close(fl, tot, "flowjax:log-det", word=word)
    fx, fil = F.inverse_and_log_det(y, cc)
    rec.close(fx, x, "flowjax:inverse", word=word, rtol=1e-5, atol=1e-6)
    rec.close(fil, -tot, "flowjax:inverse-log-det", word=word, rtol=1e-5, atol=1e-6)
    for bs in [(), (2,)]:
        xb = jnp.broadcast_to(x, (*bs, 3))
        gy, gl = G.forward(xb, jnp.full(bs, 0.25), **kw)
        rec.close(gy, np.broadcast_to(y, (*bs, 3)), "bijx:image", word=word)
        rec.close(gl, np.broadcast_to(0.25 - tot, bs), "bijx:density", word=word)
        gx, gr = G.reverse(gy, gl, **kw)
        rec.close(gx, xb, "bijx:inverse", word=word, rtol=1e-5, atol=1e-6)
        rec.close(gr, np.full(bs, 0.25), "bijx:inverse-density", word=word, rtol=1e-5, atol=1e-6)
    # the flow density is the same in both libraries
    ft = fd.Transformed(fd.StandardNormal((3,)), F)
    bt = bijx.Transformed(bijx.IndependentNormal((3,)), G)
    rec.close(bt.log_density(y, **kw), ft.log_prob(y, cc), "flow-density", word=word, rtol=1e-6)
    rec.state(*word)
    rec.step(4 * len(word))
    rec.trace()


def run_errors(rec):
    import bijx
    import bijx.flowjax as B
    import flowjax.bijections as fb
    import jax.numpy as jnp

    sc = bijx.Scaling(jnp.ones(3))
    cond = bbij("cond")[0]

    def raises(label, exc, f):
        rec.step()
        try:
            f()
            rec.expect(False, "accepted:" + label)
        except exc:
            rec.expect(True, label)

    for v in ("not-a-module", 3, None, sc, bijx.IndependentNormal((2,))):
        raises("from_flowjax:" + type(v).__name__, ValueError, lambda: B.from_flowjax(v))
    for v in ("not-a-module", 3, None, fb.Affine()):
        raises("to_flowjax:" + type(v).__name__, ValueError, lambda: B.to_flowjax(v, shape=(1,)))
    raises("no-shape:bijection", TypeError, lambda: B.to_flowjax(sc))
    raises("no-shape:distribution", TypeError, lambda: B.to_flowjax(bijx.IndependentNormal((2,))))
    for d in ("transform_and_log_det", "inverse_and_log_det"):
        x = jnp.ones(3)
        raises("undeclared-condition", TypeError, lambda: getattr(B.to_flowjax(sc, shape=(3,)), d)(x, jnp.ones(2)))
        for s in [(1,), (3,), (2, 2), ()]:
            raises("condition-shape", ValueError, lambda: getattr(B.to_flowjax(cond, shape=(3,), cond_shape=(2,)), d)(x, jnp.ones(s)))
        raises("missing-condition", ValueError, lambda: getattr(B.to_flowjax(cond, shape=(3,), cond_shape=(2,)), d)(x))
        for s in [(2,), (4,), (2, 3), ()]:
            raises("event-shape", ValueError, lambda: getattr(B.to_flowjax(sc, shape=(3,)), d)(jnp.ones(s)))
    f = B.from_flowjax(fbij("mafc"))
    raises("missing-condition:wrapped", ValueError, lambda: f.forward(jnp.ones(3), jnp.zeros(())))
    rec.state("errors")
    rec.trace()

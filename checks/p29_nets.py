"""P29: ready-made networks equal the documented compositions."""
import itertools

import numpy as np

from mc.lib import generic, prod

PROPERTY = "P29"
RULE = (
    "All hidden layer lists over a width alphabet up to the length bound x input/output widths x activations x batch shapes: multi-layer perceptron equals the explicit "
    "composition of its affine layers.  All widths x depths of the residual network likewise; with dropout, every training-mode output is one of the outputs of the "
    "complete set of keep/drop patterns of all layers and coordinates, all calls of one stream are reproducible, evaluation mode is deterministic.  All lattice shapes, "
    "kernel sizes, hidden channel lists, paddings: convolutional network equals an explicit site sum; all lattice translations commute with periodic networks; "
    "every input site influences exactly the sites within the summed kernel reach.  All parameters carry independent initial values and have an effect."
)
ASSUMPTIONS = ["at least one hidden layer", "inputs are not modified in place (immutable arrays)"]

ACT = ["leaky", "gelu", "tanh", "id", "square"]


def cases(tier):
    q = tier == "quick"
    for n in range(1, 3 if q else 4):
        for h in itertools.product((1, 2, 3), repeat=n):
            yield "mlp", dict(hidden=list(h))
    for h in ([17], [9, 16, 5]):
        yield "mlp", dict(hidden=h)
    for width, depth in ((16, 1), (7, 6)):
        yield "resnet", dict(width=width, depth=depth)
    for width in (1, 2, 3):
        for depth in range(0, 3 if q else 5):
            yield "resnet", dict(width=width, depth=depth)
    for width, depth in [(1, 1), (1, 3), (2, 1), (2, 2), (3, 2)] if q else [(1, 1), (1, 4), (2, 1), (2, 2), (2, 4), (3, 2), (3, 3), (5, 2)]:
        for rate in (0.25, 0.5):
            yield "dropout", dict(width=width, depth=depth, rate=rate)
    for shape in [(4,), (3,), (3, 4), (4, 4)] + ([] if q else [(5,), (6,), (5, 6), (2, 3, 4), (1, 4)]):
        D = len(shape)
        for ker in itertools.product((1, 2, 3) if D < 2 or not q else (1, 3), repeat=D):
            if any(k > s + 1 for k, s in zip(ker, shape)):
                continue
            for pad in ("CIRCULAR", "SAME", "VALID") if D == 1 or ker in ((3, 3), (2, 3)) else ("CIRCULAR",):
                yield "conv", dict(shape=list(shape), kernel=list(ker), padding=pad, hidden=[2] if D > 1 else [2, 3])
    yield "defaults", dict()


def weight(f, c):
    return {"conv": 3, "dropout": 2}.get(f, 1)


def run_case(family, case, rec):
    globals()["run_" + family](rec, **case)


def act(name):
    from flax import nnx

    return dict(leaky=nnx.leaky_relu, gelu=nnx.gelu, tanh=nnx.tanh, id=lambda x: x, square=lambda x: x * x + 0.5)[name]


def np_act(name):
    return dict(
        leaky=lambda x: np.where(x >= 0, x, 0.01 * x),
        gelu=lambda x: 0.5 * x * (1 + np.tanh(np.sqrt(2 / np.pi) * (x + 0.044715 * x**3))),
        tanh=np.tanh, id=lambda x: x, square=lambda x: x * x + 0.5,
    )[name]


def randomise(m):
    """Overwrite every parameter with its own distinct double precision values; returns them by path."""
    import jax.numpy as jnp
    from flax import nnx

    out = {}
    for i, (p, v) in enumerate(nnx.to_flat_state(nnx.state(m, nnx.Param))):
        a = generic(np.shape(v[...]), -0.9, 0.9, i + 1)
        v.set_value(jnp.asarray(a))
        out[tuple(map(str, p))] = a
    return out


def affine(P, key, x):
    return x @ P[(*key, "kernel")] + P[(*key, "bias")]


BATCH = [(), (1,), (3,), (2, 2), (0,)]


def run_mlp(rec, hidden):
    import jax
    import jax.numpy as jnp
    from bijx.nn.nets import MLP
    from flax import nnx

    for i, o in ((1, 1), (2, 3), (3, 1)):
        for a, f in itertools.product(ACT[:4], ACT[2:]):
            m = MLP(i, o, hidden, activation=act(a), final_activation=act(f), rngs=nnx.Rngs(0))
            shapes = {p: np.shape(v[...]) for p, v in nnx.to_flat_state(nnx.state(m, nnx.Param))}
            dims = [i, *hidden, o]
            rec.expect(sum(map(prod, shapes.values())) == sum((p + 1) * q for p, q in zip(dims, dims[1:])), "parameters", hidden=hidden, i=i, o=o)
            init = [np.asarray(v[...]).ravel() for p, v in nnx.to_flat_state(nnx.state(m, nnx.Param)) if p[-1] == "kernel"]
            al = np.concatenate(init)
            rec.expect(len(set(al.tolist())) == al.size and np.all(al != 0), "independent-initialisation", hidden=hidden)
            P = randomise(m)
            for b in BATCH if (a, f) == ("gelu", "id") else BATCH[:1] + [(2,)]:
                x = generic((*b, i), -1.5, 1.5, 7)
                y = x
                for l in range(len(hidden)):
                    y = np_act(a)(affine(P, ("layers", str(l)), y))
                y = np_act(f)(affine(P, ("layers", str(len(hidden))), y))
                rec.close(m(jnp.asarray(x)), y, "composition", hidden=hidden, act=a, final=f, b=b, rtol=1e-6, atol=1e-7)
                rec.step()
            rec.state(tuple(hidden), i, o, a, f)
            rec.trace()
    # defaults: smooth unit between layers, none at the end
    m = MLP(2, 2, hidden, rngs=nnx.Rngs(1))
    P = randomise(m)
    x = generic((4, 2), -2, 2)
    y = x
    for l in range(len(hidden)):
        y = np_act("gelu")(affine(P, ("layers", str(l)), y))
    rec.close(m(jnp.asarray(x)), affine(P, ("layers", str(len(hidden))), y), "default-activations", rtol=1e-6, atol=1e-7)
    rec.close(jax.vmap(m)(jnp.asarray(x)), m(jnp.asarray(x)), "vectorised", rtol=1e-9)


def resnet_ref(P, depth, a, f, x, masks=None):
    y = affine(P, ("first_layer",), x)
    for l in range(depth):
        d = y if masks is None else y * masks[l]
        y = y + affine(P, ("hidden_layers", str(l)), np_act(a)(d))
    return np_act(f)(affine(P, ("final_layer",), y))


def run_resnet(rec, width, depth):
    import jax.numpy as jnp
    from bijx.nn.nets import ResNet
    from flax import nnx

    for i, o in ((1, 1), (2, 3)):
        for a, f in itertools.product(ACT, ACT[2:]):
            m = ResNet(i, o, width, depth, activation=act(a), final_activation=act(f), rngs=nnx.Rngs(0))
            P = randomise(m)
            rec.expect(sum(map(np.size, P.values())) == (i + 1) * width + depth * (width + 1) * width + (width + 1) * o, "parameters", width=width, depth=depth)
            for b in BATCH if (a, f) == ("gelu", "id") else BATCH[:1] + [(2,)]:
                x = generic((*b, i), -1.5, 1.5, 7)
                want = resnet_ref(P, depth, a, f, x)
                rec.close(m(jnp.asarray(x)), want, "composition", width=width, depth=depth, act=a, final=f, b=b, rtol=1e-6, atol=1e-7)
                rec.step()
            # numpy input is not modified by the accumulated skip connections
            x = generic((3, i))
            keep = x.copy()
            m(x)
            rec.expect(np.array_equal(x, keep), "input-modified")
            rec.state(width, depth, i, o, a, f)
            rec.trace()
    # initialisers of the last layer, and of it alone
    one, two = nnx.initializers.constant(1.5), nnx.initializers.constant(-2.5)
    m = ResNet(2, 3, width, depth, final_kernel_init=one, final_bias_init=two, rngs=nnx.Rngs(0))
    for p, v in nnx.to_flat_state(nnx.state(m, nnx.Param)):
        last = p[0] == "final_layer"
        rec.expect(np.all(np.asarray(v[...]) == 1.5) == (last and p[-1] == "kernel"), "final-kernel-init", path=str(p))
        rec.expect(np.all(np.asarray(v[...]) == -2.5) == (last and p[-1] == "bias"), "final-bias-init", path=str(p))
    ks = np.concatenate([np.asarray(v[...]).ravel() for p, v in nnx.to_flat_state(nnx.state(m, nnx.Param)) if p[-1] == "kernel" and p[0] != "final_layer"])
    rec.expect(len(set(ks.tolist())) == ks.size, "independent-initialisation")


def run_dropout(rec, width, depth, rate):
    """Training-mode outputs against the complete set of keep/drop patterns."""
    import jax.numpy as jnp
    from bijx.nn.nets import ResNet
    from flax import nnx

    x = generic((2,), 0.3, 1.2, 3)

    def build(seed=0):
        m = ResNet(2, 2, width, depth, dropout=rate, rngs=nnx.Rngs(params=0, dropout=seed))
        return m, randomise(m)

    m, P = build()
    pats = list(itertools.product([0.0, 1 / (1 - rate)], repeat=width * depth))
    outs = np.stack([resnet_ref(P, depth, "gelu", "id", x, np.array(p).reshape(depth, width)) for p in pats])
    prob = np.array([np.prod([1 - rate if v else rate for v in p]) for p in pats])
    seen = {}
    n = min(64, 8 * len(pats))
    seqs = []
    for seed in range(3):
        m, _ = build(seed)
        seq = []
        for _ in range(n):
            y = np.asarray(m(jnp.asarray(x)))
            d = np.abs(outs - y).max(1)
            k = int(d.argmin())
            rec.expect(d[k] < 1e-5, "not-a-pattern", width=width, depth=depth, rate=rate, dev=d[k])
            seen[k] = seen.get(k, 0) + 1
            seq.append(k)
            rec.step()
            rec.state(width, depth, rate, k)
        seqs.append(seq)
        # the same stream gives the same sequence
        m2, _ = build(seed)
        rec.expect([int(np.abs(outs - np.asarray(m2(jnp.asarray(x)))).max(1).argmin()) for _ in range(8)] == seq[:8], "reproducible", seed=seed)
        rec.expect(len(set(seq)) > 1, "always-the-same-pattern", seed=seed)
        rec.trace()
        # evaluation mode
        m.eval()
        want = resnet_ref(P, depth, "gelu", "id", x)
        for _ in range(2):
            rec.close(m(jnp.asarray(x)), want, "evaluation", rtol=1e-6, atol=1e-7)
        m.train()
        tr = {int(np.abs(outs - np.asarray(m(jnp.asarray(x)))).max(1).argmin()) for _ in range(16)}
        rec.expect(len(tr) > 1, "train-mode-again", seed=seed)
        # distinct samples of a batch have their own patterns, all of them admissible
        Y = np.asarray(m(jnp.asarray(np.tile(x, (32, 1)))))
        D = np.abs(outs[None] - Y[:, None]).max(-1)
        rec.expect(D.min(1).max() < 1e-5, "batch:not-a-pattern")
        rec.expect(len(set(D.argmin(1).tolist())) > 1, "batch:shared-pattern")
        rec.step(32)
        # several batch axes: no axis shares its patterns
        for lead in ((16, 16), (2, 8, 16)):
            Y = np.asarray(m(jnp.asarray(np.broadcast_to(x, lead + (2,)))))
            D = np.abs(outs - Y[..., None, :]).max(-1)
            rec.expect(D.min(-1).max() < 1e-5, "batch:not-a-pattern", lead=lead)
            A = D.argmin(-1)
            for ax in range(len(lead)):
                rec.expect(not np.all(A == A.take([0], axis=ax)), "batch:shared-along-axis", lead=lead, axis=ax)
                for a2 in range(ax):
                    if lead[ax] == lead[a2]:
                        rec.expect(not np.all(A == A.swapaxes(ax, a2)), "batch:symmetric", lead=lead)
            rec.step(A.size)
            rec.state(width, depth, rate, lead)
    rec.expect(seqs[0] != seqs[1] or seqs[1] != seqs[2], "stream-dependence")
    if len(pats) <= 4:
        # every pattern occurs, and about as often as it should (exact multinomial tail is far below 1e-9 for these bounds)
        tot = 3 * n
        for k in range(len(pats)):
            rec.expect(abs(seen.get(k, 0) - tot * prob[k]) < 7 * np.sqrt(tot * prob[k] * (1 - prob[k])) + 3, "pattern-frequency", k=k, got=seen.get(k, 0), want=tot * prob[k])
    # no dropout layer effect without rate
    z = ResNet(2, 2, width, depth, dropout=0.0, rngs=nnx.Rngs(0))
    Q = randomise(z)
    rec.close(z(jnp.asarray(x)), resnet_ref(Q, depth, "gelu", "id", x), "no-dropout", rtol=1e-6, atol=1e-7)


def conv_ref(x, K, b, padding):
    """x: (*shape, c_in), K: (*kernel, c_in, c_out); out[s] = sum_j x[s + j - (k-1)//2] K[j] + b."""
    D = K.ndim - 2
    ker = K.shape[:D]
    shape = x.shape[:D]
    off = [(k - 1) // 2 if padding != "VALID" else 0 for k in ker]
    osh = shape if padding != "VALID" else tuple(s - k + 1 for s, k in zip(shape, ker))
    out = np.zeros((*osh, K.shape[-1]))
    for s in np.ndindex(*osh):
        for j in np.ndindex(*ker):
            t = [a + c - o for a, c, o in zip(s, j, off)]
            if padding == "CIRCULAR":
                t = [v % n for v, n in zip(t, shape)]
            elif any(v < 0 or v >= n for v, n in zip(t, shape)):
                continue
            out[s] += x[tuple(t)] @ K[j]
        out[s] += b
    return out


def run_conv(rec, shape, kernel, padding, hidden):
    import jax
    import jax.numpy as jnp
    from bijx.nn.nets import ConvNet
    from flax import nnx

    shape, kernel = tuple(shape), tuple(kernel)
    if padding == "VALID" and any(s - (len(hidden) + 1) * (k - 1) < 1 for s, k in zip(shape, kernel)):
        return
    for ci, co, a, f in ((1, 1, "leaky", "tanh"), (2, 3, "square", "id")):
        m = ConvNet(ci, co, kernel, hidden, activation=act(a), final_activation=act(f), padding=padding, rngs=nnx.Rngs(0))
        P = randomise(m)
        dims = [ci, *hidden, co]
        rec.expect(sum(map(np.size, P.values())) == sum((prod(kernel) * p + 1) * q for p, q in zip(dims, dims[1:])), "parameters", shape=shape, kernel=kernel)

        def ref(x):
            for l in range(len(dims) - 1):
                x = conv_ref(x, P[("conv_layers", str(l), "kernel")], P[("conv_layers", str(l), "bias")], padding)
                x = np_act(a if l < len(dims) - 2 else f)(x)
            return x

        jm = jax.jit(lambda v: m(v))
        X = generic((3, *shape, ci), -1, 1, 4)
        want = np.stack([ref(x) for x in X])
        got = np.asarray(jm(jnp.asarray(X)))
        rec.close(got, want, "site-sum", shape=shape, kernel=kernel, padding=padding, rtol=1e-5, atol=1e-6)
        rec.close(m(jnp.asarray(X[0])), want[0], "unbatched", rtol=1e-5, atol=1e-6)
        rec.close(m(jnp.asarray(X[None])), want[None], "two-batch-axes", rtol=1e-5, atol=1e-6)
        rec.step(3)
        # every site and channel on its own
        base = ref(np.zeros((*shape, ci)))
        B = np.zeros((prod(shape) * ci, prod(shape) * ci))
        np.fill_diagonal(B, 0.7)
        B = B.reshape(-1, *shape, ci)
        out = np.asarray(jax.jit(lambda v: m(v))(jnp.asarray(B)))
        for e, y in zip(B, out):
            rec.close(y, ref(e), "unit-source", shape=shape, kernel=kernel, padding=padding, rtol=1e-5, atol=1e-6)
            rec.state(shape, kernel, padding, int(e.argmax()))
            rec.step()
        if padding == "CIRCULAR":
            for t in np.ndindex(*shape):
                ax = tuple(range(1, 1 + len(shape)))
                g = np.asarray(jm(jnp.asarray(np.roll(X, t, ax))))
                rec.close(g, np.roll(got, t, ax), "translation", shape=shape, kernel=kernel, t=t, rtol=1e-6, atol=1e-7)
                rec.step()
            if all(k % 2 for k in kernel):
                # symmetric reach: reflecting lattice and kernels together
                q = nnx.clone(m)
                for p, v in nnx.to_flat_state(nnx.state(q, nnx.Param)):
                    if p[-1] == "kernel":
                        u = q
                        for k in p:
                            u = u[k] if isinstance(k, int) else getattr(u, k)
                        u.set_value(jnp.flip(v[...], tuple(range(len(shape)))))
                fl = lambda v: np.flip(v, tuple(range(1, 1 + len(shape))))
                rec.close(fl(np.asarray(q(jnp.asarray(fl(X).copy())))), got, "reflection", rtol=1e-6, atol=1e-7)
        rec.trace()


def run_defaults(rec):
    """Documented defaults, last layer initialisers, independent initial values."""
    import jax.numpy as jnp
    from bijx.nn.nets import ConvNet, MLP, ResNet
    from flax import nnx

    flat = lambda m: {tuple(map(str, p)): np.asarray(v[...]) for p, v in nnx.to_flat_state(nnx.state(m, nnx.Param))}
    m = ConvNet(1, 2, rngs=nnx.Rngs(0))
    P = flat(m)
    rec.expect([P[("conv_layers", str(i), "kernel")].shape for i in range(3)] == [(3, 3, 1, 8), (3, 3, 8, 8), (3, 3, 8, 2)], "convnet:shapes")
    ks = np.concatenate([P[("conv_layers", str(i), "kernel")].ravel() for i in range(3)])
    rec.expect(len(set(ks.tolist())) == ks.size, "convnet:independent")
    X = generic((2, 5, 4, 1), -1, 1)
    x = X[0]
    for i in range(3):
        x = conv_ref(x, P[("conv_layers", str(i), "kernel")].astype(float), P[("conv_layers", str(i), "bias")].astype(float), "CIRCULAR")
        x = np_act("leaky" if i < 2 else "tanh")(x)
    rec.close(m(jnp.asarray(X))[0], x, "convnet:defaults", rtol=1e-4, atol=1e-5)
    for n_h in (1, 2, 3):
        one, two = nnx.initializers.constant(1.5), nnx.initializers.constant(-2.5)
        m = ConvNet(1, 2, (3,), [2] * n_h, final_kernel_init=one, final_bias_init=two, rngs=nnx.Rngs(0))
        for p, v in flat(m).items():
            last = p[1] == str(n_h)
            rec.expect(np.all(v == 1.5) == (last and p[-1] == "kernel"), "convnet:final-kernel-init", path=p)
            rec.expect(np.all(v == -2.5) == (last and p[-1] == "bias"), "convnet:final-bias-init", path=p)
        rec.step()
    # the mutable default argument is not shared
    a, b = ConvNet(1, 1, (3,), rngs=nnx.Rngs(0)), ConvNet(1, 1, (3,), rngs=nnx.Rngs(0))
    rec.expect({k: v.shape for k, v in flat(a).items()} == {k: v.shape for k, v in flat(b).items()}, "convnet:second-instance")
    for h in ((2, 3), [2, 3]):
        c = ConvNet(1, 1, (3,), h, rngs=nnx.Rngs(0))
        rec.expect(list(h) == [2, 3] and c(jnp.ones((1, 4, 1))).shape == (1, 4, 1), "convnet:list-or-tuple")
        d = MLP(1, 1, h, rngs=nnx.Rngs(0))
        rec.expect(list(h) == [2, 3] and d(jnp.ones((1,))).shape == (1,), "mlp:list-or-tuple")
    for cls, args in ((MLP, (2, 3)), (ResNet, (2, 3))):
        m = cls(*args, rngs=nnx.Rngs(0))
        sh = sorted(v.shape for v in flat(m).values())
        want = dict(MLP=[(2, 1024), (1024,), (1024, 1024), (1024,), (1024, 3), (3,)],
                    ResNet=[(2, 1024), (1024,)] + 3 * [(1024, 1024), (1024,)] + [(1024, 3), (3,)])[cls.__name__]
        rec.expect(sh == sorted(want), "default-sizes", cls=cls.__name__, got=sh)
        s1, s2, s3 = flat(cls(*args, rngs=nnx.Rngs(0))), flat(m), flat(cls(*args, rngs=nnx.Rngs(1)))
        rec.expect(all(np.array_equal(s1[k], s2[k]) for k in s1), "seed-reproducible")
        rec.expect(all(not np.array_equal(s1[k], s3[k]) for k in s1 if k[-1] == "kernel"), "seed-dependence")
        rec.step(2)
    rec.state("defaults")
    rec.trace()

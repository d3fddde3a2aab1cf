"""P06: coupling layers and parameter reconstruction."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P06"
RULE = (
    "Every non-constant binary mask on the listed event shapes x {index-splitting, multiplicative} masking x "
    "{affine, spline, two-stage chain, vector-valued} templates x {flat array, list, dict} conditioner outputs x "
    "batch shapes x both directions; oracle: numpy evaluation of the triangular map for affine templates and the "
    "full Jacobian of the layer for all; multiplicative masking of whole vectors and matrices (every mask of the leading "
    "sites x every batch shape; masks that cut a vector are rejected); reconstruction: every template x every parameter representation x batch "
    "shape against direct evaluation with the parameters written into the module; every method arity x representation x batch x rank specification of the wrapper."
)
ASSUMPTIONS = ["conditioner networks are deterministic functions of the passive values; constant masks only in thorough"]


def nonconst(n):
    return list(range(1, 2**n - 1))


TEMPL0 = ["affine", "spline", "chain"]


def cases(tier):
    big = tier == "thorough"
    for shape in [(2,), (3,), (2, 2)] + ([(4,), (1, 3), (2, 1, 2)] if big else []):
        n = int(np.prod(shape))
        codes = nonconst(n)
        for i in range(0, len(codes), 4):
            for split in (True, False):
                for t in TEMPL0:
                    if t == "spline" and n > 3 and not big:
                        continue
                    yield "rank0", dict(shape=list(shape), codes=codes[i:i + 4], split=split, t=t)
    # larger events: single active or passive entries, halves, alternating
    for shape in [(11,), (4, 5)]:
        n = int(np.prod(shape))
        codes = [1, 1 << (n - 1), (1 << n) - 2, (1 << (n // 2)) - 1, sum(1 << i for i in range(0, n, 2)), 0b10011101 << 1]
        for split in (True, False):
            for t in TEMPL0 if big else TEMPL0[:2]:
                yield "rank0", dict(shape=list(shape), codes=codes, split=split, t=t)
    for shape in [(3,), (2, 2)]:
        n = int(np.prod(shape))
        codes = nonconst(n)
        for i in range(0, len(codes), 7):
            yield "rank1", dict(shape=list(shape), codes=codes[i:i + 7])
    for lead, ev in [((2,), (3,)), ((2,), (2,)), ((3,), (2,)), ((2, 2), (2,)), ((2,), (2, 2))] + ([((4,), (2,)), ((2, 2), (3,)), ((3,), (2, 1))] if big else []):
        yield "block", dict(lead=list(lead), ev=list(ev))
    for t in ["affine", "affine-vec", "spline", "spline-vec", "chain", "const", "state", "cubic", "mixed-vec"]:
        for b in [(), (2,), (2, 3)]:
            yield "reconstruct", dict(t=t, batch=list(b))
    yield "complex", dict()
    for b in [(), (1,), (2,), (2, 3)]:
        yield "wrapper", dict(batch=list(b))
    yield "rejected", dict()
    for t in TEMPL0:
        for split in (True, False):
            yield "stack", dict(t=t, split=split)


def weight(f, c):
    return {"rank0": 2, "rank1": 2}.get(f, 1) * (2 if c.get("t") == "spline" else 1)


def template(t, n=None):
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    r = nnx.Rngs(0)
    if t == "affine":
        return bijx.AffineLinear(rngs=r)
    if t == "affine-vec":
        return bijx.AffineLinear(scale=(3,), shift=(3,), rngs=r)
    if t == "spline":
        return bijx.MonotoneRQSpline(3, (), rngs=r)
    if t == "spline-vec":
        return bijx.MonotoneRQSpline(2, (3,), rngs=r)
    if t == "chain":
        return bijx.Chain(bijx.AffineLinear(rngs=r), bijx.Sinh(), bijx.Shift(rngs=r))
    if t == "const":
        return bijx.Chain(bijx.Scaling(bijx.Const(jnp.asarray(1.7))), bijx.AffineLinear(rngs=r), bijx.Frozen(bijx.Shift(rngs=r)))
    if t == "mixed-vec":
        return bijx.Chain(bijx.AffineLinear(rngs=r), bijx.Scaling((3,), transform_scale=jnp.exp, rngs=r), bijx.MonotoneRQSpline(2, (3,), rngs=r),
                          bijx.Shift((1,), rngs=r), bijx.AffineLinear(scale=(3,), rngs=r))
    if t == "cubic":
        return bijx.CubicRational(rngs=r)
    raise KeyError(t)


def _net():
    import jax.numpy as jnp
    from flax import nnx

    class Net(nnx.Module):
        """params for every listed output site from the passive values (position-weighted)."""

        def __init__(self, weights, form, sizes, names):
            # weights: (sites_out, P, sites_in)
            self.w = nnx.Param(jnp.asarray(weights))
            self.form = form
            self.sizes = tuple(sizes)
            self.names = names

        def __call__(self, passive, **kw):
            w = self.w.get_value()
            event = passive.ndim - self.event_rank
            v = passive.reshape(passive.shape[:event] + (-1,))
            p = jnp.einsum("...j,ipj->...ip", jnp.tanh(v) + 0.0, w)
            p = p.reshape(p.shape[:-2] + self.out_event + p.shape[-1:])
            if self.form == "array":
                return p
            parts = jnp.split(p, np.cumsum(self.sizes)[:-1], -1)
            if self.form == "list":
                return [q.reshape(q.shape[:-1] + s) for q, s in zip(parts, self.names)]
            raise KeyError(self.form)

    return Net


def run_complex(rec):
    """A template with complex parameters: no flat real array, but lists, dicts and states still rebuild it."""
    import jax
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    class Rot(bijx.Bijection):
        def __init__(self, dt, n):
            self.a = nnx.Param(jnp.asarray(generic((n,), salt=1)).astype(dt))
            self.w = nnx.Param(jnp.asarray(0.3))

        def forward(self, x, ld, **kw):
            return x * jnp.exp(self.w[...]) + jnp.abs(self.a[...]).sum(), ld - self.w[...]

        def reverse(self, x, ld, **kw):
            return (x - jnp.abs(self.a[...]).sum()) / jnp.exp(self.w[...]), ld + self.w[...]

    for dt in (jnp.float32, jnp.float64, jnp.complex64, jnp.complex128):
        for n in (1, 3):
            m = Rot(dt, n)
            tm = bijx.ModuleReconstructor(m)
            cx = jnp.issubdtype(dt, jnp.complexfloating)
            rec.expect(bool(tm.has_complex_params) == cx, "complex:flag", dt=dt)
            rec.expect([tuple(s) for s in tm.params_shapes] == [(n,), ()] and [np.dtype(d) for d in tm.params_dtypes] == [np.dtype(dt), np.dtype(float)],
                       "complex:spec", dt=dt)
            a = generic((n,), salt=4) + (1j * generic((n,), salt=5) if cx else 0)
            st = nnx.state(m, nnx.Param)
            lst = [jnp.asarray(a).astype(dt), jnp.asarray(-0.2)]
            full = jax.tree.unflatten(jax.tree.structure(st), lst)
            for tag, r in (("list", lst), ("state", full), ("dict", nnx.to_pure_dict(full))):
                for auto in (False, True):
                    q = tm.from_params(r, autovmap=auto)
                    y, l = q.forward(jnp.asarray(0.4), jnp.asarray(0.1), **(dict(input_ranks=(0, 0)) if auto else {}))
                    rec.close(y, 0.4 * np.exp(-0.2) + np.abs(a).sum(), "complex:value", tag=tag, auto=auto, dt=dt, rtol=1e-5)
                    rec.close(l, 0.3, "complex:density", tag=tag, auto=auto, dt=dt)
                    rec.step()
            if cx:
                try:
                    tm.params_total_size
                    rec.expect(False, "complex:flat-size-accepted", dt=dt)
                except Exception:  # noqa: BLE001
                    rec.expect(True, "ok")
            else:
                rec.expect(tm.params_total_size == n + 1, "complex:size", dt=dt)
            rec.state("complex", str(dt), n)
            rec.trace()


def _probe_module():
    import bijx
    import jax.numpy as jnp
    from flax import nnx

    class Probe(nnx.Module):
        """methods of all arities; a and b are parameters, c is not"""

        label = "probe"

        def __init__(self, a=None, b=None):
            self.a = nnx.Param(jnp.asarray(generic((3,)) if a is None else a))
            self.b = nnx.Param(jnp.asarray(2.0 if b is None else b))
            self.c = bijx.Const(jnp.asarray(0.7))
            self.k = 5

        @property
        def norm(self):
            return self.a[...] * 2

        def zero(self):
            return self.a[...] * self.b[...]

        def one(self, x, *, flag=1.0):
            return x * flag + (self.a[...] ** 2).sum() + self.b[...]

        def two(self, x, y, flag=0.0):
            return x + y * self.b[...] + flag, jnp.sum(self.a[...] * x) * self.c[...]

        def three(self, x, y, z, **kw):
            return dict(p=x + y * self.b[...] + z.sum() + kw.get("w", 0), q=z * self.a[...])

        def four(self, x, y, z, w):
            return x * self.a[...] @ z + y + w.sum() * self.b[...]

        def vec(self, v, s):
            return v @ self.a[...] + s

        def swapped(self, s, v):
            return self.vec(v, s)

    return Probe


def run_wrapper(rec, batch):
    """every method of a batched reconstruction equals the entrywise call on hand-built modules"""
    import inspect

    import bijx
    import jax
    import jax.numpy as jnp
    from flax import nnx

    Probe = _probe_module()
    tm = bijx.ModuleReconstructor(Probe())
    rec.expect({k: tuple(v) for k, v in tm.params_shape_dict.items()} == {"a": (3,), "b": ()}, "info:shape-dict", got=tm.params_shape_dict)
    rec.expect({k: v.shape for k, v in tm.params_dict.items()} == {"a": (3,), "b": ()}, "info:dict")
    rec.expect([tuple(v) for v in tm.params_shapes] == [(3,), ()] and [int(v) for v in tm.params_sizes] == [3, 1], "info:shapes")
    rec.expect(int(tm.params_total_size) == 4 and [int(v) for v in tm.params_array_splits] == [3], "info:total")
    rec.expect([str(d) for d in tm.params_dtypes] == ["float64"] * 2 and not tm.has_complex_params, "info:dtypes")
    rec.expect("Probe" in repr(tm), "info:repr")
    B = tuple(batch)
    vals = generic(B + (4,), salt=3)
    reps = dict(array=jnp.asarray(vals), numpy=vals, list=[jnp.asarray(vals[..., :3]), jnp.asarray(vals[..., 3])],
                dict=dict(a=jnp.asarray(vals[..., :3]), b=jnp.asarray(vals[..., 3])))
    st = nnx.state(Probe(), nnx.Param)
    td = jax.tree.structure(st)
    reps["state"] = jax.tree.unflatten(td, reps["list"])
    mods = {i: Probe(vals[i][:3], vals[i][3]) for i in np.ndindex(*B)}
    # argument (batch shape, own rank) -> array
    sub = [B, ()] + ([B[1:]] if len(B) > 1 else []) + ([(1,) * len(B)] if B else [])
    A = lambda b, r, salt: generic(b + (3,) * r, salt=salt)  # noqa: E731
    calls = [("zero", [], {}, None), ("zero", [], {}, ())]
    for b1 in sub:
        calls += [("one", [(b1, 0)], dict(flag=3.0), None), ("one", [(b1, 0)], {}, (0,))]
        for b2 in sub:
            calls += [("two", [(b1, 0), (b2, 0)], dict(flag=0.5), None), ("two", [(b1, 0), (b2, 0)], {}, (0, 0)), ("vec", [(b1, 1), (b2, 0)], {}, (1, 0)),
                      ("swapped", [(b1, 0), (b2, 1)], {}, (0, 1)), ("three", [(b1, 0), (b2, 0), ("fixed", 1)], dict(w=2.0), None),
                      ("three", [(b1, 0), (b2, 0), (b2, 1)], {}, (0, 0, 1)), ("four", [(b1, 1), (b2, 0), (b1, 1), ("fixed", 1)], {}, (1, 0, 1)),
                      ("four", [(b1, 1), ("fixed", 0), (b2, 1), ("fixed", 2)], {}, (1, None, 1))]
    for name, r in reps.items():
        auto = tm.from_params(r, autovmap=True)
        rec.expect("Probe" in repr(auto), "wrapper:repr", rep=name)
        rec.expect(auto.k == 5 and auto.label == "probe", "wrapper:plain-attribute", rep=name)
        rec.close(auto.norm, 2 * vals[..., :3], "wrapper:property", rep=name)
        for m, args, kw, ranks in calls:
            if m == "zero" and not B and ranks is None:
                pass
            arrs = [generic((2, 3)[2 - r:] if r else (), salt=9) if b == "fixed" else A(b, r, 5 + i) for i, (b, r) in enumerate(args)]
            full = B
            leaf = {}
            for i in np.ndindex(*full):
                # arguments broadcast against the batch from the right
                own = [a if b == "fixed" else np.broadcast_to(a, np.broadcast_shapes(b, full) + (3,) * r)[i] for a, (b, r) in zip(arrs, args)]
                leaf[i] = jax.tree.leaves(getattr(mods[i], m)(*[jnp.asarray(o) for o in own], **kw))
            extra = {} if ranks is None else dict(input_ranks=ranks)
            for how in ("attribute", "call"):
                J = [jnp.asarray(a) for a in arrs]
                got = getattr(auto, m)(*J, **kw, **extra) if how == "attribute" else auto(m, *J, **kw, **extra)
                got = jax.tree.leaves(got)
                rec.expect(len(got) == len(leaf[(0,) * len(B)]), "wrapper:arity", rep=name, m=m)
                for k, g in enumerate(got):
                    want = np.zeros(full + np.shape(leaf[(0,) * len(B)][k]))
                    for i in leaf:
                        want[i] = leaf[i][k]
                    rec.close(g, want, "wrapper:value", rep=name, m=m, how=how, args=args, ranks=ranks)
                rec.step()
            rec.state(batch, name, m, str(args), str(ranks))
        for m in ("zero", "one", "two", "three", "vec"):
            f = getattr(auto, m)
            sig = inspect.signature(f)
            own = inspect.signature(getattr(Probe, m))
            rec.expect(f.__name__ == m, "wrapper:name", m=m)
            rec.expect([n for n in sig.parameters if n != "input_ranks"] == list(own.parameters)[1:], "wrapper:signature", m=m, got=str(sig))
            rec.expect(tuple(sig.parameters["input_ranks"].default) == (0, 0), "wrapper:default-ranks", m=m)
        rec.trace()


def run_rejected(rec):
    """inputs without a meaning are refused instead of silently reinterpreted"""
    import bijx
    import jax.numpy as jnp
    from flax import nnx

    def refuses(f, exc, label, **kw):
        try:
            f()
        except exc:
            ok = True
        except Exception as e:  # noqa: BLE001
            ok, kw = False, dict(kw, error=repr(e)[:200])
        else:
            ok = False
        rec.expect(ok, "rejected:" + label, **kw)
        rec.step()
        rec.state(label, str(kw))

    tm = bijx.ModuleReconstructor(_probe_module()())
    for bad in (1.0, (jnp.ones(3), jnp.ones(())), "abc", 3):
        for auto in (True, False):
            refuses(lambda: tm.from_params(bad, autovmap=auto), TypeError, "parameter-type", bad=str(bad), auto=auto)
    # wrong numbers of parameters
    for n in (1, 2, 3):
        refuses(lambda: tm.from_params(jnp.ones(n)), Exception, "too-few-parameters", n=n)
    for n in (1, 3):
        refuses(lambda: tm.from_params([jnp.ones(3)] * n), Exception, "list-length", n=n)

    class Net(nnx.Module):
        def __call__(self, x, **kw):
            return jnp.zeros(x.shape[:-1] + (x.shape[-1], 2))

    aff = bijx.ModuleReconstructor(bijx.AffineLinear(jnp.asarray(0.0), jnp.asarray(0.0)))
    for shape in ((4,), (2, 2)):
        mask = bijx.checker_mask(shape, True)
        for rank in (2, 3):
            for rev in (False, True):
                def use():
                    layer = bijx.GeneralCouplingLayer(Net(), mask, aff, bijection_event_rank=rank, split=True)
                    (layer.reverse if rev else layer.forward)(jnp.zeros((3, *shape)), jnp.zeros(3))

                refuses(use, ValueError, "split-rank", shape=shape, rank=rank, rev=rev)
        for rank in (len(shape) + 1, len(shape) + 2):
            def use():
                layer = bijx.GeneralCouplingLayer(Net(), mask, aff, bijection_event_rank=rank, split=False)
                layer.forward(jnp.zeros((3, *shape)), jnp.zeros(3))

            refuses(use, ValueError, "mask-rank", shape=shape, rank=rank)
    # the state of a template without structure
    rec.trace()


def run_case(family, case, rec):
    if family == "wrapper":
        return run_wrapper(rec, **case)
    if family == "rejected":
        return run_rejected(rec)
    import jax
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    Net = _net()

    if family == "rank0":
        shape, split, t = tuple(case["shape"]), case["split"], case["t"]
        n = int(np.prod(shape))
        for code in case["codes"]:
            m = np.array([(code >> i) & 1 for i in range(n)], bool)
            mask = bijx.BinaryMask.from_boolean_mask(m.reshape(shape))
            tmpl = bijx.ModuleReconstructor(template(t))
            P = tmpl.params_total_size
            full = generic((n, P, n), -1.2, 1.2, salt=3)
            full[:, :, m] = 0.0 if not split else full[:, :, m]
            for form in ("array", "list"):
                if form == "list" and t != "affine":
                    continue
                if split:
                    net = Net(full[m][:, :, ~m], form, tmpl.params_sizes, tmpl.params_shapes)
                    net.event_rank, net.out_event = 1, (int(m.sum()),)
                else:
                    net = Net(full, form, tmpl.params_sizes, tmpl.params_shapes)
                    net.event_rank, net.out_event = len(shape), shape
                layer = bijx.GeneralCouplingLayer(net, mask, tmpl, bijection_event_rank=0, split=split)
                @jax.jit
                def go(x, l, layer=layer):
                    y, l1 = layer.forward(x, l)
                    xb, lb = layer.reverse(y, l1)
                    return y, l1, xb, lb

                bs = [(), (2,), (2, 3)] if t == "affine" and form == "array" and n < 4 else [(), (2, 3)]
                for b in bs:
                    if form == "list" and b == ():
                        continue
                    x = generic(b + shape, 0.05, 0.95, salt=5)
                    ld = generic(b, salt=6)
                    y, l, xb, lb = (np.asarray(q) for q in go(jnp.asarray(x), jnp.asarray(ld)))
                    rec.step()
                    fx, fy = x.reshape(b + (n,)), y.reshape(b + (n,))
                    rec.expect(np.array_equal(fy[..., ~m], fx[..., ~m]), "passive-unchanged", code=code)
                    if t in ("affine", "chain"):
                        wz = np.where(m, 0.0, 1.0)
                        v = np.tanh(fx) * wz
                        p = np.einsum("...j,ipj->...ip", v, full)
                        if t == "affine":  # leaves in path order: scale, shift
                            s, h = p[..., 0], p[..., 1]
                            wy = np.where(m, fx * np.exp(s) + h, fx)
                            wl = ld - (s * m).sum(-1)
                        else:
                            s, h, h2 = p[..., 0], p[..., 1], p[..., 2]
                            a = fx * np.exp(s) + h
                            wy = np.where(m, np.sinh(a) + h2, fx)
                            wl = ld - ((s + np.log(np.cosh(a))) * m).sum(-1)
                        rec.close(fy, wy, "triangular-map", rtol=1e-7, atol=1e-8, code=code, form=form)
                        rec.close(l, wl, "density", rtol=1e-7, atol=1e-7, code=code, form=form)
                    rec.close(xb, x, "roundtrip", rtol=1e-6, atol=1e-7, code=code)
                    rec.close(lb, ld, "roundtrip-density", rtol=1e-6, atol=1e-6, code=code)
                    rec.step()
                    rec.trace()
                    rec.state(shape, split, t, code, form, b)
                    rec.outcome(np.round(fy, 7).tobytes())
                    if b == () and form == "array":
                        J = np.asarray(jax.jit(jax.jacfwd(lambda q: layer.forward(q, 0.0)[0].reshape(-1)))(jnp.asarray(x))).reshape(n, n)
                        rec.close(l - ld, -np.linalg.slogdet(J)[1], "density-vs-jacobian", rtol=1e-7, atol=1e-7, code=code)
                        act = J[np.ix_(m, m)]
                        rec.expect(np.allclose(act, np.diag(np.diag(act)), atol=1e-12), "no-cross-talk-between-active")
                        rec.close(J[np.ix_(~m, m)], np.zeros(((~m).sum(), m.sum())), "passive-independent-of-active")

    elif family == "rank1":
        shape = tuple(case["shape"])
        n = int(np.prod(shape))

        class VecMix(bijx.ApplyBijection):
            """y = exp(s) * (x + u * sum(tanh-free lower couplings)): a genuinely vector-valued map"""

            def __init__(self, k):
                self.s = nnx.Param(jnp.zeros((k,)))
                self.u = nnx.Param(jnp.zeros(()))

            def apply(self, x, log_density, reverse=False, **kw):
                s, u = self.s.get_value(), self.u.get_value()
                if not reverse:
                    y = x * jnp.exp(s)
                    y = y.at[..., 1:].add(u * y[..., :-1] ** 2) if x.shape[-1] > 1 else y
                    return y, log_density - jnp.sum(s)
                z = [x[..., 0]]
                for i in range(1, x.shape[-1]):
                    # invert the triangular quadratic step by step
                    z.append(x[..., i] - u * z[-1] ** 2)
                # z are scaled values before the shear of their predecessor
                return jnp.stack(z, -1) * jnp.exp(-s), log_density + jnp.sum(s)

        for code in case["codes"]:
            m = np.array([(code >> i) & 1 for i in range(n)], bool)
            k = int(m.sum())
            mask = bijx.BinaryMask.from_boolean_mask(m.reshape(shape))
            tmpl = bijx.ModuleReconstructor(VecMix(k))
            P = tmpl.params_total_size
            w = generic((1, P, n - k), -1.0, 1.0, salt=4)

            class VNet(nnx.Module):
                def __call__(self, passive, **kw):
                    return jnp.einsum("...j,ipj->...p", jnp.tanh(passive), jnp.asarray(w))

            layer = bijx.GeneralCouplingLayer(VNet(), mask, tmpl, bijection_event_rank=1, split=True)
            for b in [(), (2,), (2, 3)]:
                x = generic(b + shape, 0.05, 0.95, salt=5)
                ld = generic(b, salt=6)
                y, l = layer.forward(jnp.asarray(x), jnp.asarray(ld))
                fx = x.reshape(b + (n,))
                p = np.einsum("...j,ipj->...p", np.tanh(fx[..., ~m]), w)
                s, u = p[..., :k], p[..., k]
                a = fx[..., m] * np.exp(s)
                out = a.copy()
                out[..., 1:] += u[..., None] * a[..., :-1] ** 2
                want = fx.copy()
                want[..., m] = out
                rec.close(np.asarray(y).reshape(b + (n,)), want, "vector:map", code=code, b=b)
                rec.close(l, ld - s.sum(-1), "vector:density", code=code, b=b)
                rec.step()
                if b == ():
                    J = np.asarray(jax.jit(jax.jacfwd(lambda q: layer.forward(q, 0.0)[0].reshape(-1)))(jnp.asarray(x))).reshape(n, n)
                    rec.close(l - ld, -np.linalg.slogdet(J)[1], "vector:density-vs-jacobian", code=code)
                rec.state("rank1", shape, code, b)
                rec.trace()

    elif family == "block":
        # multiplicative masking of whole vectors / matrices
        lead, ev = tuple(case["lead"]), tuple(case["ev"])
        shape, r = lead + ev, len(ev)
        n, nl, V = int(np.prod(shape)), int(np.prod(lead)), int(np.prod(ev))

        class Mix(bijx.ApplyBijection):
            """y = exp(s) * x followed by a shear of neighbouring components"""

            def __init__(self):
                self.s = nnx.Param(jnp.zeros(ev))
                self.u = nnx.Param(jnp.zeros(()))

            def apply(self, x, log_density, reverse=False, **kw):
                s, u = self.s.get_value().reshape(-1), self.u.get_value()
                sh = x.shape
                x = x.reshape(sh[:-r] + (V,))
                if not reverse:
                    y = x * jnp.exp(s)
                    return y.at[..., 1:].add(u * y[..., :-1] ** 2).reshape(sh), log_density - jnp.sum(s)
                z = [x[..., 0]]
                for i in range(1, V):
                    z.append(x[..., i] - u * z[-1] ** 2)
                return (jnp.stack(z, -1) * jnp.exp(-s)).reshape(sh), log_density + jnp.sum(s)

        tmpl = bijx.ModuleReconstructor(Mix())
        P = tmpl.params_total_size
        w = generic((nl, P, n), -0.6, 0.6, salt=4)

        class BNet(nnx.Module):
            def __call__(self, passive, **kw):
                b = passive.shape[: passive.ndim - len(shape)]
                return jnp.einsum("...j,ipj->...ip", jnp.tanh(passive.reshape(b + (n,))), jnp.asarray(w)).reshape(b + lead + (P,))

        for code in range(2**nl):
            ml = np.array([(code >> i) & 1 for i in range(nl)], bool).reshape(lead)
            m = np.broadcast_to(ml.reshape(lead + (1,) * r), shape).copy()
            if m.all() or not m.any():
                continue
            layer = bijx.GeneralCouplingLayer(BNet(), bijx.BinaryMask.from_boolean_mask(m), tmpl, bijection_event_rank=r, split=False)
            for b in [(), (1,), (2,), (3,), (2, 2), (2, 3)]:
                x = generic(b + shape, 0.05, 0.95, salt=5)
                ld = generic(b, salt=6)
                fx = x.reshape(b + (nl, V))
                fm = ml.reshape(nl)
                par = np.einsum("...j,ipj->...ip", np.tanh((x * ~m).reshape(b + (n,))), w)
                s, u = par[..., :V], par[..., V]
                a = fx * np.exp(s)
                out = a.copy()
                out[..., 1:] += u[..., None] * a[..., :-1] ** 2
                want = np.where(fm[:, None], out, fx)
                dens = ld - (s.sum(-1) * fm).sum(-1)
                y, l = layer.forward(jnp.asarray(x), jnp.asarray(ld))
                rec.close(y, want.reshape(b + shape), "block:map", code=code, b=b)
                rec.close(l, dens, "block:density", code=code, b=b)
                rec.expect(np.shape(l) == b, "block:density-shape", code=code, b=b, got=np.shape(l))
                xb, lb = layer.reverse(y, l)
                rec.close(xb, x, "block:inverse", code=code, b=b)
                rec.close(lb, ld, "block:inverse-density", code=code, b=b)
                rec.step(2)
                rec.state("block", shape, code, b)
            J = np.asarray(jax.jit(jax.jacfwd(lambda q: layer.forward(q, 0.0)[0].reshape(-1)))(jnp.asarray(x.reshape((-1,) + shape)[0]))).reshape(n, n)
            rec.close((l - ld).reshape(-1)[0], -np.linalg.slogdet(J)[1], "block:density-vs-jacobian", code=code)
            rec.trace()
        # masks that cut through a vector cannot be evaluated this way: rejected, never a wrong density
        for code in range(1, 2 ** min(n, 8) - 1):
            m = np.array([(code >> (i % 8)) & 1 for i in range(n)], bool).reshape(shape)
            rows = m.reshape(nl, V)
            if (rows.any(1) == rows.all(1)).all():
                continue
            for b in [(), shape[: len(lead)], shape]:
                try:
                    layer = bijx.GeneralCouplingLayer(BNet(), bijx.BinaryMask.from_boolean_mask(m), tmpl, bijection_event_rank=r, split=False)
                    l = layer.forward(jnp.asarray(generic(b + shape, 0.05, 0.95, salt=5)), jnp.zeros(b))[1]
                except (ValueError, TypeError):
                    l = None
                rec.expect(l is None, "block:cut-vector-accepted", code=code, b=b)
                rec.step()
            if code > 40:
                break

    elif family == "complex":
        run_complex(rec)

    elif family == "reconstruct":
        t, b = case["t"], tuple(case["batch"])
        is_state = t == "state"
        mod = template("chain" if is_state else t)
        graph, st = nnx.split(mod)
        tm = bijx.ModuleReconstructor(st if is_state else mod)
        P = tm.params_total_size
        sizes, shapes = tm.params_sizes, tm.params_shapes
        par = nnx.split_state(st, nnx.Param, ...)[0]
        leaves = jax.tree.leaves(par)
        rec.expect(P == sum(int(np.prod(q.shape)) for q in leaves), "param-total")
        rec.expect([tuple(s) for s in shapes] == [tuple(q.shape) for q in leaves], "param-shapes")
        vals = generic(b + (P,), -0.8, 0.8, salt=7)
        parts = np.split(vals, np.cumsum(sizes)[:-1], -1)
        lst = [p.reshape(b + tuple(s)) for p, s in zip(parts, shapes)]
        reps = {"array": jnp.asarray(vals), "numpy": vals, "list": [jnp.asarray(q) for q in lst]}
        full_state = jax.tree.unflatten(jax.tree.structure(par), [jnp.asarray(q) for q in lst])
        reps["state"] = full_state
        reps["dict"] = nnx.to_pure_dict(full_state)
        event = (3,) if t.endswith("-vec") else ()
        x = generic(b + event, 0.1, 0.9, salt=8)
        ld = generic(b, salt=9)

        def direct(i):
            """parameters of batch entry i written into the module by hand"""
            sub = jax.tree.unflatten(jax.tree.structure(par), [jnp.asarray(q[i]) for q in lst])
            rest = nnx.split_state(st, nnx.Param, ...)[1]
            return nnx.merge(graph, nnx.merge_state(rest, sub))

        want_y, want_l = np.zeros(b + event), np.zeros(b)
        for i in np.ndindex(*b):
            y, l = direct(i).forward(jnp.asarray(x[i]), jnp.asarray(ld[i]))
            want_y[i], want_l[i] = y, l
        for name, r in reps.items():
            if is_state:
                s2 = tm.from_params(r)
                got = jax.tree.leaves(s2)
                rec.expect(isinstance(s2, nnx.State), "state-out")
                for q, w in zip(jax.tree.leaves(nnx.split_state(s2, nnx.Param, ...)[0]), lst):
                    rec.close(q, w, "state-roundtrip", rep=name)
                rec.step()
                rec.state("rec", t, name, b)
                rec.trace()
                continue
            auto = tm.from_params(r, autovmap=True)
            kr = dict(input_ranks=(len(event), 0))
            y, l = auto.forward(jnp.asarray(x), jnp.asarray(ld), **kr)
            rec.close(y, want_y, "auto:value", rep=name)
            rec.close(l, want_l, "auto:density", rep=name)
            xb, lb = auto.reverse(y, l, **kr)
            rec.close(xb, x, "auto:roundtrip", rtol=1e-6, atol=1e-6, rep=name)
            rec.close(lb, ld, "auto:roundtrip-density", rtol=1e-6, atol=1e-6, rep=name)
            # one parameter set, many inputs: inputs broadcast against a single parameter set
            if b == ():
                xs = generic((4,) + event, 0.1, 0.9, salt=10)
                ys, ls = auto.forward(jnp.asarray(xs), jnp.zeros(4), **kr)
                for k in range(4):
                    yk, lk = direct(()).forward(jnp.asarray(xs[k]), jnp.zeros(()))
                    rec.close(ys[k], yk, "auto:broadcast-inputs", rep=name)
                    rec.close(ls[k], lk, "auto:broadcast-inputs-density", rep=name)
            else:
                ys, ls = auto.forward(jnp.asarray(x[(0,) * len(b)]), jnp.zeros(()), **kr)
                for i in np.ndindex(*b):
                    yk, lk = direct(i).forward(jnp.asarray(x[(0,) * len(b)]), jnp.zeros(()))
                    rec.close(np.asarray(ys)[i], yk, "auto:broadcast-params", rep=name)
                    rec.close(np.asarray(ls)[i], lk, "auto:broadcast-params-density", rep=name)
            if b == ():
                m2 = tm.from_params(r)
                y2, l2 = m2.forward(jnp.asarray(x), jnp.asarray(ld))
                rec.close(y2, want_y, "plain:value", rep=name)
                rec.close(l2, want_l, "plain:density", rep=name)
                for q, w in zip(jax.tree.leaves(nnx.state(m2, nnx.Param)), lst):
                    rec.close(q, w, "plain:params", rep=name)
                for q, w in zip(jax.tree.leaves(nnx.split_state(nnx.state(m2), nnx.Param, ...)[1]),
                                jax.tree.leaves(nnx.split_state(st, nnx.Param, ...)[1])):
                    rec.close(q, w, "plain:unconditional-kept", rep=name)
            rec.step(3)
            rec.trace()
            rec.state("rec", t, name, b)
        # the template is not consumed or modified by reconstruction: use again from a non-initial state
        if not is_state:
            y, l = tm.from_params(reps["array"], autovmap=True).forward(jnp.asarray(x), jnp.asarray(ld), input_ranks=(len(event), 0))
            rec.close(y, want_y, "reuse:value")
            rec.close(l, want_l, "reuse:density")
            m0 = nnx.state(mod, nnx.Param)
            for q, w in zip(jax.tree.leaves(m0), leaves):
                rec.close(q, w, "template-unmodified")

    elif family == "stack":
        # alternating coupling layers in a chain: total density equals the full Jacobian
        t = case["t"]
        n = 3
        tmpl = bijx.ModuleReconstructor(template(t))
        P = tmpl.params_total_size
        for word in itertools.product([1, 5, 6], repeat=2):
            for split in (case["split"],):
                layers = []
                for k, code in enumerate(word):
                    m = np.array([(code >> i) & 1 for i in range(n)], bool)
                    w = generic((n, P, n), -1, 1, salt=k + 2)
                    if split:
                        net = Net(w[m][:, :, ~m], "array", tmpl.params_sizes, tmpl.params_shapes)
                        net.event_rank, net.out_event = 1, (int(m.sum()),)
                    else:
                        net = Net(w * (~m), "array", tmpl.params_sizes, tmpl.params_shapes)
                        net.event_rank, net.out_event = 1, (n,)
                    layers.append(bijx.GeneralCouplingLayer(net, bijx.BinaryMask.from_boolean_mask(m), tmpl, split=split))
                ch = bijx.Chain(*layers)
                x = generic((n,), 0.1, 0.9, salt=5)

                @jax.jit
                def go(x, ch=ch):
                    y, l = ch.forward(x, jnp.zeros(()), extra=1.0)
                    J = jax.jacfwd(lambda q: ch.forward(q, jnp.zeros(()))[0])(x)
                    xb, lb = ch.reverse(y, l)
                    return y, l, J, xb, lb

                y, l, J, xb, lb = go(jnp.asarray(x))
                rec.close(l, -np.linalg.slogdet(np.asarray(J))[1], "stack:density", word=word)
                rec.close(xb, x, "stack:roundtrip", rtol=1e-6, atol=1e-6, word=word)
                rec.close(lb, 0.0, "stack:roundtrip-density", atol=1e-6, word=word)
                rec.step(2)
                rec.trace()
                rec.state("stack", t, word, split)

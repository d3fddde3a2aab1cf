"""P02: composition algebra of bijections - every term up to a depth against a reference interpreter."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P02"
RULE = (
    "All terms of the composition grammar {atom, chain, inverse (method / class), conditional inverse "
    "(true/false), frozen, keyword-binding, scanned stack} up to the stated depth over non-commuting atoms "
    "(affine, sinh, keyword-dependent scale, mixing matrix, identity); each term is evaluated in both "
    "directions, with and without shared keyword arguments, inverted once and twice, and compared with an "
    "independent numpy interpreter of the term."
)

M = np.array([[1.2, 0.3, -0.1], [0.0, 0.8, 0.4], [0.2, -0.3, 1.1]])
MI = np.linalg.inv(M)
MLD = float(np.log(abs(np.linalg.det(M))))
W = np.array([0.5, -0.4, 0.9])
SC = np.array([0.2, -0.3, 0.1])
SH = np.array([0.4, -0.2, 0.7])

ATOMS = ["A", "B", "K", "L", "I"]


def size_scan(n):
    return [[k, i] for k, i in n]


# ---------------------------------------------------------------- reference
def ref(t, x, ld, d, kw):
    """d=+1 forward, -1 reverse.  x: (..., 3)"""
    op = t[0]
    if op == "A":
        s = np.exp(SC)
        return (x * s + SH, ld - SC.sum()) if d > 0 else ((x - SH) / s, ld + SC.sum())
    if op == "B":
        if d > 0:
            return np.sinh(x), ld - np.log(np.cosh(x)).sum(-1)
        y = np.arcsinh(x)
        return y, ld + np.log(np.cosh(y)).sum(-1)
    if op == "K":
        c = kw.get("c", 0.1)
        return x * np.exp(d * c * W), ld - d * c * W.sum()
    if op == "L":
        c = kw.get("c", 0.1)
        return (x @ M.T * np.exp(c), ld - MLD - 3 * c) if d > 0 else (x @ MI.T * np.exp(-c), ld + MLD + 3 * c)
    if op == "I":
        return x, ld
    if op == "chain":
        for u in (t[1:] if d > 0 else t[:0:-1]):
            x, ld = ref(u, x, ld, d, kw)
        return x, ld
    if op in ("inv", "Inv"):
        return ref(t[1], x, ld, -d, kw)
    if op == "cond":
        return ref(t[1], x, ld, -d if t[2] else d, kw)
    if op == "frozen":
        return ref(t[1], x, ld, d, kw)
    if op == "partial":
        return ref(t[1], x, ld, d, {"c": t[2], **kw})
    if op == "scan":
        for i in (range(t[2]) if d > 0 else reversed(range(t[2]))):
            x, ld = ref_scan_elem(t[1], i, x, ld, d, kw)
        return x, ld
    raise KeyError(op)


def scan_params(i):
    return np.array([0.3, -0.2, 0.15]) * (i + 1) - 0.1 * i * i, np.array([0.5, 0.1, -0.3]) + 0.4 * i


def ref_scan_elem(kind, i, x, ld, d, kw):
    s, h = scan_params(i)
    if kind == "A":  # y = e^s x + h
        return (x * np.exp(s) + h, ld - s.sum()) if d > 0 else ((x - h) * np.exp(-s), ld + s.sum())
    if kind == "N":  # shift then sinh
        if d > 0:
            x = x * 0.5 + h
            return np.sinh(x), ld - np.log(np.cosh(x)).sum(-1) - 3 * np.log(0.5)
        y = np.arcsinh(x)
        return (y - h) / 0.5, ld + np.log(np.cosh(y)).sum(-1) + 3 * np.log(0.5)
    if kind == "K":  # keyword dependent scale with own weight
        c = kw.get("c", 0.1)
        return x * np.exp(d * c * s) + 0, ld - d * c * s.sum()
    if kind == "V":  # inverted affine
        return ref_scan_elem("A", i, x, ld, -d, kw)
    raise KeyError(kind)


# ---------------------------------------------------------------- real objects
_cls = {}


def _classes():
    if _cls:
        return _cls
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    class KwScale(bijx.Bijection):
        def __init__(self, w):
            self.w = nnx.Param(jnp.asarray(w))

        def forward(self, x, log_density, *, c=0.1, **kw):
            w = self.w.get_value()
            return x * jnp.exp(c * w), log_density - c * jnp.sum(w)

        def reverse(self, x, log_density, *, c=0.1, **kw):
            w = self.w.get_value()
            return x * jnp.exp(-c * w), log_density + c * jnp.sum(w)

    class Mix(bijx.ApplyBijection):
        def apply(self, x, log_density, reverse=False, *, c=0.1, **kw):
            if reverse:
                return x @ jnp.asarray(MI.T) * jnp.exp(-c), log_density + MLD + 3 * c
            return x @ jnp.asarray(M.T) * jnp.exp(c), log_density - MLD - 3 * c

    class KwElem(bijx.ScalarBijection):
        """elementwise map whose Jacobian depends on a keyword"""

        def fwd(self, x, *, c=0.1, **kw):
            return x * jnp.exp(c)

        def rev(self, y, *, c=0.1, **kw):
            return y * jnp.exp(-c)

        def log_jac(self, x, y, *, c=0.1, **kw):
            return c + jnp.zeros_like(x)

    _cls.update(K=KwScale, L=Mix, E=KwElem)
    return _cls


def build(t):
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    c = _classes()
    op = t[0]
    if op == "A":
        return bijx.AffineLinear(scale=jnp.asarray(SC), shift=jnp.asarray(SH))
    if op == "B":
        return bijx.Sinh()
    if op == "K":
        return c["K"](W)
    if op == "L":
        return c["L"]()
    if op == "I":
        return bijx.Bijection()
    if op == "chain":
        return bijx.Chain(*[build(u) for u in t[1:]])
    if op == "inv":
        return build(t[1]).invert()
    if op == "Inv":
        return bijx.Inverse(build(t[1]))
    if op == "cond":
        return bijx.CondInverse(build(t[1]), invert=t[2])
    if op == "frozen":
        return bijx.Frozen(build(t[1]))
    if op == "partial":
        c_ = t[2] if t[1][0] in ("K", "inv") else jnp.asarray(t[2])  # python scalar and array bindings
        return bijx.Partial(build(t[1]), c=c_)
    if op == "scan":
        ps = [scan_params(i) for i in range(t[2])]
        s = jnp.asarray(np.stack([p[0] for p in ps]))
        h = jnp.asarray(np.stack([p[1] for p in ps]))
        if t[1] == "A":
            return bijx.ScanChain(bijx.AffineLinear(scale=s, shift=h))
        if t[1] == "V":
            return bijx.ScanChain(bijx.AffineLinear(scale=s, shift=h).invert())
        if t[1] == "K":
            return bijx.ScanChain(c["K"](s))
        if t[1] == "N":
            return bijx.ScanChain(bijx.Chain(
                bijx.Scaling(bijx.Const(jnp.full((t[2], 3), 0.5))), bijx.Shift(nnx.Param(h)), bijx.Sinh()))
    raise KeyError(op)


# ---------------------------------------------------------------- enumeration
def unary(t):
    yield ["inv", t]
    yield ["Inv", t]
    yield ["cond", t, True]
    yield ["cond", t, False]
    yield ["frozen", t]
    yield ["partial", t, 0.3]


def depth0():
    return [[a] for a in ATOMS]


def depth1():
    out = []
    for t in depth0():
        if t[0] in ("A", "K"):
            out += list(unary(t))
        else:
            out += [["inv", t]]
    out.append(["chain"])
    for p in itertools.product("ABKL", repeat=2):
        out.append(["chain", [p[0]], [p[1]]])
    out.append(["chain", ["A"]])
    out.append(["chain", ["K"], ["L"], ["B"]])
    out.append(["chain", ["L"], ["I"], ["A"]])
    for k in "ANKV":
        for n in (1, 2, 3):
            out.append(["scan", k, n])
    return out


def depth2(full):
    d1 = depth1()
    out = []
    for t in d1:
        if t[0] == "scan" and t[2] < 3 and not full:
            continue
        us = list(unary(t))
        if t[0] == "chain" and len(t) == 3 and not full:
            us = [u for u in us if u[0] in ("inv", "cond", "partial") and u[-1] is not False]
        out += us
        out.append(["chain", t, ["L"]])
        out.append(["chain", ["L"], t])
        if full:
            out.append(["chain", t, ["K"]])
            out.append(["chain", ["B"], t])
    return out


def depth3():
    out = []
    for t in depth2(False):
        if t[0] in ("inv", "cond", "partial", "chain"):
            out += [u for u in unary(t) if u[0] in ("inv", "cond", "partial")]
            out.append(["chain", ["A"], t])
    return out


def cases(tier):
    terms = depth0() + depth1() + depth2(tier == "thorough")
    if tier == "thorough":
        terms += depth3()
    sz = 8
    for i in range(0, len(terms), sz):
        yield "terms", dict(terms=terms[i:i + sz])
    for n in (0, 1, 2, 3):
        yield "arglist", dict(n=n)
    yield "runtime-flag", dict()
    yield "pytree-data", dict()
    yield "elem-kwargs", dict()


def _cmp(rec, term, label, got, want):
    rec.step()
    # sinh chains can be large: relative tolerance
    rec.close(got[0], want[0], label + ":value", rtol=1e-7, atol=1e-8, term=term)
    rec.close(got[1], want[1], label + ":density", rtol=1e-7, atol=1e-7, term=term)


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp

    import bijx

    x = generic((2, 3), -0.6, 0.6, salt=1)
    ld = generic((2,), -1, 1, salt=2)
    X, L = jnp.asarray(x), jnp.asarray(ld)

    if family == "terms":
        for t in case["terms"]:
            b = build(t)
            rec.state(str(t))
            for kw in ({}, {"c": 0.7}):
                f = ref(t, x, ld, +1, kw)
                r = ref(t, x, ld, -1, kw)
                _cmp(rec, t, "forward", b.forward(X, L, **kw), f)
                _cmp(rec, t, "reverse", b.reverse(X, L, **kw), r)
                rec.outcome(np.round(f[0], 6).tobytes())
                # history: there and back from a non-initial state
                _cmp(rec, t, "roundtrip", b.reverse(*b.forward(X, L, **kw), **kw), (x, ld))
                rec.trace()
            kw = {"c": 0.7}
            i1 = b.invert()
            _cmp(rec, t, "invert.forward", i1.forward(X, L, **kw), ref(t, x, ld, -1, kw))
            _cmp(rec, t, "invert.reverse", i1.reverse(X, L, **kw), ref(t, x, ld, +1, kw))
            i2 = i1.invert()
            _cmp(rec, t, "invert2.forward", i2.forward(X, L), ref(t, x, ld, +1, {}))
            _cmp(rec, t, "call", b(X, L), ref(t, x, ld, +1, {}))
            rec.trace()

    elif family == "arglist":
        n = case["n"]
        for cs in itertools.product([0.2, 0.7, None], repeat=n):
            for layout in range(2):
                ts = [["partial", ["K"], 0.4] if layout and i == 0 else ["K"] for i in range(n)]
                # interleave a matrix so that order matters
                full, args, want_terms = [], [], []
                for t, c in zip(ts, cs):
                    full += [build(t), build(["L"])]
                    args += [{} if c is None else {"c": c}, {}]
                    want_terms += [(t, {} if c is None else {"c": c}), (["L"], {})]
                ch = bijx.Chain(*full)
                fx, fl = x, ld
                for t, kw in want_terms:
                    fx, fl = ref(t, fx, fl, +1, kw)
                _cmp(rec, cs, "arglist.forward", ch.forward(X, L, arg_list=args), (fx, fl))
                rx, rl = x, ld
                for t, kw in reversed(want_terms):
                    rx, rl = ref(t, rx, rl, -1, kw)
                _cmp(rec, cs, "arglist.reverse", ch.reverse(X, L, arg_list=args), (rx, rl))
                _cmp(rec, cs, "arglist.invert", ch.invert().forward(X, L, arg_list=args), (rx, rl))
                # per-layer arguments together with a shared one
                _cmp(rec, cs, "arglist+common", ch.forward(X, L, arg_list=args, other=1.0), (fx, fl))
                rec.state("arglist", cs, layout)
                rec.trace()
                for bad in (args + [{}], args[:-1] if args else [{}]):
                    for m in (ch.forward, ch.reverse):
                        try:
                            m(X, L, arg_list=bad)
                            rec.expect(False, "arglist-length-mismatch-accepted", n=n)
                        except Exception:
                            rec.expect(True, "ok")
                        rec.step()

    elif family == "runtime-flag":
        for t in (["A"], ["chain", ["A"], ["L"]], ["scan", "A", 2], ["cond", ["A"], True]):
            b = build(t)

            @jax.jit
            def go(flag, x, ld, b=b):
                c = bijx.CondInverse(b, flag)
                i = c.invert()
                return (c.forward(x, ld), c.reverse(x, ld), i.forward(x, ld), i.reverse(x, ld),
                        i.invert().forward(x, ld))

            for flag in (True, False):
                d = -1 if flag else 1
                out = go(jnp.asarray(flag), X, L)
                for got, dd, lab in zip(out, (d, -d, -d, d, d), "abcde"):
                    _cmp(rec, t, "flag:" + lab, got, ref(t, x, ld, dd, {}))
                rec.state("flag", str(t), flag)
                rec.trace()
            _cmp(rec, t, "flag:default", bijx.CondInverse(b).forward(X, L), ref(t, x, ld, -1, {}))

    elif family == "pytree-data":
        # events that are pytrees pass through wrappers unchanged in structure
        mask = bijx.checker_mask((3,), parity=True)
        for wrap in ("plain", "chain", "inv2", "frozen", "condF"):
            b = {"plain": lambda: mask, "chain": lambda: bijx.Chain(build(["A"]), mask),
                 "inv2": lambda: bijx.Inverse(bijx.Inverse(mask)),
                 "frozen": lambda: bijx.Frozen(mask), "condF": lambda: bijx.Chain(mask, mask.invert())}[wrap]()
            y, l = b.forward(X, L)
            if wrap == "condF":
                rec.close(y, x, "pytree:value")
                rec.close(l, ld, "pytree:density")
            else:
                xx, ll = (ref(["A"], x, ld, 1, {}) if wrap == "chain" else (x, ld))
                m = np.array([i % 2 == 0 for i in range(3)])
                rec.close(y[0], xx[:, m], "pytree:first", term=wrap)
                rec.close(y[1], xx[:, ~m], "pytree:second", term=wrap)
                xb, lb = b.reverse(y, l)
                rec.close(xb, x, "pytree:back", term=wrap)
                rec.close(lb, ld, "pytree:back-density", term=wrap)
            rec.step(2)
            rec.state("pytree", wrap)
            rec.trace()

    elif family == "elem-kwargs":
        E = _classes()["E"]()
        for kw in ({}, {"c": 0.6}, {"c": -0.3, "unrelated": 1}):
            c = kw.get("c", 0.1)
            for wrap in (lambda b: b, lambda b: bijx.Chain(b), lambda b: bijx.Inverse(b.invert()),
                         lambda b: bijx.Frozen(b),
                         lambda b: bijx.Chain(b, bijx.Reshape((3,), (1, 3)), bijx.Reshape((1, 3), (3,)))):
                b = wrap(E)
                _cmp(rec, kw, "elem-kw.forward", b.forward(X, L, **kw), (x * np.exp(c), ld - 3 * c))
                _cmp(rec, kw, "elem-kw.reverse", b.reverse(X, L, **kw), (x * np.exp(-c), ld + 3 * c))
                rec.trace()
            rec.state("elem", str(kw))

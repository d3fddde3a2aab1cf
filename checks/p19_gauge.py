"""P19: lattice gauge symmetries."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P19"
RULE = (
    "Every word of length <=3 over the symmetry generators {all axis swaps, all reflections, all plane rotations} (whole group reached) on "
    "every lattice shape over extents {1,2,3} in 2d, selected 3d/4d shapes, times matrix size 1..3: each link of the result "
    "against the parallel transporter along the transformed edge (geometric model: site map + signed direction map); local gauge "
    "transformations against site-wise matrix products, incl. one-site transformations at every site; plaquette action against explicit "
    "loop products for every batch shape; invariance under every word and gauge transformation; covariance of gauge transformation and symmetry."
)
ASSUMPTIONS = ["unitary link matrices (reflection uses the adjoint)"]


def cases(tier):
    two = list(itertools.product((1, 2, 3), repeat=2)) if tier == "quick" else list(itertools.product((1, 2, 3, 4), repeat=2))
    three = [(2, 2, 2), (2, 3, 2), (3, 2, 1)] if tier == "quick" else list(itertools.product((1, 2, 3), repeat=3))
    for s in two + three:
        for n in ((2,) if s not in ((2, 3), (3, 2)) else (1, 2, 3)):
            yield "symmetry", dict(shape=list(s), n=n)
    for s in [(3,)] + two + three + [(2, 2, 1, 2)]:
        for n in (1, 2, 3) if len(s) < 3 else (2,):
            yield "gauge", dict(shape=list(s), n=n)
            yield "action", dict(shape=list(s), n=n)
    for s in [(5, 4), (8, 7), (4, 2, 3), (4, 4, 4)]:
        for n in (2, 3):
            yield "action", dict(shape=list(s), n=n)
            yield "gauge", dict(shape=list(s), n=n)
    if tier == "quick":
        yield "symmetry", dict(shape=[4, 4], n=2)
    yield "roll", dict(n=1)


def weight(f, c):
    return len(c.get("shape", [])) ** 2


def unitary(count, n, salt=0):
    """deterministic generic U(n) matrices"""
    a = generic((count, n, n), -2, 2, salt=salt) + 1j * generic((count, n, n), -2, 2, salt=salt + 1)
    h = a + np.conj(np.swapaxes(a, 1, 2))
    w, v = np.linalg.eigh(h)
    u = v * np.exp(1j * w)[:, None, :] @ np.conj(np.swapaxes(v, 1, 2))
    if n > 1:
        u = u / np.linalg.det(u)[:, None, None] ** (1 / n)
    return u


def links(shape, n, salt=0):
    d = len(shape)
    cnt = int(np.prod(shape)) * d
    return unitary(cnt, n, salt).reshape(*shape, d, n, n)


def dag(m):
    return np.conj(np.swapaxes(m, -1, -2))


def transporter(U, x, mu, sign):
    shape = U.shape[: U.shape[-3]]
    x = np.asarray(x)
    if sign > 0:
        return U[tuple(x % shape)][mu]
    y = x.copy()
    y[mu] -= 1
    return dag(U[tuple(y % shape)][mu])


class Geo:
    """a lattice symmetry: new shape, new site -> old site, new direction -> (old direction, sign)"""

    def __init__(self, shape, site=None, dirs=None, new=None):
        self.old = tuple(shape)
        d = len(shape)
        self.site = site or (lambda x: tuple(x))
        self.dirs = dirs or [(m, 1) for m in range(d)]
        self.new = tuple(new if new is not None else shape)

    def then(self, op):
        """apply generator op to the already transformed lattice"""
        d = len(self.old)
        if op[0] == "swap":
            a, b = op[1:]
            new = list(self.new)
            new[a], new[b] = new[b], new[a]

            def site(x, s=self.site):
                x = list(x)
                x[a], x[b] = x[b], x[a]
                return s(tuple(x))

            dirs = list(self.dirs)
            dirs[a], dirs[b] = dirs[b], dirs[a]
            return Geo(self.old, site, dirs, new)
        if op[0] == "flip":
            a = op[1]
            L = self.new[a]

            def site(x, s=self.site):
                x = list(x)
                x[a] = L - 1 - x[a]
                return s(tuple(x))

            dirs = list(self.dirs)
            dirs[a] = (dirs[a][0], -dirs[a][1])
            return Geo(self.old, site, dirs, self.new)
        a, b = op[1:]
        return self.then(("swap", a, b)).then(("flip", a))

    def act(self, U):
        d = len(self.old)
        out = np.empty(self.new + (d,) + U.shape[-2:], complex)
        for x in np.ndindex(*self.new):
            y = self.site(x)
            for m in range(d):
                out[x][m] = transporter(U, y, *self.dirs[m])
        return out


def np_action(U):
    d = U.shape[-3]
    shape = U.shape[:d]
    tot = 0.0
    for x in np.ndindex(*shape):
        for m in range(d):
            for k in range(m + 1, d):
                xm, xk = np.array(x), np.array(x)
                xm[m] += 1
                xk[k] += 1
                P = transporter(U, x, m, 1) @ transporter(U, xm, k, 1) @ dag(transporter(U, xk, m, 1)) @ dag(transporter(U, x, k, 1))
                tot += np.trace(P).real
    return tot / U.shape[-1]


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from bijx.lattice import gauge, general

    if family == "roll":
        for shape in [(3,), (4, 1), (2, 3), (2, 3, 2)]:
            x = np.arange(int(np.prod(shape)) * 2.0).reshape(*shape, 2)
            for k in range(1, len(shape) + 1):
                for loc in itertools.product((-1, 0, 1, 2), repeat=k):
                    a = np.asarray(general.roll_lattice(jnp.asarray(x), loc))
                    b = np.asarray(general.roll_lattice(jnp.asarray(x), loc, invert=True))
                    ok = all(np.array_equal(a[s], x[tuple((np.array(s[:k]) + loc) % shape[:k]) + s[k:]]) for s in np.ndindex(*shape))
                    ok2 = all(np.array_equal(b[s], x[tuple((np.array(s[:k]) - loc) % shape[:k]) + s[k:]]) for s in np.ndindex(*shape))
                    rec.expect(ok and ok2, "roll", shape=shape, loc=loc)
                    rec.step(2)
                    rec.state("roll", shape, loc)
        rec.trace()
        return

    shape, n = tuple(case["shape"]), case["n"]
    d = len(shape)
    U = links(shape, n, salt=d + n)
    sites = list(np.ndindex(*shape))
    gs = unitary(len(sites), n, salt=7).reshape(*shape, n, n)

    def np_gauge(V, g):
        out = np.empty_like(V)
        sh = V.shape[:d]
        for x in np.ndindex(*sh):
            for m in range(d):
                y = np.array(x)
                y[m] += 1
                out[x][m] = g[x] @ V[x][m] @ dag(g[tuple(y % sh)])
        return out

    if family == "symmetry":
        gens = [("swap", a, b) for a in range(d) for b in range(d) if a < b] + [("flip", a) for a in range(d)]
        gens += [("rot", a, b) for a in range(d) for b in range(d) if a != b]
        depth = 3 if d == 2 else 2
        fn = {"swap": lambda U, a, b: gauge.swap_axes(U, a, b), "flip": gauge.flip_axis, "rot": lambda U, a, b: gauge.rotate_lat(U, a, b)}
        jf = {g: jax.jit(lambda V, g=g: fn[g[0]](V, *g[1:])) for g in gens}
        s0 = np_action(U)
        act = jax.jit(lambda V: gauge.wilson_action(V, 1.3))
        level = {(): (jnp.asarray(U), Geo(shape))}
        seen = {}
        for k in range(depth):
            nxt = {}
            for w, (V, geo) in level.items():
                for g in gens:
                    V2, geo2 = jf[g](V), geo.then(g)
                    want = geo2.act(U)
                    rec.close(V2, want, "symmetry:links", rtol=1e-10, atol=1e-10, word=w + (g,), shape=shape)
                    rec.close(act(V2), -1.3 * s0, "symmetry:action", rtol=1e-9, atol=1e-9, word=w + (g,))
                    rec.step()
                    sig = (geo2.new, tuple(geo2.dirs), tuple(geo2.site(x) for x in np.ndindex(*geo2.new)))
                    rec.state(shape, n, sig)
                    if sig in seen:
                        rec.close(V2, seen[sig], "symmetry:group-law", rtol=1e-10, atol=1e-10, word=w + (g,))
                    else:
                        seen[sig] = np.asarray(V2)
                        nxt[w + (g,)] = (V2, geo2)
                        # gauge covariance
                        if n == 2:
                            g2 = np.empty(geo2.new + (n, n), complex)
                            for x in np.ndindex(*geo2.new):
                                g2[x] = gs[geo2.site(x)]
                            rec.close(gauge.apply_gauge_sym(V2, jnp.asarray(g2)), geo2.act(np_gauge(U, gs)), "symmetry:gauge-covariance",
                                      rtol=1e-9, atol=1e-9, word=w + (g,))
            level = nxt
            rec.trace(len(nxt))
        # default axes are the first two; the order of the swapped axes does not matter; swapping an axis with itself is nothing
        J = jnp.asarray(U)
        rec.close(gauge.swap_axes(J), Geo(shape).then(("swap", 0, 1)).act(U), "symmetry:default-swap", atol=1e-10)
        rec.close(gauge.rotate_lat(J), Geo(shape).then(("rot", 0, 1)).act(U), "symmetry:default-rotation", atol=1e-10)
        for a in range(d):
            rec.close(gauge.swap_axes(J, a, a), U, "symmetry:self-swap", atol=1e-10)
            for b in range(a):
                rec.close(gauge.swap_axes(J, a, b), gauge.swap_axes(J, b, a), "symmetry:swap-order", atol=1e-10)
        rec.step(2)
        rec.outcome(len(seen))

    elif family == "gauge":
        ap = jax.jit(gauge.apply_gauge_sym)
        act = jax.jit(lambda V: gauge.wilson_action(V, 0.7))
        s0 = np_action(U)
        gl = [gs] + [np.where(np.eye(len(sites))[i].reshape(*shape, 1, 1) > 0, gs, np.eye(n)) for i in range(len(sites))]
        for i, g in enumerate(gl):
            V = ap(jnp.asarray(U), jnp.asarray(g))
            rec.close(V, np_gauge(U, g), "gauge:links", rtol=1e-10, atol=1e-10, i=i)
            rec.close(act(V), -0.7 * s0, "gauge:action", rtol=1e-9, atol=1e-9, i=i)
            rec.step(2)
            rec.state(shape, n, i)
        # group homomorphism
        h = unitary(len(sites), n, salt=9).reshape(*shape, n, n)
        rec.close(ap(ap(jnp.asarray(U), jnp.asarray(gs)), jnp.asarray(h)), np_gauge(U, h @ gs), "gauge:composition", rtol=1e-9, atol=1e-9)
        rec.close(ap(ap(jnp.asarray(U), jnp.asarray(gs)), jnp.asarray(dag(gs))), U, "gauge:inverse", rtol=1e-9, atol=1e-9)
        # a stack of configurations is transformed entry by entry
        st = np.stack([U, links(shape, n, salt=3)])
        rec.close(ap(jnp.asarray(st), jnp.asarray(gs)), np.stack([np_gauge(v, gs) for v in st]), "gauge:batch", rtol=1e-9, atol=1e-9)
        rec.trace(len(gl))
        rec.outcome(round(s0, 9))

    else:
        cfgs = [links(shape, n, salt=k) for k in range(4)]
        # arbitrary (non-unitary) matrices as well: the action is a polynomial in the links
        cfgs += [generic(U.shape, salt=5) + 1j * generic(U.shape, salt=6), np.broadcast_to(np.eye(n), U.shape).astype(complex)]
        ref = np.array([np_action(c) for c in cfgs])
        for beta in (0.0, 0.7, -2.0, 5.5):
            for b in [(), (6,), (2, 3), (1, 6, 1)]:
                X = cfgs[0] if b == () else np.stack(cfgs).reshape(*b, *U.shape)
                want = ref[0] if b == () else ref.reshape(b)
                rec.close(gauge.wilson_action(jnp.asarray(X), beta), -beta * want, "action:value", rtol=1e-9, atol=1e-9, b=b, beta=beta)
                rec.close(gauge.wilson_log_prob(jnp.asarray(X), beta), beta * want, "action:log-probability", rtol=1e-9, atol=1e-9, b=b)
                rec.step(2)
                rec.state(shape, n, b, beta)
        rec.close(gauge.wilson_action(jnp.asarray(cfgs[-1]), 2.0), -2.0 * len(sites) * d * (d - 1) / 2, "action:ordered")
        rec.trace(len(cfgs))
        rec.outcome(ref.tobytes())

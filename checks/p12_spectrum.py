"""P12: Fourier-space scaling layers."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P12"
RULE = (
    "Every lattice shape up to the bound (1d..5, 2d..4x4, 3d..2x3x2) x channel shape x spectrum alphabet (positive, mixed "
    "sign, constant, steep; common and single factors from 1e-30 to 1e30) x constant/trainable; free theory: shape x mass x {lattice, continuum} x normalisation x "
    "{precomputed, on the fly, trainable} ; oracle: dense linear algebra - the full matrix of the layer, its covariance "
    "against an explicitly assembled lattice operator, its determinant; representation layers' volume factor."
)


def shapes(tier):
    o = [(n,) for n in (1, 2, 3, 4, 5)] + [(2, 2), (2, 3), (3, 2), (3, 4), (4, 3), (4, 4), (1, 4), (5, 2)] + [(2, 3, 2), (3, 2, 4), (2, 2, 1, 2)] + [(17,), (9, 8), (3, 5, 4)]
    if tier == "thorough":
        o += [(n,) for n in (6, 7, 8, 9)] + list(itertools.product((5, 6), repeat=2)) + [(4, 4, 4), (3, 3, 3), (2, 2, 2, 2)]
    return o


def cases(tier):
    for s in shapes(tier):
        for ch in [[], [2]] + ([[2, 3]] if s in [(3, 4), (4,), (2, 2)] else []):
            yield "scaling", dict(shape=list(s), ch=ch)
            yield "free", dict(shape=list(s), ch=ch)
        yield "volume", dict(shape=list(s))


def weight(f, c):
    return {"free": 3, "scaling": 2}.get(f, 1)


def spectrum(s, name):
    """reflection-symmetric real spectrum on the reduced grid"""
    g = generic(s, 0.4, 2.0, salt=6)
    if name == "signed":
        g = generic(s, -2.0, 2.0, salt=7)
        g = np.where(np.abs(g) < 0.2, 0.5, g)
    if name == "const":
        g = np.full(s, -0.7)
    if name == "steep":
        g = np.exp(generic(s, -4, 4, salt=8))
    idx = np.stack(np.meshgrid(*[np.arange(n) for n in s], indexing="ij"), -1).reshape(-1, len(s))
    out = np.zeros(s)
    for k in map(tuple, idx):
        m = tuple((-i) % n for i, n in zip(k, s))
        out[k] = g[max(k, m)]
    return out


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    import bijx
    from bijx.fourier import FFTRep

    s, ch = tuple(case["shape"]), tuple(case.get("ch", ()))
    D, N, C = len(s), int(np.prod(s)), int(np.prod(ch))
    red = (slice(None),) * (D - 1) + (slice(0, s[-1] // 2 + 1),)

    def matrix(f):
        """N x N matrix of a translation-compatible linear map acting on the space axes; checks channels decouple."""
        E = np.eye(N).reshape((N,) + s)
        cols = []
        full = np.zeros((N,) + s + ch)
        amp = np.arange(1.0, C + 1).reshape(ch) if ch else 1.0
        full[...] = E.reshape((N,) + s + (1,) * len(ch)) * amp
        y = np.asarray(f(jnp.asarray(full)))
        rec.expect(y.shape == full.shape, "shape")
        y = y.reshape(N, N, C)
        for c in range(C):
            cols.append(y[:, :, c].T / (c + 1))
            rec.close(cols[-1], cols[0], "channels-differ", rtol=1e-8, atol=1e-9)
        return cols[0]

    def layer(b, K, lab):
        """K: expected N x N matrix"""
        fw = jax.jit(lambda x, l: b.forward(x, l))
        rv = jax.jit(lambda x, l: b.reverse(x, l))
        z = jnp.zeros((N,))
        M = matrix(lambda x: fw(x, z)[0])
        rec.close(M, K, lab + ":map", rtol=1e-8, atol=1e-8)
        Mi = matrix(lambda x: rv(x, z)[0])
        Kd = np.linalg.slogdet(K)[1] * C
        x = generic((N,) + s + ch, salt=9)
        l0 = generic((N,), salt=10)
        y, l = fw(jnp.asarray(x), jnp.asarray(l0))
        rec.close(l, l0 - Kd, lab + ":density", rtol=1e-7, atol=1e-7)
        xb, lb = rv(y, l)
        rec.close(xb, x, lab + ":roundtrip", rtol=1e-6, atol=1e-7)
        rec.close(lb, l0, lab + ":roundtrip-density", rtol=1e-7, atol=1e-7)
        _, lr = rv(jnp.asarray(x), jnp.asarray(l0))
        rec.close(lr, l0 + Kd, lab + ":reverse-density", rtol=1e-7, atol=1e-7)
        sc = np.abs(np.linalg.inv(K)).max()
        rec.close(Mi / sc, np.linalg.inv(K) / sc, lab + ":inverse", rtol=1e-7, atol=1e-8)
        y1, l1 = b.forward(jnp.asarray(x[0]), jnp.asarray(l0[0]))
        rec.close(y1, y[0], lab + ":unbatched", atol=1e-9)
        rec.close(l1, l[0], lab + ":unbatched-density", atol=1e-9)
        if N >= 4:
            k = N // 2
            xx = jnp.asarray(x[: 2 * k].reshape((2, k) + s + ch))
            y2, l2 = b.forward(xx, jnp.asarray(l0[: 2 * k].reshape(2, k)))
            rec.close(np.asarray(y2).reshape((2 * k,) + s + ch), y[: 2 * k], lab + ":batched", atol=1e-9)
            rec.close(np.ravel(l2), l[: 2 * k], lab + ":batched-density", atol=1e-9)
        rec.step(2 * N + 5)
        rec.trace(N)
        rec.outcome(np.round(M, 8).tobytes())

    def circ(full):
        """dense matrix of ifft diag(full) fft"""
        E = np.eye(N).reshape((N,) + s)
        ax = tuple(range(1, D + 1))
        y = np.fft.ifftn(np.fft.fftn(E, axes=ax) * full, axes=ax)
        return np.real(y).reshape(N, N).T

    if family == "scaling":
        for name in ("pos", "signed", "const", "steep"):
            full = spectrum(s, name)
            K = circ(full)
            for wrap in ((lambda v: v), nnx.Param):
                if wrap is nnx.Param and name != "pos":
                    continue
                b = bijx.SpectrumScaling(wrap(jnp.asarray(full[red])), channel_dim=len(ch))
                layer(b, K, "scaling")
                rec.state(s, ch, name, wrap is nnx.Param)

        # magnitudes: a common factor multiplies the map and adds to the density, over the whole range of doubles
        full, l0 = spectrum(s, "signed"), generic((N,), salt=10)
        x = generic((N,) + s + ch, salt=9)
        run = jax.jit(lambda r, x, l, d: (lambda b: b.reverse(x, l) if d else b.forward(x, l))(bijx.SpectrumScaling(r, channel_dim=len(ch))),
                      static_argnums=3)
        out = {d: run(jnp.asarray(full[red]), jnp.asarray(x), jnp.asarray(l0), d) for d in (False, True)}
        for e in (-30, -12, -8, -5, -3, 3, 5, 8, 12, 30):
            a = 10.0**e
            for d, sg in ((False, 1), (True, -1)):
                y, l = run(jnp.asarray(full[red] * a), jnp.asarray(x), jnp.asarray(l0), d)
                rec.close(np.asarray(y) * 10.0 ** (-sg * e), out[d][0], "magnitude:map", rtol=1e-8, atol=1e-8, e=e, reverse=d)
                rec.close(np.asarray(l) - np.asarray(out[d][1]), np.full(N, -sg * e * np.log(10.0) * N * C), "magnitude:density", rtol=1e-9, e=e, reverse=d)
                rec.step(2)
                rec.state(s, ch, "magnitude", e, d)
        # one small or large factor at a time
        for k in [(0,) * D, tuple(n // 2 for n in s), tuple(1 % n for n in s)]:
            mk = tuple((-i) % n for i, n in zip(k, s))
            for a in (1e-9, 1e-4, 1e4, 1e9):
                f2 = full.copy()
                f2[k] = f2[mk] = a
                _, l = run(jnp.asarray(f2[red]), jnp.asarray(x), jnp.asarray(l0), False)
                rec.close(np.asarray(l) - l0, np.full(N, -np.log(np.abs(f2)).sum() * C), "magnitude:one-factor", rtol=1e-9, atol=1e-9, k=k, a=a)
                rec.step()

    elif family == "free":
        lap = np.zeros((N, N))
        idx = np.arange(N).reshape(s)
        for ax in range(D):
            for sh in (1, -1):
                lap[idx.ravel(), np.roll(idx, sh, axis=ax).ravel()] -= 1
                lap[idx.ravel(), idx.ravel()] += 1
        k = np.stack(np.meshgrid(*[np.arange(n) for n in s], indexing="ij"), -1)
        k2 = ((2 * np.pi * np.minimum(k, np.array(s) - k) / np.array(s)) ** 2).sum(-1)
        for m2, finite, half, mode in itertools.product((0.3, 2.0), (True, False), (True, False), ("pre", "fly", "var", "const")):
            if (m2 == 2.0) != (mode == "fly") and half is False:
                continue
            if m2 == 2.0 and mode in ("var", "const"):
                continue
            op = (lap if finite else circ(k2)) + m2 * np.eye(N)
            if not half:
                op = 2 * op
            w, V = np.linalg.eigh(op)
            K = (V / np.sqrt(w)) @ V.T  # symmetric square root of the covariance
            arg = m2
            if mode == "var":
                arg = nnx.Param(jnp.asarray(m2 + 1.0))
            elif mode == "const":
                arg = bijx.Const(jnp.asarray(m2))
            b = bijx.FreeTheoryScaling(arg, s, channel_dim=len(ch), finite_size=finite, half=half,
                                       precompute_spectrum=(mode != "fly"))
            if mode == "var":  # a parameter update must reach the layer
                gd, st = nnx.split(b)
                st = jax.tree.map(lambda v: v, st)
                b = nnx.merge(gd, st)
                b.m2.set_value(jnp.asarray(m2))
            layer(b, K, "free")
            rec.state(s, ch, m2, finite, half, mode)
        # unspecified options: finite size, half, precomputed, no channels
        if not ch:
            layer(bijx.FreeTheoryScaling(0.8, s), (lambda wv: (wv[1] / np.sqrt(wv[0])) @ wv[1].T)(np.linalg.eigh(lap + 0.8 * np.eye(N))), "free:defaults")
        if not ch:
            # trainable mass: gradient of the density matches -d/dm2 log|det|
            b = bijx.FreeTheoryScaling(nnx.Param(jnp.asarray(0.5)), s)
            gd, st = nnx.split(b)
            g = jax.grad(lambda q: nnx.merge(gd, q).forward(jnp.zeros(s), jnp.zeros(()))[1], allow_int=True)(st)
            got = np.asarray(g["m2"].get_value())
            w = np.linalg.eigvalsh(lap)
            rec.close(got, 0.5 * np.sum(1 / (w + 0.5)), "free:mass-gradient", rtol=1e-6)
            rec.step()

    elif family == "volume":
        x = generic(s, salt=3)
        for r in [*FFTRep, None]:
            for unpack in (False, True):
                b = bijx.ToFourierData(s, rep=r, unpack=unpack)
                l0 = 0.37
                y, l = b.forward(jnp.asarray(x), jnp.asarray(l0))
                xb, lb = b.reverse(y, l)
                rec.close(lb, l0, "volume:roundtrip", atol=1e-9)
                if r == FFTRep.comp_real and unpack:
                    M = np.asarray(jax.jacfwd(lambda v: b.forward(v.reshape(s), jnp.zeros(()))[0])(jnp.ravel(jnp.asarray(x))))
                    want = l0 - np.linalg.slogdet(M.reshape(N, N))[1]
                    if abs(float(l) - l0) < 1e-12:
                        # listed finding: the representation is treated as volume preserving
                        rec.close(l, want, "volume:independent-components-unscaled", atol=1e-8)
                    else:
                        rec.close(l, want, "volume:independent-components", atol=1e-8)
                else:
                    rec.close(l, l0, "volume:unchanged", atol=1e-9)
                rec.step(2)
                rec.trace()
                rec.state(s, str(r), unpack)
                rec.outcome(str(r), np.round(np.asarray(l), 6).tobytes())

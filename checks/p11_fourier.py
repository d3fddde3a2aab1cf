"""P11: Fourier representations of real fields are equivalent."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P11"
RULE = (
    "Every lattice shape up to the bound (1d to 9, 2d to 4x4, six 3d shapes (all up to 3x3x3 for momenta), 4d and 5d shapes with sides 2 and one 3 at every position; thorough 1d 16, 2d 8x8, 3d 4x4x4, 4d 2..3) x channel "
    "count x batch shape x every ordered pair and triple of representations; oracle: numpy FFT, linear algebra of the "
    "complete transformation matrix (all unit vectors), closed-form momenta; arbitrary independent-component vectors are "
    "pushed back to fields."
)


def shapes(tier):
    a, b, c = (9, 5, 3) if tier == "quick" else (16, 8, 4)
    out = [(n,) for n in range(1, a + 1)]
    out += list(itertools.product(range(1, b + 1), repeat=2))
    out += list(itertools.product(range(1, c + 1), repeat=3))
    out += list(itertools.product((2, 3), repeat=4)) if tier == "thorough" else [(2, 2, 2, 2), (2, 3, 1, 2)]
    # 4d and 5d: one longer side at every position in turn (conjugate pairs that differ along that axis only)
    for d in (4, 5):
        out += [t for j in range(d) if (t := tuple(3 if i == j else 2 for i in range(d))) not in out]
    return out


QUICK3 = [(2, 2, 2), (2, 3, 2), (3, 2, 3), (2, 2, 3), (1, 3, 2), (5, 4)]


def cases(tier):
    for s in shapes(tier):
        small = len(s) >= 4 or (len(s) == 1 and s[0] <= 6) or (len(s) == 2 and max(s) <= 4) or s in QUICK3
        if tier == "thorough" or small:
            yield "rep", dict(shape=list(s), tier=tier)
        yield "momenta", dict(shape=list(s))
    for s in [(40,), (33,), (10, 11), (12, 9)]:
        yield "rep", dict(shape=list(s), tier="quick")
    for s in [(26,), (33,), (11, 12), (13, 14), (24, 22)]:
        yield "momenta", dict(shape=list(s))


def weight(f, c):
    return (5 if f == "rep" else 1) + np.prod(c["shape"]) / 100


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp

    import bijx
    from bijx.fourier import FFTRep, FourierData, FourierMeta, fft_momenta

    s = tuple(case["shape"])
    N = int(np.prod(s))
    D = len(s)

    if family == "momenta":
        idx = np.stack(np.meshgrid(*[np.arange(n) for n in s], indexing="ij"), -1)
        mini = np.minimum(idx, np.array(s) - idx)
        red = (slice(None),) * (D - 1) + (slice(0, s[-1] // 2 + 1),)
        for reduced, lattice in itertools.product((True, False), repeat=2):
            k = np.asarray(fft_momenta(s, reduced=reduced, lattice=lattice))
            want = 4 * np.sin(np.pi * idx / np.array(s)) ** 2 if lattice else (2 * np.pi * mini / np.array(s)) ** 2
            rec.close(k**2, want[red] if reduced else want, "momentum-squared", reduced=reduced, lattice=lattice)
            u = np.asarray(fft_momenta(s, reduced=reduced, lattice=lattice, unit=True))
            rec.expect(np.array_equal(u, idx[red] if reduced else idx), "unit-index", reduced=reduced)
            rec.step(2)
            rec.state(s, reduced, lattice)
        k = np.asarray(fft_momenta(s))
        rec.expect(np.all(np.abs(np.exp(1j * k) - np.exp(2j * np.pi * idx[red] / np.array(s))) < 1e-9), "phase")
        if D > 1 or s[0] > 0:
            meta = FourierMeta.create(s)
            rec.expect(meta.shape_info.channel_dim == 0 and FourierMeta.create(s, 2).shape_info.channel_dim == 2, "channel-default")
            edit = FourierMeta.create(s, 1)
            rec.expect(meta.replace(shape_info=edit.shape_info).shape_info.channel_dim == 1 and meta.shape_info.channel_dim == 0,
                       "metadata-edit")
            fd = FourierData.from_real(jnp.ones(s), s)
            new = fd.replace(data=jnp.zeros(s))
            rec.expect(not np.any(np.asarray(new.data)) and np.all(np.asarray(fd.data) == 1) and new.rep == fd.rep
                       and new.meta is fd.meta, "data-edit")
            rec.expect(fd.rep == FFTRep.real_space and fd.to(FFTRep.real_space).rep == fd.rep, "default-representation")
            ks = (mini**2).sum(-1)[red]
            mr = np.asarray(meta.mr)
            rec.expect(np.array_equal(np.asarray(meta.ks_reduced), ks[mr]), "magnitude-of-independent-modes")
            kr, ui, uu = (np.asarray(v) for v in (meta.ks_reduced, meta.unique_idc, meta.unique_unfold))
            rec.expect(np.array_equal(kr[ui][uu], kr) and len(set(kr[ui].tolist())) == len(ui), "unique-magnitudes")
            rec.expect(tuple(meta.real_shape) == s, "real-shape")
        rec.trace(4)
        rec.outcome(k.tobytes())
        return

    R = list(FFTRep)
    eye = np.eye(N).reshape((N,) + s)

    # complete transformation matrix from all unit vectors (batch axis = unit vector)
    fd = FourierData.from_real(jnp.asarray(eye), s)
    M = np.asarray(fd.to(FFTRep.comp_real).data).T  # columns = images of unit vectors
    rec.expect(M.shape == (N, N), "independent-count", got=M.shape)
    if M.shape == (N, N):
        G = M @ M.T
        dg = np.diag(G)
        rec.close(G, np.diag(dg), "modes-not-orthogonal", atol=1e-10)
        # self-conjugate modes have norm 1, the others split 1 over two conjugate partners
        nself = int(np.prod([2 if n % 2 == 0 else 1 for n in s]))
        rec.close(np.sort(dg), np.sort([1.0] * nself + [0.5] * (N - nself)), "mode-norms", atol=1e-10)
        back = FourierData(jnp.asarray(np.eye(N)), FFTRep.comp_real, fd.meta).to(FFTRep.real_space).data
        rec.close(np.asarray(back).reshape(N, N).T, np.linalg.inv(M), "inverse-matrix", atol=1e-9)
    rec.step(2 * N)

    combos = [((), (), 0), ((2,), (2,), 1), ((2, 1), (), 0), ((), (2, 3), 2)]
    for batch, ch, cd in combos if case["tier"] == "thorough" or N in (4, 6, 9) else combos[1:2]:
        ax = tuple(range(len(batch), len(batch) + D))
        x = generic(batch + s + ch, -2, 2, salt=3)
        ref = np.fft.rfftn(x, axes=ax, norm="ortho")
        fd = FourierData.from_real(jnp.asarray(x), s, channel_dim=cd)
        reps = {r: fd.to(r) for r in R}
        rec.expect(fd.to(None) is fd or fd.to(None).rep == fd.rep, "none-is-identity")
        for r in R:
            direct = FourierData.from_real(jnp.asarray(x), s, to=r, channel_dim=cd)
            rec.expect(direct.rep == r, "direct-label", r=r, got=direct.rep)
            rec.close(direct.data, reps[r].data, "direct-conversion", rtol=1e-9, atol=1e-10, r=r)
        rec.close(reps[FFTRep.rfft].data, ref, "rfft", rtol=1e-9, atol=1e-10, batch=batch, ch=ch)
        cc = np.asarray(reps[FFTRep.comp_complex].data)
        rec.close(reps[FFTRep.real_space].data, x, "real-unchanged")
        # linear action agrees with the matrix built from unit vectors, per batch entry and channel
        flat = np.moveaxis(x, ax, range(D)).reshape(N, -1)
        want = np.moveaxis((M @ flat).reshape((N,) + batch + ch), 0, len(batch))
        rec.close(reps[FFTRep.comp_real].data, want, "real-dof", rtol=1e-9, atol=1e-10, batch=batch, ch=ch)
        rec.expect(cc.shape[len(batch)] == (N + int(np.prod([2 if n % 2 == 0 else 1 for n in s]))) // 2, "complex-count")
        power = np.sum(np.abs(np.asarray(reps[FFTRep.comp_complex].data)) ** 2)
        rec.expect(power <= np.sum(x**2) + 1e-9, "power")
        for a, b, c in itertools.product(R, repeat=3):
            if a == b and b != c:
                continue
            y = reps[a].to(b).to(c)
            rec.expect(y.rep == c and reps[a].to(b).rep == b, "label", a=a, b=b, c=c)
            rec.close(y.data, reps[c].data, "path-independence", rtol=1e-9, atol=1e-9, a=a, b=b, c=c)
            rec.step(2)
            rec.state(s, batch, ch, int(a), int(b), int(c))
        # as a flow layer
        for r in [*R, None]:
            for unpack in (False, True):
                if unpack and r == FFTRep.comp_complex and batch:
                    continue
                bij = bijx.ToFourierData(s, rep=r, channel_dim=cd, unpack=unpack)
                y, _ = bij.forward(jnp.asarray(x), jnp.zeros(batch))
                rec.close(y if unpack else y.data, (x if r is None else reps[r].data), "layer-image", rtol=1e-9, atol=1e-9)
                xb, _ = bij.reverse(y, jnp.zeros(batch))
                rec.close(xb, x, "layer-roundtrip", rtol=1e-9, atol=1e-9)
                rec.step(2)
        x32 = jnp.asarray(x, jnp.float32)
        f32 = FourierData.from_real(x32, s, channel_dim=cd)
        for r in R:
            rec.expect(f32.to(r).to(FFTRep.real_space).data.dtype == jnp.float32, "precision-changed", r=r)
        rec.trace(len(R) ** 3)
        rec.outcome(np.round(np.asarray(reps[FFTRep.comp_real].data), 8).tobytes())
    # jit over the data alone
    f = jax.jit(lambda v: FourierData.from_real(v, s, to=FFTRep.comp_real).to(FFTRep.real_space).data)
    rec.close(f(jnp.asarray(eye)), eye, "jit-roundtrip", atol=1e-10)

"""P20: scalar lattice observables."""
import itertools

import numpy as np

from mc.lib import generic

PROPERTY = "P20"
RULE = (
    "Every lattice shape up to the bound (1d..6, 2d..4x4, 3d, 4d); observables are polynomials in the field, so fields = all one- and "
    "two-site unit fields (they determine every quadratic form completely) + generic + constant; every coupling pair of an alphabet; "
    "oracle: explicit loops over sites, neighbours and displacements.  Invariance under every translation and axis swap/reflection.  "
    "Correlators with a known decay for every extent and mass of an alphabet."
)
ASSUMPTIONS = ["connected correlator claimed exactly for translation-complete ensembles, and for its lattice sum in general"]


def shapes(tier):
    out = [(n,) for n in range(1, 7)] + list(itertools.product((1, 2, 3, 4), repeat=2)) + [(2, 3, 2), (3, 1, 2), (2, 2, 2), (2, 1, 3, 2)]
    if tier != "quick":
        out += [(5, 3), (3, 5), (6, 6), (3, 3, 3), (4, 2, 3), (2, 2, 2, 2)]
    return out


def cases(tier):
    for s in shapes(tier):
        yield "action", dict(shape=list(s))
        yield "correlator", dict(shape=list(s))
    for s in [(40,), (17, 6), (9, 8), (5, 4, 3), (3, 3, 2, 3), (2, 2, 2, 2, 2)]:
        yield "large", dict(shape=list(s))
    for d in (1, 2, 3):
        yield "decay", dict(dim=d)
    yield "poly", dict(n=1)


def weight(f, c):
    return int(np.prod(c.get("shape", [1])))


def nb(x, mu, shape, s=1):
    y = list(x)
    y[mu] = (y[mu] + s) % shape[mu]
    return tuple(y)


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from bijx.lattice import scalar as sc

    if family == "poly":
        phi = np.array([-1.3, 0.0, 0.4, 2.0])
        for n in range(1, 5):
            for c in itertools.product((-0.7, 0.0, 1.5), repeat=n):
                for even in (False, True):
                    z = phi**2 if even else phi
                    want = sum(c[k] * z ** (n - k) for k in range(n))
                    rec.close(sc.poly_term(jnp.asarray(phi), jnp.asarray(c), even), want, "poly", c=c, even=even)
                    rec.step()
                    rec.state(c, even)
        for shp in [(), (2, 3), (2, 2, 2)]:
            p = generic(shp)
            rec.close(sc.poly_term(jnp.asarray(p), jnp.asarray([0.5, 1.0, -2.0])), 0.5 * p**3 + p**2 - 2 * p, "poly:shape")
        rec.trace()
        return

    if family == "decay":
        d = case["dim"]
        for L in (3, 4, 5, 8, 12):
            for m in (0.1, 0.35, 1.0, 2.0):
                t = np.arange(L)
                G = np.cosh(m * (t - L / 2))
                for spatial in [(1,) * (d - 1), (3,) * (d - 1), (2, 4)[: d - 1]]:
                    # arbitrary dependence on the other axes; only the marginal decays
                    w = generic(spatial, 0.2, 1.0) if spatial else np.ones(())
                    two = w[..., None] * G
                    rec.close(sc.correlation_length(jnp.asarray(two)), 1 / m, "decay", rtol=1e-6, L=L, m=m, spatial=spatial)
                    rec.step()
                    rec.state(d, L, m, spatial)
            # superpositions: the reciprocal of the mean effective mass over all time differences but zero
            import math
            for (w, m), k in itertools.product([((1.0, 0.6), (1.1, 0.3)), ((1.0, 0.05), (0.2, 2.5)), ((0.3, 2.0, 1.0), (0.5, 1.5, 3.0))], (0, 1)):
                t = np.arange(L)
                G = sum(a * np.cosh(b * (t - L / 2)) for a, b in zip(w, m)) * 10.0 ** (-6 * k)
                mp = [math.acosh((G[(i + 1) % L] + G[i - 1]) / (2 * G[i])) for i in range(1, L)]
                for spatial in [(1,) * (d - 1), (2, 4)[: d - 1]]:
                    q = generic(spatial, 0.2, 1.0) if spatial else np.ones(())
                    rec.close(sc.correlation_length(jnp.asarray(q[..., None] * G)), (L - 1) / sum(mp), "decay:superposition", rtol=1e-7, L=L, m=m)
                    rec.step()
                    rec.state(d, L, w, m, k, spatial)
            # correlators that are not convex everywhere: undefined masses are left out
            G = 1.0 + 0.5 * np.cosh(0.4 * (np.arange(L) - L / 2)) + 0.2 * generic((L,), -1, 1)
            ag = np.array([(G[(i + 1) % L] + G[i - 1]) / (2 * G[i]) for i in range(1, L)])
            if np.any(ag >= 1):
                rec.close(sc.correlation_length(jnp.asarray(np.broadcast_to(G, (2,) * (d - 1) + (L,)))), 1 / np.arccosh(ag[ag >= 1]).mean(),
                          "decay:undefined-masses", rtol=1e-7, L=L)
        rec.trace()
        return

    shape = tuple(case["shape"])
    d = len(shape)
    if family == "large":
        ax = tuple(range(d))
        for salt in range(3):
            f, g = generic(shape, -2, 2, salt=salt), generic(shape, -1, 2, salt=salt + 3)
            J = jnp.asarray(f)
            fw = [np.roll(f, -1, i) for i in ax]
            rec.close(sc.kinetic_term(J), sum((q - f) ** 2 for q in fw), "large:kinetic", rtol=1e-9, atol=1e-10)
            for m2, lam in ((-1.0, None), (0.6, 0.3)):
                want = sum((q - f) ** 2 for q in fw) + m2 * f**2 + (lam or 0) * f**4
                rec.close(sc.phi4_term(J, m2, lam), want, "large:action", rtol=1e-9, atol=1e-10)
                want = -0.8 * f * sum(fw) + (1 - 2 * (lam or 0)) * f**2 + (lam or 0) * f**4
                rec.close(sc.phi4_term_alt(J, 0.4, lam), want, "large:action-hopping", rtol=1e-9, atol=1e-10)
            shifts = list(np.ndindex(*shape))
            back = [np.roll(g, tuple(-k for k in x), ax) for x in shifts]
            rec.close(sc.cyclic_corr(J, jnp.asarray(g)), np.array([(f * b).mean() for b in back]).reshape(shape), "large:correlation", rtol=1e-9, atol=1e-10)
            rec.close(sc.cyclic_tensor(J, jnp.asarray(g)), np.stack([f * b for b in back]).reshape(shape + shape), "large:tensor", rtol=1e-9, atol=1e-10)
            rec.close(sc.cyclic_corr_mat(jnp.asarray(np.multiply.outer(f, g))), np.array([(f * b).mean() for b in back]).reshape(shape),
                      "large:correlation-of-tensor", rtol=1e-9, atol=1e-10)
            rec.step(8)
            rec.state(shape, salt)
        for K in (1, 33, 300):
            E = generic((K,) + shape, -1, 2, salt=5)
            acc = np.stack([(E * np.roll(E, tuple(-k for k in x), tuple(i + 1 for i in ax))).mean(tuple(i + 1 for i in ax)) for x in shifts], -1)
            rec.close(sc.two_point(jnp.asarray(E), average=False), acc.reshape((K,) + shape), "large:two-point:samples", rtol=1e-9, atol=1e-10)
            rec.close(sc.two_point(jnp.asarray(E)), acc.mean(0).reshape(shape), "large:two-point", rtol=1e-9, atol=1e-10)
            rec.close(np.asarray(sc.two_point_central(jnp.asarray(E))).sum(), acc.mean(0).sum() - np.prod(shape) * E.mean() ** 2, "large:connected-sum",
                      rtol=1e-9, atol=1e-8)
            rec.step(3)
            rec.state(shape, "ensemble", K)
        rec.trace()
        rec.outcome(acc.mean(0).tobytes())
        return
    sites = list(np.ndindex(*shape))
    N = len(sites)
    unit = []
    for i in range(N):
        for j in range(i, N):
            f = np.zeros(N)
            f[i] += 1.0
            f[j] += 0.5
            unit.append(f.reshape(shape))
    if N > 16:
        unit = unit[:: max(1, len(unit) // 300)]
    fields = np.stack(unit + [generic(shape, -2, 2, salt=k) for k in range(3)] + [np.full(shape, 1.7), np.zeros(shape)])

    if family == "action":
        fwd = np.stack([np.stack([np.array([f[nb(x, mu, shape)] for x in sites]).reshape(shape) for mu in range(d)]) for f in fields])
        kin = ((fwd - fields[:, None]) ** 2).sum(1)
        hop = fwd.sum(1)
        J = jnp.asarray(fields)
        rec.close(jax.vmap(sc.kinetic_term)(J), kin, "kinetic", rtol=1e-9, atol=1e-10)
        rec.step(len(fields))
        for m2, lam in itertools.product((-1.0, 0.0, 0.6), (None, 0.0, 0.3, -0.2)):
            want = kin + m2 * fields**2 + (0 if lam is None else lam) * fields**4
            got = jax.vmap(lambda p: sc.phi4_term(p, m2, lam))(J)
            rec.close(got, want, "phi4", rtol=1e-9, atol=1e-10, m2=m2, lam=lam)
            rec.step(len(fields))
            rec.state(shape, m2, lam)
        for ka, lam in itertools.product((-0.4, 0.0, 0.3), (None, 0.0, 0.25, 1.1)):
            l = 0 if lam is None else lam
            want = -2 * ka * fields * hop + (1 - 2 * l) * fields**2 + l * fields**4
            rec.close(jax.vmap(lambda p: sc.phi4_term_alt(p, ka, lam))(J), want, "phi4-hopping", rtol=1e-9, atol=1e-10, ka=ka, lam=lam)
            rec.step(len(fields))
            rec.state(shape, "hop", ka, lam)
        # both parametrisations describe the same theory up to a rescaling: S(kappa, lam)[phi] = S(m2, g)[sqrt(kappa) phi]
        ka, l = 0.3, 0.2
        a = np.asarray(jax.vmap(lambda p: sc.phi4_term_alt(p, ka, l))(J)).reshape(len(fields), -1).sum(1)
        b = np.asarray(jax.vmap(lambda p: sc.phi4_term(np.sqrt(ka) * p, (1 - 2 * l) / ka - 2 * d, l / ka**2))(J)).reshape(len(fields), -1).sum(1)
        rec.close(a, b, "parametrisations", rtol=1e-8, atol=1e-9)
        # symmetry of the total action
        f = fields[-3]
        S = float(jnp.sum(sc.phi4_term(jnp.asarray(f), 0.4, 0.2)))
        for shift in sites:
            g = np.roll(f, shift, tuple(range(d)))
            rec.close(jnp.sum(sc.phi4_term(jnp.asarray(g), 0.4, 0.2)), S, "action:translation", rtol=1e-10, shift=shift)
            rec.step()
        for perm in itertools.permutations(range(d)):
            for fl in itertools.product((0, 1), repeat=d):
                g = np.transpose(f, perm)
                g = np.flip(g, [i for i in range(d) if fl[i]])
                rec.close(jnp.sum(sc.phi4_term(jnp.asarray(g), 0.4, 0.2)), S, "action:lattice-symmetry", rtol=1e-10, perm=perm, fl=fl)
                rec.step()
        rec.trace(len(fields))
        rec.outcome(round(S, 9))
    else:
        def disp(x, y):
            return tuple((a + b) % s for a, b, s in zip(x, y, shape))

        idx = np.array([[int(np.ravel_multi_index(disp(x, y), shape)) for y in sites] for x in sites])  # [x, y] -> y + x
        F = fields.reshape(len(fields), N)
        sel = F[:: max(1, len(F) // 12)]
        sel = np.concatenate([sel, F[-4:]])
        for a in sel[-5:]:
            for b in (sel[0], sel[len(sel) // 2], sel[-4], sel[-3]):
                T = a[None, :] * b[idx]
                ja, jb = jnp.asarray(a.reshape(shape)), jnp.asarray(b.reshape(shape))
                rec.close(sc.cyclic_corr(ja, jb), T.mean(1).reshape(shape), "cyclic-correlation", rtol=1e-9, atol=1e-10)
                rec.close(sc.cyclic_tensor(ja, jb), T.reshape(shape + shape), "cyclic-tensor", rtol=1e-9, atol=1e-10)
                rec.close(sc.cyclic_corr_mat(jnp.asarray(np.multiply.outer(a.reshape(shape), b.reshape(shape)))), T.mean(1).reshape(shape),
                          "cyclic-correlation-of-tensor", rtol=1e-9, atol=1e-10)
                rec.step(3)
        M = generic((N, N), salt=4)
        rec.close(sc.cyclic_corr_mat(jnp.asarray(M.reshape(shape + shape))), np.array([M[np.arange(N), idx[i]].mean() for i in range(N)]).reshape(shape),
                  "cyclic-correlation-of-general-tensor", rtol=1e-9, atol=1e-10)
        C = np.stack([(f[None, :] * f[idx]).mean(1) for f in F])
        J = jnp.asarray(fields)
        rec.close(sc.two_point(J, False), C.reshape(len(F), *shape), "two-point:samples", rtol=1e-9, atol=1e-10)
        rec.close(sc.two_point(J), C.mean(0).reshape(shape), "two-point", rtol=1e-9, atol=1e-10)
        rec.step(2 * len(F))
        got = np.asarray(sc.two_point_central(J))
        rec.close(got.sum(), C.mean(0).sum() - N * F.mean() ** 2, "connected:sum", rtol=1e-9, atol=1e-9)
        # translation-complete ensembles
        for f in (F[-4], F[-5], F[-3] + 1.0, F[0]):
            ens = np.stack([f[idx[i]] for i in range(N)]).reshape(N, *shape)
            c = (f[None, :] * f[idx]).mean(1).reshape(shape)
            rec.close(sc.two_point_central(jnp.asarray(ens)), c - f.mean() ** 2, "connected", rtol=1e-8, atol=1e-9)
            # adding a constant to every sample changes the full but not the connected function
            rec.close(sc.two_point_central(jnp.asarray(ens + 2.5)), c - f.mean() ** 2, "connected:shift", rtol=1e-7, atol=1e-8)
            rec.step(2)
            rec.state(shape, "ens", f.tobytes())
        # every translation of every sample leaves the two-point function unchanged
        for i in range(N):
            rec.close(sc.two_point(jnp.asarray(F[:, idx[i]].reshape(-1, *shape))), C.mean(0).reshape(shape), "two-point:translation", rtol=1e-9, atol=1e-10)
            rec.step()
        rec.trace(len(F))
        rec.outcome(C.mean(0).tobytes())

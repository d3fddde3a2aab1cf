"""P18: shape bookkeeping."""
import itertools

import numpy as np

PROPERTY = "P18"
RULE = (
    "Every event shape of rank 0..3(4) over extents {1,2,3} (with empty axes up to rank 3, and some large extents) x every space/channel split x every non-empty subset of the six "
    "descriptive fields: derived fields against an independent knowledge-closure model (monotone fixpoint), then for every batch "
    "shape of rank <=2 incl. empty: separation, flattening and canonicalisation of label arrays, axes, sizes, rejection of every "
    "contradicting array shape that differs in one extent; equality/hash over all pairs of descriptions with the same closure; tree round trip."
)
ASSUMPTIONS = ["descriptions that contradict themselves at construction are outside the claim"]

FIELDS = ("event_shape", "space_shape", "channel_shape", "event_dim", "space_dim", "channel_dim")


def cases(tier):
    ext = (1, 2, 3)
    for r in range(0, 4 if tier == "quick" else 5):
        for ev in itertools.product(ext, repeat=r):
            yield "describe", dict(event=list(ev))
    for r in range(1, 4):  # empty events
        for ev in itertools.product((0, 2, 3) if r < 3 else (0, 2), repeat=r):
            if 0 in ev:
                yield "describe", dict(event=list(ev))
    for ev in ([300], [17, 40], [1, 129], [5, 7, 11]):
        yield "describe", dict(event=ev)
    yield "pairs", dict(rank=2 if tier == "quick" else 3)


def closure(known):
    k = dict(known)
    changed = True
    while changed:
        old = dict(k)
        for n in ("event", "space", "channel"):
            if n + "_shape" in k:
                k[n + "_dim"] = len(k[n + "_shape"])
        for a, b, c in itertools.permutations(("event", "space", "channel")):
            if a + "_dim" in k and b + "_dim" in k and c + "_dim" not in k:
                k[c + "_dim"] = {"event": lambda: k["space_dim"] + k["channel_dim"], "space": lambda: k["event_dim"] - k["channel_dim"],
                                 "channel": lambda: k["event_dim"] - k["space_dim"]}[c]()
        if "space_shape" in k and "channel_shape" in k:
            k["event_shape"] = k["space_shape"] + k["channel_shape"]
        if "event_shape" in k and "space_dim" in k:
            k["space_shape"], k["channel_shape"] = k["event_shape"][: k["space_dim"]], k["event_shape"][k["space_dim"]:]
        changed = old != k
    return k


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp

    import bijx
    from bijx.utils import ShapeInfo

    BATCH = [(), (4,), (2, 5), (0,), (1, 1)]

    def full(ev, s):
        return dict(event_shape=ev, space_shape=ev[:s], channel_shape=ev[s:], event_dim=len(ev), space_dim=s, channel_dim=len(ev) - s)

    if family == "describe":
        ev = tuple(case["event"])
        for s in range(len(ev) + 1):
            truth = full(ev, s)
            byclos = {}
            for r in range(1, 7):
                for sub in itertools.combinations(FIELDS, r):
                    known = {f: truth[f] for f in sub}
                    want = closure(known)
                    info = ShapeInfo(**{f: list(v) if isinstance(v, tuple) and r % 2 else v for f, v in known.items()})
                    for f in FIELDS:
                        rec.expect(getattr(info, f) == want.get(f), "derived:" + f, known=known, got=getattr(info, f), want=want.get(f))
                    rec.step()
                    rec.state(ev, s, sub)
                    ck = tuple(sorted(want.items(), key=str))
                    byclos.setdefault(ck, []).append(info)
                    # tree round trip: no leaves, same description
                    leaves, td = jax.tree.flatten(info)
                    rec.expect(leaves == [] and jax.tree.unflatten(td, leaves) == info, "tree-round-trip", known=known)
                    if want.get("event_dim") is None:
                        try:
                            info.process_event((2, 3))
                            rec.expect(False, "unknown-event-accepted", known=known)
                        except RuntimeError:
                            rec.expect(True, "unknown-event")
                        continue
                    for b in BATCH:
                        bs, full_info = info.process_event(b + ev)
                        rec.expect(tuple(bs) == b, "batch", known=known, b=b, got=bs)
                        w2 = closure({**known, "event_shape": ev})
                        for f in FIELDS:
                            if len(ev) == 0 and f not in ("event_shape", "event_dim") and w2.get(f) is None:
                                continue  # a scalar event has only one possible split
                            rec.expect(getattr(full_info, f) == w2.get(f), "processed:" + f, known=known, b=b, got=getattr(full_info, f), want=w2.get(f))
                        rec.step()
                    if "event_shape" in want:
                        for i in range(len(ev)):
                            bad = ev[:i] + (ev[i] + 1,) + ev[i + 1:]
                            try:
                                info.process_event((4,) + bad)
                                rec.expect(False, "contradiction-accepted", known=known, shape=bad)
                            except AssertionError:
                                rec.expect(True, "contradiction")
            infos = list(byclos.items())
            for i, (ca, la) in enumerate(infos):
                for a in la:
                    rec.expect(a == la[0] and hash(a) == hash(la[0]) and not (a != la[0]), "equal-descriptions", closure=ca)
                for cb, lb in infos[:i]:
                    rec.expect(la[0] != lb[0] and not (la[0] == lb[0]), "different-descriptions", a=ca, b=cb)
            # arrays of distinct labels
            info = ShapeInfo(event_shape=ev, space_dim=s)
            nd = len(ev)
            rec.expect(info.event_size == int(np.prod(ev)) and info.space_size == int(np.prod(ev[:s])) and info.channel_size == int(np.prod(ev[s:])), "sizes", ev=ev, s=s)
            for b in BATCH:
                x = np.arange(int(np.prod(b + ev)), dtype=float).reshape(b + ev)
                ax = [tuple(a % x.ndim for a in t) for t in (info.event_axes, info.space_axes, info.channel_axes)]
                k = len(b)
                rec.expect(ax == [tuple(range(k, k + nd)), tuple(range(k, k + s)), tuple(range(k + s, k + nd))], "axes", ev=ev, s=s, b=b, got=ax)
                fl, bs, inf = info.process_and_flatten(jnp.asarray(x))
                rec.close(fl, x.reshape(b + (int(np.prod(ev)),)), "flatten", ev=ev, b=b)
                rec.expect(tuple(bs) == b and inf.event_shape == ev, "flatten:info")
                can, bs, inf = info.process_and_canonicalize(jnp.asarray(x))
                rec.close(can, x.reshape((int(np.prod(b)),) + ev[:s] + (int(np.prod(ev[s:])),)), "canonical", ev=ev, s=s, b=b)
                rec.close(np.asarray(can).reshape(tuple(bs) + inf.event_shape), x, "restore", ev=ev, b=b)
                rec.step(2)
                rec.trace()
            rec.outcome(ev, s)

    elif family == "pairs":
        infos = []
        for r in range(case["rank"] + 1):
            for ev in itertools.product((1, 2, 3), repeat=r):
                for s in range(r + 1):
                    infos.append((ev, s, ShapeInfo(event_shape=ev, space_dim=s)))
                infos.append((ev, None, ShapeInfo(event_shape=ev)))
        for a in infos:
            for b in infos:
                same = a[:2] == b[:2]
                rec.expect((a[2] == b[2]) == same and (not same or hash(a[2]) == hash(b[2])), "pairwise-equality", a=a[:2], b=b[:2])
                rec.step()
            rec.expect(not (a[2] == a[0]) and a[2] != 3 and a[2] is not None, "foreign-equality")
        d = {i[2]: i[:2] for i in infos}
        rec.expect(len(d) == len(infos), "dictionary-keys")
        # usable as a static argument of a compiled function
        f = jax.jit(lambda x, info: x.sum(info.event_axes), static_argnums=1)
        for ev, s, info in infos:
            if s is not None:
                rec.close(f(jnp.ones((2,) + ev), info), np.full(2, float(np.prod(ev))), "static-argument")
                g = jax.jit(lambda p: (p[0] + 1, p[1]))
                rec.expect(g((1.0, info))[1] == info, "through-compilation")
            rec.state(ev, s)
        rec.trace(len(infos))

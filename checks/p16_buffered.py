"""P16: buffered sampling hands out every buffered sample exactly once."""
import itertools

import numpy as np

PROPERTY = "P16"
RULE = (
    "Explicit-state search: an environment distribution that labels every sample it ever produces is buffered; from the freshly "
    "built sampler every sequence of requests {single, single with key, single with argument, batch of 1/2/buffer size, density} "
    "up to the depth bound is explored (states = complete concrete sampler state, deduplicated; transitions executed by the real "
    "code, compiled and eager) for every buffer size 1..4(6) and sample structure; oracle: set-valued model (labels of the "
    "current block still to be handed out).  Real distributions: one complete refill cycle plus one, all interleavings of "
    "single/batch/explicit requests up to depth 5 against the unbuffered distribution's stream."
)
ASSUMPTIONS = ["the order in which a filled buffer is handed out is not part of the claim"]

OPS = ("single", "single-key", "single-arg", "batch1", "batch2", "batchN", "density")


def cases(tier):
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for struct in ("array", "tree"):
            yield "bfs", dict(n=n, struct=struct, depth=(2 * n + 3) if tier == "quick" else 3 * n + 4)
        yield "scan", dict(n=n)
        yield "nokey", dict(n=n)
    for n in (1, 2, 3):
        for mode in ("eager", "jit") if n < 3 else ("jit",):
            yield "histories", dict(n=n, mode=mode, depth=(3 if mode == "eager" else 5) + (tier != "quick"))
    for k in ("normal", "transformed", "mixture"):
        for n in (1, 2, 3, 8, 33):
            yield "real", dict(kind=k, n=n)


def weight(f, c):
    return {"histories": 5, "bfs": c.get("n", 1)}.get(f, 1)


def run_case(family, case, rec):
    import jax
    import jax.numpy as jnp
    from flax import nnx

    import bijx

    class Labelled(bijx.Distribution):
        """every sample ever produced carries a fresh label, the requesting key and the passed argument"""

        def __init__(self, tree):
            super().__init__(nnx.Rngs(3))
            self.count = nnx.Variable(jnp.array(0))
            self.tree = tree

        def get_batch_shape(self, x):
            return (x["label"] if self.tree else x).shape[: None if self.tree else -1]

        def log_density(self, x, arg=0.0, **kw):
            lab = x["label"] if self.tree else x[..., 0]
            return -0.5 * lab - 1000.0 * arg

        def sample(self, batch_shape=(), rng=None, arg=0.0, **kw):
            used = -1.0 if rng is None else jax.random.key_data(rng).astype(float)[-1]
            k = self._get_rng(rng)
            m = int(np.prod(batch_shape)) if batch_shape else 1
            lab = (self.count[...] + jnp.arange(m, dtype=float)).reshape(batch_shape)
            self.count.set_value(self.count[...] + m)
            if self.tree:
                x = {"label": lab, "v": (jnp.stack([lab, lab + 0.5], -1), jnp.full(batch_shape, arg)), "key": jnp.full(batch_shape, used)}
            else:
                x = jnp.stack([lab, jnp.full(batch_shape, used), jnp.full(batch_shape, arg)], -1)
            return x, self.log_density(x, arg=arg)

    def unpack(x):
        if isinstance(x, dict):
            ok = np.array_equal(np.asarray(x["v"][0]), np.stack([x["label"], np.asarray(x["label"]) + 0.5], -1))
            return np.asarray(x["label"]), np.asarray(x["key"]), np.asarray(x["v"][1]), ok
        x = np.asarray(x)
        return x[..., 0], x[..., 1], x[..., 2], True

    def apply(s, op, n):
        k = jax.random.key(77)
        if op == "single":
            return s.sample()
        if op == "single-key":
            return s.sample((), rng=k)
        if op == "single-arg":
            return s.sample((), arg=2.0)
        if op.startswith("batch"):
            m = {"1": 1, "2": 2, "N": n}[op[5:]]
            return s.sample((m,) if op != "batch2" else (2, 1), rng=None)
        x = jnp.asarray([[3.0, 0, 0], [4.0, 0, 0]]) if not s.dist.tree else {"label": jnp.asarray([3.0, 4.0])}
        return s.log_density(x, arg=1.0)

    def fresh_model(n):
        # (labels of the current block not yet handed out, block seen so far, all labels handed out by singles and batches)
        return dict(left=None, block=(), seen=frozenset(), meta=None)

    def check(model, op, out, n, hist):
        """advance the model; returns the new model state"""
        if op == "density":
            rec.close(out, [-1001.5, -1002.0], "density", h=hist)
            return model
        x, l = out
        lab, key_, arg, ok = unpack(x)
        rec.expect(ok, "torn-sample", h=hist, x=x)
        rec.close(l, -0.5 * lab - 1000.0 * arg, "density-of-other-sample", h=hist, x=x)
        flat = [float(v) for v in np.asarray(lab).reshape(-1)]
        rec.expect(not (set(flat) & model["seen"]) and len(set(flat)) == len(flat), "handed-out-twice", h=hist, got=flat)
        m = dict(model)
        if op.startswith("batch"):
            want = {"1": (1,), "2": (2, 1), "N": (n,)}[op[5:]]
            rec.expect(np.shape(lab) == want and np.shape(l) == want, "batch-shape", h=hist, got=np.shape(lab))
            rec.expect(np.all(key_ == -1) and np.all(arg == 0), "batch-arguments", h=hist)
        else:
            rec.expect(np.shape(lab) == () and np.shape(l) == (), "single-shape", h=hist, got=np.shape(lab))
            block = m["block"] + (flat[0],)
            cur = (float(key_), float(arg))
            if len(block) == 1:  # first of a new block: filled by this request
                want = (float(jax.random.key_data(jax.random.key(77)).astype(float)[-1]) if op == "single-key" else -1.0,
                        2.0 if op == "single-arg" else 0.0)
                rec.expect(cur == want, "refill-arguments", h=hist, got=cur, want=want)
                m["meta"] = cur
            else:
                rec.expect(cur == m["meta"], "mixed-blocks", h=hist, got=cur, want=m["meta"])
            rec.expect(max(block) - min(block) < n, "outside-block", h=hist, block=block)
            if len(block) == n:
                rec.expect(sorted(block) == [min(block) + i for i in range(n)], "block-incomplete", h=hist, block=block)
                block, m["meta"] = (), None
            m["block"] = block
        m["seen"] = m["seen"] | set(flat)
        return m

    def concrete(state):
        return tuple(np.asarray(jax.random.key_data(v) if jnp.issubdtype(v.dtype, jax.dtypes.prng_key) else v).tobytes()
                     for v in jax.tree.leaves(state))

    if family in ("bfs", "histories"):
        n = case["n"]
        struct = case.get("struct", "array")
        s0 = bijx.BufferedSampler(Labelled(struct == "tree"), buffer_size=n)
        gd, st0 = nnx.split(s0)

        def step_fn(op):
            def f(st):
                s = nnx.merge(gd, st)
                out = apply(s, op, n)
                return out, nnx.split(s)[1]

            return jax.jit(f)

        fns = {op: step_fn(op) for op in OPS}
        if family == "bfs":
            frontier = [(st0, fresh_model(n), ())]
            visited = {}
            depth = 0
            while frontier and depth < case["depth"]:
                nxt = []
                for st, model, hist in frontier:
                    for op in OPS:
                        out, st2 = fns[op](st)
                        m2 = check(model, op, out, n, hist + (op,))
                        rec.step()
                        # deduplicated on the complete concrete state of the sampler (all buffers, indices, counters, streams)
                        low = min(m2["block"]) if m2["block"] else 0
                        k = (concrete(st2), tuple(b - low for b in m2["block"]), m2["meta"])
                        if k in visited:
                            continue
                        visited[k] = hist + (op,)
                        nxt.append((st2, m2, hist + (op,)))
                        rec.state(n, struct, k)
                # next level: one representative per (labels of the block handed out so far, relative; how it was filled; last operation)
                rep = {}
                for st, m, h in nxt:
                    low = min(m["block"]) if m["block"] else 0
                    rep.setdefault((tuple(b - low for b in m["block"]), m["meta"], h[-1]), (st, m, h))
                frontier = list(rep.values())
                rec.trace(len(nxt))
                depth += 1
            rec.outcome(n, struct, len(visited))
        else:
            for h in itertools.product(("single", "single-key", "batch2", "density"), repeat=case["depth"]):
                st, model = st0, fresh_model(n)
                if case["mode"] == "eager":  # the object itself, mutated in place
                    live = bijx.BufferedSampler(Labelled(False), buffer_size=n)
                    do = lambda op, st: (apply(live, op, n), st)
                else:
                    do = lambda op, st: fns[op](st)
                for i, op in enumerate(h):
                    out, st = do(op, st)
                    model = check(model, op, out, n, h[: i + 1])
                    rec.step()
                    rec.state(n, case["mode"], h[: i + 1])
                # drain: whatever happened before, the rest of the block is still there
                for i in range(n + 1):
                    out, st = do("single", st)
                    model = check(model, "single", out, n, h + ("drain", i))
                    rec.step()
                rec.trace()

    elif family == "scan":
        n = case["n"]
        s = bijx.BufferedSampler(Labelled(False), buffer_size=n)
        L = 3 * n + 1

        @nnx.scan(in_axes=(nnx.Carry, 0), out_axes=(nnx.Carry, 0))
        def loop(s, i):
            return s, s.sample()

        s, (x, l) = loop(s, jnp.arange(L))
        lab = np.asarray(x)[:, 0]
        rec.expect(sorted(lab) == list(range(L)) if n == 1 else len(set(lab)) == L, "scan:repeated", got=lab)
        for i in range(0, L - n + 1, n):
            rec.expect(sorted(lab[i : i + n]) == list(range(i, i + n)), "scan:block", got=lab)
        rec.close(l, -0.5 * lab, "scan:density")
        # direct eager use, mutated in place
        s = bijx.BufferedSampler(Labelled(True), buffer_size=n)
        seen = [float(s.sample()[0]["label"]) for _ in range(2 * n)]
        rec.expect(sorted(seen[:n]) == list(range(n)) and sorted(seen[n:]) == list(range(n, 2 * n)), "inplace:blocks", got=seen)
        rec.step(L + 2 * n)
        rec.trace(2)
        rec.state("scan", n)
        rec.outcome(tuple(lab), tuple(seen))

    elif family == "nokey":
        n = case["n"]
        s = bijx.BufferedSampler(bijx.IndependentNormal((2,), rngs=nnx.Rngs(0)), buffer_size=n)
        a = [np.asarray(s.sample((), rng=jax.random.key(4))[0]) for _ in range(n)]
        ref = np.asarray(s.dist.sample((n,), rng=jax.random.key(4))[0])
        rec.expect(sorted(map(tuple, a)) == sorted(map(tuple, ref)), "explicit-key-refill", got=a, want=ref)
        b = np.asarray(s.sample()[0])
        rec.expect(not any(np.allclose(b, v) for v in a), "refill-differs")
        # no internal random source at all: explicit keys suffice, their absence is an error
        s = bijx.BufferedSampler(bijx.IndependentNormal((2,)), buffer_size=n)
        for r in range(2):
            a = [np.asarray(s.sample((), rng=jax.random.key(4 + r))[0]) for _ in range(n)]
            ref = np.asarray(s.dist.sample((n,), rng=jax.random.key(4 + r))[0])
            rec.expect(sorted(map(tuple, a)) == sorted(map(tuple, ref)), "explicit-key-only", got=a, want=ref)
        try:
            s.sample((2,))
            rec.expect(False, "missing-key-accepted")
        except ValueError:
            rec.expect(True, "missing-key")
        rec.step(3 * n + 1)
        rec.trace()
        rec.state("nokey", n)

    elif family == "real":
        n = case["n"]

        def mk():
            r = nnx.Rngs(8)
            if case["kind"] == "normal":
                return bijx.IndependentNormal((2,), rngs=r)
            if case["kind"] == "transformed":
                return bijx.Transformed(bijx.IndependentNormal((2, 1), rngs=r), bijx.Sinh())
            return bijx.GaussianMixture((2, 2), (2, 2), (2,), rngs=r)

        ref = mk()
        blocks = []
        for _ in range(3):
            blocks.append(ref.sample((n,)))
        s = bijx.BufferedSampler(mk(), buffer_size=n)
        jit = nnx.jit(lambda s: s.sample())
        for b in range(3):
            got = [jit(s) for _ in range(n)]
            want = [(np.asarray(blocks[b][0][i]).tobytes(), float(blocks[b][1][i])) for i in range(n)]
            gx = sorted(np.round(np.asarray(x), 9).tobytes() for x, _ in got)
            wx = sorted(np.round(np.asarray(blocks[b][0][i]), 9).tobytes() for i in range(n))
            rec.expect(gx == wx, "real:block", b=b, got=got, want=want)
            for x, l in got:
                rec.close(l, s.log_density(x), "real:density", rtol=1e-8, atol=1e-8)
                rec.step()
            rec.state(case["kind"], n, b)
        y, l = s.sample((3,))
        rec.expect(y.shape[0] == 3 and l.shape == (3,), "real:batch")
        rec.expect(tuple(s.get_batch_shape(y)) == (3,), "real:batch-shape")
        rec.trace()

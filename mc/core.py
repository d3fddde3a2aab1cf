"""Bounded exhaustive exploration harness.

A check module (checks/pXX_*.py) defines

    PROPERTY = "PXX"
    RULE     = "...how the space is built..."
    def cases(tier):      -> iterable of (family, dict)   -- the *complete* bounded space
    def run_case(family, case, rec) -> None                -- drive the real code, compare

``rec`` (Recorder) collects
    rec.state(key)        a distinct abstract state that was reached (hashed, deduplicated)
    rec.step(n)           n transitions of the implementation that were executed and compared
    rec.trace()           one complete history/trace replayed against the implementation
    rec.expect(ok, label, **detail)

The runner enumerates *all* cases of the tier; nothing is sampled.  Cases are spread over
worker processes (own JAX runtime each, single-threaded); results do not depend on the order.
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from mc import batch

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


def _env():
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["XLA_FLAGS"] = (
        "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    )
    os.environ["SETUPTOOLS_SCM_PRETEND_VERSION"] = "1.0.0"
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"


def key_of(family, case):
    return family + "|" + json.dumps(case, sort_keys=True, default=str)


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


class Recorder:
    def __init__(self):
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.compared = 0
        self.failures = []
        self.outcomes = set()

    def state(self, *key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.steps += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def outcome(self, *key):
        self.outcomes.add(digest(key))

    def expect(self, ok, label, **detail):
        self.compared += 1
        if not bool(ok):
            self.failures.append(
                (label, {k: _short(v) for k, v in detail.items()})
            )
        return bool(ok)

    def close(self, got, want, label, rtol=1e-7, atol=1e-8, **detail):
        import numpy as np

        try:
            g = np.asarray(got)
            w = np.asarray(want)
        except Exception as e:  # not array like
            return self.expect(False, label, error=repr(e), **detail)
        self.compared += 1
        if g.shape != w.shape:
            self.failures.append(
                (label, {"shape_got": g.shape, "shape_want": w.shape,
                         **{k: _short(v) for k, v in detail.items()}})
            )
            return False
        ok = np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not ok:
            self.failures.append(
                (label, {"got": _short(g), "want": _short(w),
                         **{k: _short(v) for k, v in detail.items()}})
            )
        return ok


def _short(v):
    s = repr(v)
    return s if len(s) < 600 else s[:600] + "..."


def _worker_init():
    _env()
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    import warnings

    warnings.filterwarnings("ignore")
    import jax

    jax.config.update("jax_enable_x64", True)


def _run_one(mod, family, case):
    rec = Recorder()
    t0 = time.time()
    try:
        if family == "batch":
            batch.run(rec, **case)
        else:
            mod.run_case(family, case, rec)
    except Exception as e:
        rec.failures.append(
            ("exception:" + type(e).__name__,
             {"error": _short(e), "tb": traceback.format_exc()[-1800:]})
        )
    return dict(
        family=family, case=case, states=list(rec.states), steps=rec.steps,
        traces=rec.traces, compared=rec.compared, failures=rec.failures,
        outcomes=list(rec.outcomes), wall=time.time() - t0,
    )


def _worker(modname, inq, outq):
    _worker_init()
    try:
        mod = importlib.import_module(modname)
    except BaseException:
        outq.put(("fatal", traceback.format_exc()))
        return
    while True:
        job = inq.get()
        if job is None:
            break
        i, family, case = job
        outq.put(("start", os.getpid(), i))
        outq.put(("done", os.getpid(), i, _run_one(mod, family, case)))
    outq.put(("exit", os.getpid()))


def load_findings():
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as f:
        return json.load(f)["entries"]


def all_cases(mod, tier):
    yield from mod.cases(tier)
    yield from batch.cases(mod.PROPERTY, tier)


def match_finding(entries, prop, family, case, label):
    for k, e in enumerate(entries):
        if e.get("status") != "finding" or e.get("property") != prop:
            continue
        if e["family"] != family:
            continue
        if any(case.get(a) != b for a, b in e["case"].items()):
            continue
        if label not in e["labels"]:
            continue
        return k
    return None


def main(modname, argv=None):
    import argparse
    import multiprocessing as mp

    _env()
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 2))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--fail-fast", action="store_true",
                    help="development: stop at the first violation")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, ROOT)

    _worker_init()
    t0 = time.time()
    if a.replay:
        mod = importlib.import_module(modname)
        with open(a.replay) as f:
            r = json.load(f)
        out = _run_one(mod, r["family"], r["case"])
        print(json.dumps({k: out[k] for k in ("family", "case", "compared", "failures")},
                         indent=1, default=str))
        bad = bool(out["failures"])
        if bad:
            print(f"VIOLATION property={mod.PROPERTY} replay={a.replay}")
        return 1 if bad else 0

    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    todo = [(f, c) for f, c in all_cases(mod, tier) if not a.family or f.startswith(a.family)]
    seen = set()
    for f, c in todo:
        k = key_of(f, c)
        if k in seen:
            raise SystemExit(f"duplicate case {k}")
        seen.add(k)
    # expensive-first ordering is only a scheduling hint
    own = getattr(mod, "weight", lambda f, c: 1)
    weight = lambda f, c: 4 if f == "batch" else own(f, c)  # noqa: E731
    order = sorted(range(len(todo)), key=lambda i: (-weight(*todo[i]), i))

    ctx = mp.get_context("spawn")
    inq, outq = ctx.Queue(), ctx.Queue()
    nw = max(1, min(a.workers, len(todo)))
    for i in order:
        inq.put((i, todo[i][0], todo[i][1]))
    for _ in range(nw):
        inq.put(None)
    procs = [ctx.Process(target=_worker, args=(modname, inq, outq), daemon=True)
             for _ in range(nw)]
    for p in procs:
        p.start()
    entries = load_findings()
    results = {}
    running = {}
    live = {p.pid: p for p in procs}
    case_limit = float(getattr(mod, "CASE_LIMIT_S", 300.0))
    import queue as _q

    hung = []
    fatal = None
    while live and len(results) + len(hung) < len(todo):
        try:
            msg = outq.get(timeout=2.0)
        except _q.Empty:
            msg = None
        if msg is not None:
            if msg[0] == "fatal":
                fatal = msg[1]
                break
            if msg[0] == "start":
                running[msg[1]] = (msg[2], time.time())
            elif msg[0] == "done":
                results[msg[2]] = msg[3]
                running.pop(msg[1], None)
                if a.fail_fast and any(
                    match_finding(entries, prop, msg[3]["family"], msg[3]["case"], lab) is None
                    for lab, _ in msg[3]["failures"]
                ):
                    break
                if a.v and msg[3]["wall"] > 5:
                    print(f"  slow {msg[3]['wall']:.1f}s {key_of(msg[3]['family'], msg[3]['case'])[:160]}")
            elif msg[0] == "exit":
                live.pop(msg[1], None)
            continue
        now = time.time()
        for pid, (i, ts) in list(running.items()):
            p = live.get(pid)
            dead = p is not None and not p.is_alive()
            if dead or now - ts > case_limit:
                why = "worker-died" if dead else "no-answer-within-limit"
                hung.append((i, why))
                running.pop(pid, None)
                if p is not None:
                    p.kill()
                    live.pop(pid, None)
        for pid, p in list(live.items()):
            if not p.is_alive() and pid not in running:
                live.pop(pid, None)
    for p in procs:
        if p.is_alive():
            p.terminate()
    if fatal:
        print(fatal)
        print(f"ERROR: check {prop} could not start")
        return 2

    hit = {}
    viol = []
    for i, why in hung:
        f, c = todo[i]
        viol.append((f, c, why, {}))
    missing = [i for i in range(len(todo)) if i not in results and i not in {h[0] for h in hung}]
    states, outcomes = set(), set()
    steps = traces = compared = 0
    perfam = {}
    for i in sorted(results):
        r = results[i]
        states.update(r["states"])
        outcomes.update(r["outcomes"])
        steps += r["steps"]
        traces += r["traces"]
        compared += r["compared"]
        perfam.setdefault(r["family"], [0, 0.0])
        perfam[r["family"]][0] += 1
        perfam[r["family"]][1] += r["wall"]
        for label, detail in r["failures"]:
            k = match_finding(entries, prop, r["family"], r["case"], label)
            if k is None:
                viol.append((r["family"], r["case"], label, detail))
            else:
                hit.setdefault(k, 0)
                hit[k] += 1
    for k, e in enumerate(entries):
        if e.get("status") == "finding" and e.get("property") == prop:
            n = hit.get(k, 0)
            print(f"KNOWN-FINDING: property={prop} {e['what']} "
                  f"[{n} listed observation(s) reproduced in this run]")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    shown = 0
    rc = 0
    if viol:
        rc = 1
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for f, c, label, detail in viol:
            k = key_of(f, c)
            if k in done:
                continue
            done.add(k)
            if shown >= 6:
                break
            shown += 1
            path = os.path.join(rdir, f"{prop}-{digest(k)}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=prop, module=modname, family=f, case=c,
                               label=label, detail=detail,
                               how=f"python -m mc.run {prop} --replay <this file>"),
                          fh, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   family={f} label={label} case={json.dumps(c, default=str)[:300]}")
            print("   " + json.dumps(detail, default=str)[:500])
        print(f"{len(viol)} violated expectations in {len(done)} shown cases")
    wall = time.time() - t0
    sample_ids = sorted(results)[:: max(1, len(results) // 6)][:6] if results else []
    level = getattr(mod, "LEVEL", "model_checking")
    ev = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            states=len(states), transitions=steps,
            traces_validated_against_impl=traces,
            comparisons=compared, distinct_observed_outcomes=len(outcomes),
            cases=len(results), families={f: n for f, (n, _) in perfam.items()},
            rule=mod.RULE + batch.rule(prop),
            samples=[dict(family=results[i]["family"], case=results[i]["case"],
                          comparisons=results[i]["compared"]) for i in sample_ids],
            exhaustive=not missing and not hung,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=len(viol),
    )
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{prop} {tier}: cases={len(results)}/{len(todo)} states={len(states)} "
          f"transitions={steps} traces={traces} comparisons={compared} "
          f"outcomes={len(outcomes)} wall={wall:.1f}s rc={rc}")
    if a.v:
        for f, (n, w) in sorted(perfam.items()):
            print(f"   {f}: {n} cases {w:.1f}s cpu")
    if rc == 0 and missing:
        print(f"ERROR: {len(missing)} cases were not executed")
        return 3
    return rc

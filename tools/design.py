"""Regenerates sections 3 and 4 of DESIGN.md (between markers) from the checks and the findings file."""
import ast
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import batch  # noqa: E402
WHY = {
 "P01": ("closed forms in numpy/scipy", "broadcast parameter shapes, scalar events, negative scales, keyword parameters: none is in the tests"),
 "P02": ("numpy interpreter of the term", "laws over all nestings; the tests nest at most two members and never pass keywords through every combinator"),
 "P03": ("C-order relabelling of distinct labels, exact", "a wrong axis shows only for batch rank 0 or 2, scalar events or size-one axes"),
 "P04": ("independent spline with bisection inverse", "knots, boundaries and degenerate bins are measure-zero for random points"),
 "P05": ("numpy boolean indexing, exact", "irregular, empty and full masks; every batch x channel shape"),
 "P06": ("numpy evaluation of the triangular map + full Jacobian", "index bookkeeping depends on mask, template structure and batch rank jointly"),
 "P07": ("numpy closed form + full Jacobian", "the volume factor depends on dimension, scale and the limit at the centre"),
 "P08": ("scipy DOP853 at 1e-12 with exact divergence; exact stepper for step counts", "windows with offset/sign, overrides in both directions, adjacent windows"),
 "P09": ("independent step-by-step RK4 and finite differences of the exact solution", "truncated last step, all state/argument structures, adjoint gradients"),
 "P10": ("independent scipy.expm stepper; back-propagation through it", "every group x scheme x projection switch; validity of all small tables"),
 "P11": ("numpy FFT, rank/inverse of the complete transformation matrix", "conjugate bookkeeping depends on every axis parity; tests use even squares"),
 "P12": ("dense linear algebra: matrix, covariance, determinant", "counting of self-conjugate modes by parity and dimension, channels, trainable mass"),
 "P13": ("closed forms, quadrature, enumerated noise basis, two-state stream model", "samples as a *function of the noise* decides the law; negative diagonals; histories"),
 "P14": ("explicit weighted sum, key block", "dominated weights, stacked flows, single component, containers"),
 "P15": ("numpy composition + quadrature", "all words x all bracketings x keywords"),
 "P16": ("explicit-state search with set-valued buffer model", "repetition or loss shows only over a whole refill cycle and for mixed histories"),
 "P17": ("exact transition kernel, detailed balance for every table", "detailed balance is a statement about every pair of states incl. -inf weights"),
 "P18": ("monotone knowledge-closure model", "all partial specifications; every contradicting shape"),
 "P19": ("geometric model: site map + signed direction map", "whole hypercubic group on every small lattice, non-abelian links"),
 "P20": ("explicit loops over sites and displacements", "one- and two-site fields determine every quadratic form completely"),
 "P21": ("8th-order central differences along one-parameter subgroups", "all argument positions, auxiliary outputs, sides, batch shapes"),
 "P22": ("group axioms; class-function moment table over a key block", "translation invariance cannot be seen on a handful of samples"),
 "P23": ("brute-force orbit closure; explicit periodic sums on a basis of inputs", "all shapes/symmetries incl. kernels larger than the lattice"),
 "P24": ("trace of the full Jacobian; finite differences", "kernel wrap-around, channels, couplings, dtypes"),
 "P25": ("closed formulas", "every size, end points, outside of the range"),
 "P26": ("unwrapped object, point by point", "batches, conditions, nested conversions, compiled use"),
 "P27": ("the unmodified module; reference parameter model", "all state-operation words, every single parameter entry by every route"),
 "P28": ("exact rational / extended arithmetic", "extreme and excluded weights, permutations, shifts"),
 "P29": ("explicit composition in numpy; complete set of drop patterns", "values, not shapes; every width/depth/kernel/lattice"),
 "P30": ("64-bit evaluation of the same object, error bounds from its derivatives", "conditioning and safety offsets in the default precision; every transform, spline, module kind and observable"),
 "P31": ("one-sided difference quotients with error estimate; slope against reported log density", "gradients at knots, ends, centres, branch points and saturation, where values alone show nothing"),
}
COST = json.load(open(os.path.join(ROOT, "tools", "cost.json")))


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def main():
    props = {json.loads(line)["id"]: json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))}
    s = ["## 3. Per property: what is enumerated, oracle, bounds, cost", ""]
    for p in sorted(glob.glob(os.path.join(ROOT, "checks", "p*.py"))):
        c = consts(p)
        i = c["PROPERTY"]
        q = props[i]
        s.append(f"### {i} {q['title']}")
        s.append("")
        s.append(f"*Code:* {', '.join(q['anchors']['files'])}.  *Check:* `checks/{os.path.basename(p)}`.")
        s.append("")
        s.append("*Explored:* " + " ".join((c["RULE"] + batch.rule(i)).split()))
        s.append("")
        s.append(f"*Oracle:* {WHY[i][0]}.  *Beyond the tests:* {WHY[i][1]}.")
        if c.get("ASSUMPTIONS"):
            s.append("")
            s.append("*Assumed:* " + "; ".join(c["ASSUMPTIONS"]) + ".")
        k = COST.get(i, {})
        if k:
            s.append("")
            s.append("*Cost (8 cores) and size:* " + "; ".join(
                f"{t}: {v['cases']} cases, {v['states']} states, {v['transitions']} transitions, {v['comparisons']} comparisons, {v['wall']:.0f} s"
                for t, v in k.items()) + ".")
        s.append("")
    e = json.load(open(os.path.join(ROOT, "known_findings.json")))["entries"]
    s += ["## 4. Genuine defects", "", "Repaired (one `fix:` commit each in /repo; the check passes on the repaired tree and reports the violation again if it returns):", ""]
    s += [f"* {x['property']} `{x['commit']}` {x['what']}" for x in e if x["status"] == "fixed"]
    s += ["", "Recorded, not repaired (printed as KNOWN-FINDING; the listed case + label only):", ""]
    s += [f"* {x['property']} family `{x['family']}` case `{json.dumps(x['case'])}` labels {x['labels']}: {x['what']}" for x in e if x["status"] == "finding"]
    s += [""]
    path = os.path.join(ROOT, "DESIGN.md")
    t = open(path).read()
    a, b = "<!-- generated: begin -->", "<!-- generated: end -->"
    head, rest = t.split(a)
    tail = rest.split(b)[1]
    open(path, "w").write(head + a + "\n" + "\n".join(s) + b + tail)


if __name__ == "__main__":
    main()

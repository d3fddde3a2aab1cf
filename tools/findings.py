"""Regenerates known_findings.json from the table below (run by hand; never by a check)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# (commit subject, property ids, what failed)
FIXED = [
    ("fix: AffineLinear log-Jacobian is NaN for negative scales", "P01", "AffineLinear with a negative slope: density was NaN"),
    ("fix: CondInverse.invert() was shadowed by the flag attribute", "P02", "CondInverse.invert() raised TypeError ('bool' object is not callable)"),
    ("fix: pass keyword arguments of scalar bijections on to log_jac", "P01", "scalar layer with a parameter passed as keyword: density used the default value while the image used the passed one"),
    ("fix: accept shared keyword arguments in shape, mask and ray bijections", "P03", "a chain containing a shape/mask/ray layer rejected keyword arguments meant for its other members"),
    ("fix: Reshape between scalar and size-one event shapes", "P03", "Reshape from/to the scalar event shape () raised or reshaped the batch axis"),
    ("fix: Partial cannot bind array-valued keyword arguments", "P02", "Partial(bijection, condition=array) raised at construction"),
    ("fix: MonotoneRQSpline ignored its minimum width, height and slope settings", "P04", "MonotoneRQSpline(min_bin_width=..) etc. had no effect on the knots"),
    ("fix: BinaryMask.merge cast the secondary part to the primary dtype", "P05", "BinaryMask.merge of int primary and float secondary truncated the secondary values"),
    ("fix: RayTransform failed for bijections with array-valued parameters", "P07", "RayTransform of a bijection with vector parameters raised a broadcasting error"),
    ("fix: ContFlowRK4 ignored the length of the integration window", "P08", "ContFlowRK4(t_start=0, t_end=0.5) integrated over unit time"),
    ("fix: reverse of continuous flows failed with start/end time overrides", "P08", "flow.reverse(x, ld, t_start=..) raised TypeError (duplicate keyword)"),
    ("fix: Crouch-Grossmann integration never applied the configured projections", "P10", "Unitary(project_step=True) / project_stage had no effect; algebra projection subtracted the trace from every entry"),
    ("fix: ShapeInfo could not be hashed or compared with other objects", "P18", "hash(ShapeInfo()) raised TypeError; comparison with a non-ShapeInfo raised AttributeError"),
    ("fix: SpectrumScaling changed the log density with the wrong sign", "P12", "SpectrumScaling(2.0).forward increased the log density instead of decreasing it"),
    ("fix: SpectrumScaling of fields with channels", "P12", "SpectrumScaling(channel_dim=1) failed to broadcast and counted one channel in the density"),
    ("fix: FreeTheoryScaling failed for variable mass or without precomputed spectrum", "P12", "FreeTheoryScaling(nnx.Param(..)) raised AttributeError"),
    ("fix: continuum Fourier momenta were not symmetric under reflection", "P11", "fft_momenta((4,4))[3,0] gave |k|=3*2pi/4 instead of 2pi/4, FreeTheoryScaling(finite_size=False) was not invertible"),
    ("fix: momentum magnitudes of FourierMeta were not symmetric under reflection", "P11", "FourierMeta.create((4,4)).ks_full[3,0] was 9 instead of 1"),
    ("fix: Fourier representations of fields with channels", "P11", "FourierData.from_real(x, (4,4), channel_dim=1) raised in every conversion"),
    ("fix: BufferedSampler skipped and repeated cached samples", "P16", "single draws of BufferedSampler(dist, n) skipped the first cached sample and returned the last one twice"),
    ("fix: BufferedSampler required internal rngs even when keys are passed", "P16", "BufferedSampler(IndependentNormal((2,)), 3) raised ValueError at construction"),
    ("fix: Transformed.log_density did not pass keyword arguments to the bijection", "P15", "Transformed(prior, conditional bijection).log_density(x, arg=..) evaluated the bijection with its default argument"),
    ("fix: accept shared keyword arguments in parametrized and mixture distributions", "P13", "DiagonalNormal/MultivariateNormal/MixtureStack .log_density(x, unrelated=..) raised TypeError"),
    ("fix: MultivariateNormal density disagreed with its samples for negative diagonals", "P13", "MultivariateNormal with a negative Cholesky diagonal entry: density was that of another covariance than the samples'"),
    ("fix: event shape of stacked DiagonalNormal distributions", "P14", "MixtureStack(DiagonalNormal(mean (k,d), ..)) raised an event shape assertion"),
    ("fix: GaussianMixture failed without given covariances", "P14", "GaussianMixture((k,d), None, ..) raised"),
    ("fix: ShapeInfo.process_and_flatten failed for empty batches", "P18", "process_and_flatten of an array with an empty batch axis raised ZeroDivisionError"),
    ("fix: scalar action densities used the backward instead of the forward neighbour", "P20", "kinetic_term(phi)[x] was (phi(x-mu)-phi(x))^2 instead of the documented (phi(x+mu)-phi(x))^2"),
    ("fix: correlation_length outside two dimensions", "P20", "correlation_length of a 3d correlator rolled the flattened marginal; of a 1d correlator raised"),
    ("fix: lie.grad with respect to arrays of group elements", "P21", "lie.grad(f)(u) for u of shape (L, n, n) raised or mixed matrix and batch axes"),
    ("fix: lie.grad failed with auxiliary outputs unless the value was requested", "P21", "lie.grad(f, has_aux=True) raised (tuple projected as a matrix)"),
    ("fix: HaarDistribution.sample required an explicit batch shape", "P22", "HaarDistribution.sample() raised TypeError, unusable in single-draw consumers"),
    ("fix: batch shapes of SU(N) eigenvalue densities and matrices", "P22", "compute_haar_density / construct_su_matrix_from_eigenvalues returned an extra axis for a single set of angles"),
    ("fix: resize_kernel_weights misplaced odd and halved even kernels", "P23", "resize_kernel_weights 3x3 -> 5x5 shifted the kernel; even -> odd lost the halves"),
    ("fix: resize_kernel_weights with padding modes other than constant", "P23", "resize_kernel_weights(mode='edge') raised TypeError"),
    ("fix: ResNet with dropout had no random source for its dropout layer", "P29", "ResNet(dropout=0.5)(x) raised (no rngs)"),
    ("fix: ConvVF divergence of fields with several channels", "P24", "ConvVF with two channels reported a wrong divergence"),
    ("fix: ConvVF without feature superposition", "P24", "ConvVF.build(features_reduced=None) raised"),
    ("fix: ConvVF divergence if the kernel wraps around the lattice", "P24", "ConvVF with a kernel wider than the lattice reported a wrong divergence"),
    ("fix: AutoJacVF for inputs that are not of default precision", "P24", "AutoJacVF of float32 fields in x64 mode raised"),
    ("fix: KernelFourier reported a wrong feature count for even sizes", "P25", "KernelFourier(4).feature_count disagreed with its output"),
    ("fix: PositionalEmbedding with a single frequency gave NaN", "P25", "PositionalEmbedding(2) divided by zero"),
    ("fix: PositionalEmbedding did not count the appended input as a feature", "P25", "PositionalEmbedding(append_input=True).feature_count was one too small"),
    ("fix: KernelGauss normalization failed far outside of the value range", "P25", "normalized KernelGauss returned NaN far outside of its range"),
    ("fix: FlowJAX adapters could not be compiled or split because of static leaves", "P26", "nnx.split / jit of from_flowjax modules raised"),
    ("fix: FlowJAX adapters shared variable state between calls and trace levels", "P26", "to_flowjax objects leaked tracers between calls"),
    ("fix: CubicRational structure could not be hashed", "P27", "nnx.split(CubicRational)[0] as static argument of jit raised (unhashable dataclass)"),
    ("fix: Reshape could not be copied and compared because of stored bound methods", "P27", "copy.deepcopy(Reshape(..)) recursed without end; equal Reshape layers had unequal structure"),
    ("fix: Fourier representations could not be converted if the metadata is traced", "P27", "ToFourierData / FourierData as argument of a compiled function raised NonConcreteBooleanIndexError"),
    ("fix: GeneralCouplingLayer with multiplicative masking and vector bijections masked the density wrongly", "P06", "GeneralCouplingLayer(split=False, bijection_event_rank=1) multiplied the per-vector density with the full mask: an error, or a silently wrong density and density shape when batch and event sizes happen to match"),
    ("fix: AutoVmapReconstructor could not pass on arguments without input rank", "P06", "from_params(.., autovmap=True).method(x, y, z) raised ValueError for a third argument (None as padded input rank)"),
    ("fix: ModuleReconstructor with constants could not be printed", "P06", "repr(ModuleReconstructor(module with non-parameter state)) raised ValueError"),
    ("fix: DiffraxConfig could not hold solver and controller states", "P09", "passing the solver state of an earlier solve to DiffraxConfig (optional_override / replace) raised ValueError"),
    ("fix: log-densities of Sigmoid and Tanh were infinite in the saturated range", "P01", "Sigmoid / Tanh reported an infinite log density for |x| beyond about 37 / 19 (single precision: 17 / 9), where inverse and image are still finite"),
    ("fix: ToFourierData without a target representation could not be inverted when unpacking", "P12", "ToFourierData(shape, unpack=True).reverse recursed without end (rep=None)"),
    ("fix: inverse of rational quadratic splines was inaccurate in single precision", "P30", "MonotoneRQSpline.reverse with narrow bins or small slopes: positions off by 0.4, log densities by 12 in single precision"),
    ("fix: effective_sample_size lost precision for large log weight offsets", "P28", "effective_sample_size of equal float32 log weights 1e6 was 0.93 or above 1"),
    ("fix: SinhConjugation is wrong for large or small scale parameters", "P01", "SinhConjugation with |mu|, |nu| or log|beta| of order ten: images off by more than one and log densities off by up to 10 near the switch at |x| = 15"),
    ("fix: solve_cubic overflows for large arguments in single precision", "P30", "CubicRational / CubicConjugation reverse returned NaN or inf for arguments from about 1e6 in single precision"),
    ("fix: BetaStretch overflows at the end points and for large parameters", "P01", "BetaStretch: NaN density at 0 and 1, and NaN images for a from about 30 in single precision"),
    ("fix: solve_cubic lost its root to rounding for large arguments", "P30", "CubicRational.reverse returned NaN (single precision, from about 1e4) or NaN gradients (double precision, from about 5e8)"),
    ("fix: derivative of rational quadratic splines at knots and end points", "P31", "gradient of MonotoneRQSpline was half the slope at knots and a quarter at 0 and 1 (ties in clip), contradicting the reported log density"),
    ("fix: derivative of radial layers at the center", "P31", "gradients of RadialLayer images and densities were NaN at the center"),
]

FINDINGS = []


def finding(prop, family, case, labels, what):
    FINDINGS.append(dict(status="finding", property=prop, family=family, case=case, labels=labels, what=what))


finding("P12", "volume", {}, ["volume:independent-components-unscaled"],
        "ToFourierData(rep=comp_real, unpack=True) reports an unchanged log density although the map onto independent real "
        "components has |det| = 2^(-number of conjugate pairs) (documented as volume preserving)")

for n in ("coupling", "coupling-mult"):
    finding("P27", "kind", {"name": n}, ["update:full-state"],
            f"nnx.update({n} layer, its own full state) raises ValueError because the mask keeps its arrays in tuples (immutable nodes); "
            "updates of the parameter state and split/merge work")
finding("P27", "kind", {"name": "diffrax"}, ["raises:D"],
        "copy.deepcopy(ContFlowDiffrax(..)) raises TypeError inside flax (third party solver configuration with empty nodes); nnx.clone and split/merge work")


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
    h = {}
    for line in log.splitlines():
        a, b = line.split(" ", 1)
        h[b] = a
    out = []
    for subj, prop, what in FIXED:
        c = h[subj]
        out.append(dict(status="fixed", property=prop, commit=c, what=what, line=f"fixed: property={prop} {c} {what}"))
    missing = [s for s in h if s.startswith("fix:") and s not in {f[0] for f in FIXED}]
    assert not missing, missing
    with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
        json.dump({"entries": out + FINDINGS}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

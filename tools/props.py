"""The property table (single source for properties.jsonl and MANIFEST.json; see tools/gen.py)."""
B = "src/bijx/bijections/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               hook_needed=None), _note=note))


prop("P01", "Elementwise transforms: image, inverse and log-density agree",
     "Every elementwise bijection maps each entry by its documented formula, its reverse undoes the forward map in value, and either direction "
     "changes the log density by exactly minus/plus the log absolute derivative summed over the event axes, one value per batch entry. "
     "This holds for every parameter value of either sign and every parameter shape that broadcasts to the event, for parameters supplied by keyword, "
     "and for all batch and event shapes including scalar ones.",
     ["inputs", "configurations"],
     "all parameter values, parameter shapes, batch shapes, event shapes, points of the domain and both directions",
     "The tests sample a few points at one shape per transform; the guarantee quantifies over broadcasting patterns, parameter signs and near-boundary points.",
     [B + "scalar.py", B + "base.py", "src/bijx/utils.py"],
     [("ScalarBijection", B + "scalar.py"), ("sum_log_jac", B + "scalar.py")], ["forward", "reverse", "log_jac"])
prop("P02", "Composition, inversion, freezing, partial application and stacking laws",
     "A composition of bijections behaves as the functional composition of its members in order (reversed for the inverse direction), its log density is the running sum of the members' changes, "
     "and inverting, freezing, binding keyword arguments or scanning a stack never changes the function computed beyond what its name says. Inverting twice is the identity, and keyword arguments reach every member.",
     ["programs", "inputs"],
     "all expressions of bounded depth over the combinators, with and without keyword arguments, in both directions",
     "Tests check single combinators on one or two members; the laws are about arbitrary nestings of all combinators.",
     [B + "base.py"], [("Chain/Inverse/CondInverse/Frozen/Partial/ScanChain", B + "base.py")], ["forward", "reverse", "invert"])
prop("P03", "Shape-changing layers only relabel axes and commute with batching",
     "Reshaping, squeezing, inserting axes and the other structural layers permute no entry, act on the event axes only for every batch shape, leave the log density unchanged, and are undone exactly by their reverse. "
     "Layers that only move or hide log-density bookkeeping change nothing else, and sequences of such layers compose to the single equivalent reshape.",
     ["inputs", "programs"], "all pairs of equal-size event shapes up to the bound, all batch shapes, all axes and words of layers",
     "Tests use one shape with batch axes of distinct size; mistakes appear only for scalar events, size-one axes or multi-axis batches.",
     [B + "meta.py"], [("Reshape/ExpandDims/SqueezeDims/MetaLayer", B + "meta.py")], ["forward", "reverse"])
prop("P04", "Rational-quadratic splines are monotone bijections with exact derivative",
     "For every parameter vector the spline is strictly increasing, interpolates its knots, maps its interval onto its interval, is continued linearly (or as documented) outside, is inverted exactly in the other direction, and reports its exact log derivative. "
     "Configured minimum widths, heights and slopes are respected by the resulting knots.",
     ["inputs", "configurations"], "all parameter vectors over an alphabet incl. extreme values, all knot/bin/boundary/outside positions, all minimum-size settings and bin counts",
     "Tests evaluate random parameters at random points, which almost never hit a knot, boundary or degenerate bin.",
     [B + "splines.py"], [("rational_quadratic_spline / MonotoneRQSpline", B + "splines.py")], ["forward", "reverse"])
prop("P05", "Masking splits and merges without loss for every mask",
     "Splitting an array by a boolean mask and merging the parts returns the original array exactly, for every mask, event shape, batch shape and trailing channel axes, and flipping a mask swaps the two parts. "
     "The selected entries appear in a fixed order that is the same for split and merge, and the other mask views (constructors, multiplicative application) agree with it.",
     ["configurations", "inputs"], "all boolean masks of bounded size, construction routes, batch shapes and flip words",
     "Tests use checkerboards; the guarantee is over all masks including empty, full and irregular ones.",
     [B + "coupling.py"], [("BinaryMask", B + "coupling.py")], ["split", "merge", "flip"])
prop("P06", "Coupling layers: triangular map, exact inverse and density",
     "A coupling layer leaves the passive entries untouched, transforms the active ones by the template with parameters computed from the passive entries only, is inverted exactly by its reverse, and reports the log determinant of its full Jacobian. "
     "This holds for every mask, template kind, parameter structure and batch shape; parameters handed over as one flat array are distributed to the template's fields without loss or reordering.",
     ["configurations", "inputs"], "all masks of bounded size x template kinds x conditioner output structures x batch shapes x directions",
     "Tests use one checkerboard and one template; index errors show for irregular masks, vector parameters and multi-axis batches.",
     [B + "coupling.py"], [("GeneralCouplingLayer / ModuleReconstructor", B + "coupling.py")], ["forward", "reverse", "from_params"])
prop("P07", "Radial layers: exact image, inverse and density in every dimension",
     "A radial layer moves points along rays from its centre by the scalar radius map (optionally with an anisotropic scale, optionally direction dependent), is inverted by its reverse, and its log-density change equals the log determinant of its full Jacobian. "
     "This includes every dimension from one up, points at or near the centre, any centre and scale, and batch shapes.",
     ["inputs", "configurations"], "all dimensions up to the bound x radius maps x scales x centres x points x batch shapes x directions",
     "Tests use d=2..3 away from the centre; the volume factor depends on dimension and on the scale.",
     [B + "radial.py"], [("RadialLayer / RadialConditional / RayTransform", B + "radial.py")], ["forward", "reverse"])
prop("P08", "Continuous flows integrate the configured window and its divergence",
     "A continuous flow maps a point to the solution of its vector field over the configured time window and subtracts the integrated divergence from the log density; the reverse undoes it, for windows of any length, offset and sign. "
     "Overriding start, end or step count at call time acts for that call only and in both directions alike, and flowing over adjacent windows in turn equals flowing over their union.",
     ["configurations", "inputs", "histories"], "all engines x windows x override subsets x directions x batch shapes",
     "Tests integrate over the unit window without overrides.",
     [B + "continuous.py", "src/bijx/solvers.py"], [("ContFlowDiffrax/ContFlowRK4/ContFlowCG", B + "continuous.py")], ["forward", "reverse"])
prop("P09", "Fixed-step solver steps and solver configuration are exact",
     "The fixed-step Runge-Kutta solver performs exactly the classical steps with a shortened last step that lands on the end time, for every state structure and argument structure, and its gradients with respect to initial state, times, arguments and captured arrays equal those of the true solution. "
     "Deriving a modified solver configuration changes exactly the requested fields, and the diffusion driver adds noise and drift exactly as its switches say.",
     ["inputs", "configurations"], "all windows x step sizes x state/argument structures; all subsets of overridden configuration fields",
     "Tests use a window divisible by the step and a single state array.",
     ["src/bijx/solvers.py"], [("odeint_rk4 adjoint", "src/bijx/solvers.py"), ("DiffraxConfig", "src/bijx/solvers.py")], ["odeint_rk4", "DiffraxConfig.with_"])
prop("P10", "Group integration follows its scheme and stays on the group",
     "Integration on matrix groups performs exactly the steps of its coefficient table, keeps every intermediate and final state on the group, converges with the scheme's order, and has gradients equal to those of the discrete computation. "
     "Only consistent explicit coefficient tables are accepted, and the configured projections are applied where configured and nowhere else.",
     ["inputs", "configurations"], "all schemes x groups x windows x projection switches; all small coefficient tables",
     "Tests integrate one group with one scheme; consistency of the table, order and projection switches are not covered.",
     ["src/bijx/cg.py", "src/bijx/lie.py"], [("crouch_grossmann / cg_stage", "src/bijx/cg.py")], ["crouch_grossmann", "Unitary", "Special"])
prop("P11", "Fourier representations of real fields are lossless and consistent",
     "Converting a real lattice field between its real-space, half-spectrum, independent-complex and independent-real representations in any order and back loses nothing, for every lattice shape, parity, channel count and batch shape, and agrees with the discrete Fourier transform. "
     "Any vector of independent components corresponds to exactly one field with the same number of degrees of freedom, and reported momenta and magnitudes belong to the components in order and are symmetric under reflection.",
     ["configurations", "inputs"], "all lattice shapes up to the bound x channels x representation pairs and triples",
     "Tests use a few even shapes without channels; conjugate bookkeeping depends on the parity of each axis.",
     ["src/bijx/fourier.py"], [("FourierMeta / FourierData", "src/bijx/fourier.py")], ["FourierData.to", "fft_momenta"])
prop("P12", "Spectral layers: linear map, covariance and determinant are right",
     "A spectral scaling layer is the linear map that multiplies every Fourier mode by its factor, its inverse divides, and its log-density change is the log determinant counted over all modes and channels. "
     "The free-theory layer turns white noise into a field whose covariance is the inverse of the lattice (or continuum) free-field operator for the given mass, including trainable mass and all normalisation options.",
     ["configurations", "inputs"], "all lattice shapes up to the bound x channels x spectra x masses x options",
     "Tests compare one even shape; conjugate-pair counting differs with parity and dimension.",
     [B + "fourier.py"], [("SpectrumScaling / FreeTheoryScaling / ToFourierData", B + "fourier.py")], ["forward", "reverse"])
prop("P13", "Base distributions: samples, densities and random streams agree",
     "Every base distribution returns samples of shape batch plus event together with their own log density, the density is normalised and equals its closed form for all admissible parameters (scale parameters of either sign), and samples follow that density. "
     "The same key gives the same sample, explicit keys never advance the internal stream, successive internal draws differ, and a missing random source is an error.",
     ["inputs", "configurations", "histories"], "all distribution kinds x dimensions x parameter alphabets x batch shapes; all request histories up to a depth",
     "Tests check a positive-diagonal case and shapes.",
     ["src/bijx/distributions.py"], [("ArrayDistribution and subclasses", "src/bijx/distributions.py")], ["sample", "log_density"])
prop("P14", "Mixtures: weighted density, weights and component choice",
     "A mixture's density is the weighted sum of its component densities with softmax-normalised weights, for any number of components, dimension, covariance structure and component kind; reported weights, means and covariances describe that density, and gradients reach the weights. "
     "Sampling picks components with those weights and draws from the chosen component, independently for every batch entry.",
     ["inputs", "configurations"], "component counts x dimensions x component kinds x weight vectors x batch shapes",
     "Tests check shapes and one density; dominated weights, stacked flows and construction defaults are not covered.",
     ["src/bijx/distributions.py"], [("MixtureStack / GaussianMixture", "src/bijx/distributions.py")], ["sample", "log_density", "weights"])
prop("P15", "Transformed distributions: density and samples of the pushforward",
     "A transformed distribution's samples are the forward image of the prior's samples for the same key, its density is the prior density at the reverse image corrected by the log determinant, and sample and density evaluation agree on every sample. "
     "This holds for nested transformations, all prior/bijection kinds, keyword arguments and batch shapes, and the density stays normalised.",
     ["programs", "inputs"], "priors x bijection words x keyword arguments x batch shapes",
     "Tests use one prior and one bijection without keyword arguments.",
     ["src/bijx/samplers.py", "src/bijx/distributions.py"], [("Transformed", "src/bijx/samplers.py")], ["sample", "log_density"])
prop("P16", "Buffered sampling hands out every buffered sample exactly once",
     "Drawing single samples from a buffered sampler returns, together with its own log density, each sample of a filled buffer exactly once before the buffer is refilled, for every buffer size and every interleaving with batch requests, density evaluations and explicit keys. "
     "Batch requests go to the underlying distribution and leave the buffered samples untouched.",
     ["histories", "configurations"], "all request histories up to a depth x buffer sizes, eager and compiled",
     "Tests draw a handful of samples and check shapes; repetition or loss shows only over a complete refill cycle and mixed histories.",
     ["src/bijx/samplers.py"], [("BufferedSampler", "src/bijx/samplers.py")], ["sample"], [("buffer/index", "cached samples and next position", "BufferedSampler")])
prop("P17", "Independence Metropolis keeps the target distribution invariant",
     "A step of the independence Metropolis chain replaces the state by the proposal with probability min(1, weight ratio) and otherwise keeps all of the old state; position and both stored log densities always describe the same configuration. "
     "Consequently the target distribution is invariant, and the reported information (acceptance, probability, proposal) describes the step taken.",
     ["histories", "inputs"], "all finite proposal/target tables of bounded size x all chain states x acceptance draws x histories",
     "Tests run a short chain and look at shapes; detailed balance is a statement about every pair of states.",
     ["src/bijx/mcmc.py"], [("imh step kernel", "src/bijx/mcmc.py")], ["init", "step"], [("IMHState", "position and two log densities", "src/bijx/mcmc.py")])
prop("P18", "Shape bookkeeping separates batch, event and channel axes correctly",
     "Given any consistent description of event and channel axes, the shape helper splits any array shape into batch, space and channel parts whose concatenation is the original, flattens and restores arrays exactly, and reports sizes and axes that index the right entries. "
     "Array shapes contradicting a known event shape are rejected, derived descriptions agree with direct construction, and equal descriptions compare and hash equal.",
     ["inputs", "configurations"], "all array shapes up to rank 5 x all event/channel descriptions x partial specifications",
     "Tests use one image-like shape.",
     ["src/bijx/utils.py"], [("ShapeInfo", "src/bijx/utils.py")], ["process_event", "process_and_flat"])
prop("P19", "Lattice gauge symmetries form the hypercubic group and preserve observables",
     "Rotations and reflections of the lattice act on link fields as the hypercubic symmetry group: they compose, invert and map closed loops to closed loops, and gauge transformations act locally and commute with them as documented. "
     "Plaquette and Wilson-type observables are unchanged by gauge transformations and symmetric under lattice symmetries, in every dimension and for every lattice shape.",
     ["inputs", "configurations"], "all group elements x dimensions x lattice shapes x loops over generic non-abelian links",
     "Tests check a few symmetries on one lattice.",
     ["src/bijx/lattice/gauge.py"], [("gauge symmetry action", "src/bijx/lattice/gauge.py")], ["apply_gauge_sym", "wilson_action"])
prop("P20", "Scalar-lattice observables equal their site-sum definitions",
     "Action densities, kinetic and potential terms, two-point functions (full and connected) and correlation lengths of scalar lattice fields equal their defining sums over sites, neighbours and displacements with periodic boundaries, for every lattice shape, dimension, coupling and batch. "
     "They are invariant under translations and lattice symmetries of the field.",
     ["inputs", "configurations"], "all lattice shapes up to the bound x couplings x fields spanning the field space",
     "Tests compare constant or random fields on a square lattice.",
     ["src/bijx/lattice/scalar.py", "src/bijx/lattice/general.py"], [("phi4 action / two_point", "src/bijx/lattice/scalar.py")], ["phi4_term", "two_point", "roll_lattice"])
prop("P21", "Lie derivatives, gradients and algebra helpers are exact",
     "Directional group derivatives, gradients, divergences and projections onto the algebra agree with differentiating along one-parameter subgroups, for every supported group, generator basis, batch shape and auxiliary output. "
     "Generators are a basis of the algebra, contraction and adjoint helpers agree with explicit sums.",
     ["inputs", "configurations"], "all groups x generators x points x functions of bounded degree",
     "Tests check SU(2)/SU(3) with a single function.",
     ["src/bijx/lie.py"], [("lie.grad / curve_grad / divergence", "src/bijx/lie.py")], ["grad", "value_grad_divergence"])
prop("P22", "Random group elements are group-valued and uniformly distributed",
     "Every sampled group element lies in the claimed group (unitary, unit determinant where special) for every batch shape and key, and samples are distributed with the uniform (Haar) measure so that left and right translations do not change expectations. "
     "Sampling is a function of the key with distinct independent entries per batch position, and the reported log density is that of the uniform measure.",
     ["inputs", "configurations"], "all groups x dimensions x batch shapes over a complete block of keys",
     "Tests check unitarity of a few samples.",
     ["src/bijx/lie.py", "src/bijx/distributions.py"], [("haar sampling", "src/bijx/lie.py")], ["haar samplers"])
prop("P23", "Symmetric convolutions: orbits, padding and equivariance",
     "A symmetry-constrained convolution kernel takes equal values exactly on the orbits of the lattice symmetry about its centre, and the resulting layer commutes with translations and the selected symmetries of the lattice. "
     "The full kernel is reproduced by its orbit values, and resizing kernels preserves the values at equal displacements.",
     ["configurations", "inputs"], "all kernel shapes up to the bound, dimensions, channel counts and symmetry choices",
     "Tests check one 3x3 kernel.",
     ["src/bijx/nn/conv.py"], [("orbit indices / ConvSym", "src/bijx/nn/conv.py")], ["ConvSym", "kernel_d4", "resize_kernel_weights"])
prop("P24", "Velocity fields report their exact divergence",
     "Every velocity field that returns a log-density rate returns exactly minus the divergence of the velocity it returns, for every lattice shape, batch shape, time and configuration, and conserves the lattice symmetries it advertises.",
     ["inputs", "configurations"], "all field kinds x shapes x feature/kernels configurations x times",
     "Tests check one lattice shape.",
     [B + "conv_cnf.py", B + "continuous.py", "src/bijx/nn/features.py"], [("ConvVF / AutoJacVF", B + "conv_cnf.py")], ["vector field call"])
prop("P25", "Embeddings and features have their documented values and sizes",
     "Time and feature embeddings return their advertised number of features for every admissible size, with the documented values, periodicity, endpoint and batch behaviour, and non-linear features report derivatives equal to the true derivatives.",
     ["configurations", "inputs"], "all embedding kinds x sizes x ranges x inputs incl. end points; batch shapes",
     "Tests check one size per embedding.",
     ["src/bijx/nn/embeddings.py", "src/bijx/nn/features.py"], [("Kernel* / PositionalEmbedding / features", "src/bijx/nn/embeddings.py")], ["__call__", "out_size"])
prop("P26", "The bridge to the external flow library preserves maps and densities",
     "Wrapping a bijection or distribution of either library for the other yields the same images, inverses, log determinants, samples and densities, in both directions, for batched input and conditional arguments, and converting there and back is the identity in behaviour.",
     ["programs", "inputs"], "all supported transforms x batch shapes x conditions x round trips",
     "Tests convert a couple of transforms with one batch axis.",
     ["src/bijx/flowjax.py"], [("to/from flowjax adapters", "src/bijx/flowjax.py")], ["from_flowjax", "to_flowjax"])
prop("P27", "Modules are transparent to splitting, compilation and state edits",
     "Splitting a module into structure and state and merging it back, compiling it, vectorising it or editing its parameters through the state gives the same results as using it directly. "
     "Freezing removes exactly the frozen parameters from training, parameter transformations are applied on every read, and shared parameters stay shared.",
     ["programs", "histories", "configurations"], "all module kinds x state operations up to a depth",
     "Tests split and merge single modules.",
     ["src/bijx/utils.py", B + "base.py", B + "scalar.py"], [("Frozen/FrozenFilter/TransformedParameter/Const", "src/bijx/utils.py")], ["nnx.split", "nnx.merge"])
prop("P28", "Sample-quality metrics equal their definitions",
     "Effective sample size, divergence estimates and moving averages equal their defining formulas, are invariant under reordering of samples and constant shifts of the unnormalised log density where the definition is, stay finite for extreme weights and stay in their range.",
     ["inputs"], "all log-weight vectors over an alphabet incl. extreme values x lengths x window sizes",
     "Tests check one equal-weight case.",
     ["src/bijx/utils.py"], [("effective_sample_size / reverse_dkl / moving_average", "src/bijx/utils.py")], ["metric functions"])
prop("P29", "Ready-made networks are the documented compositions",
     "The multi-layer perceptron, residual and convolutional networks equal the documented composition of their affine or convolution layers, activations and skip connections for every admissible width, depth, kernel size, lattice shape, padding and batch shape. "
     "Periodic networks commute with lattice translations; dropout only removes and rescales inputs of residual blocks in training mode, independently per coordinate and call, and is inactive in evaluation mode.",
     ["configurations", "inputs", "histories"], "all widths x depths x kernels x lattice shapes up to the bound; all drop patterns; all translations",
     "Tests check output shapes.",
     ["src/bijx/nn/nets.py"], [("ConvNet / ResNet / MLP", "src/bijx/nn/nets.py")], ["__call__"])
prop("P30", "Single precision agrees with double precision",
     "Used in JAX's default 32-bit mode, every transform, spline, distribution, network, flow, observable and group helper returns 32-bit results that agree with the 64-bit evaluation of the same object up to rounding amplified by the conditioning of the map itself, finite wherever the exact result is, eagerly and compiled; "
     "no result depends on constants, tolerances or safety offsets that are only negligible in double precision.",
     ["inputs", "configurations"], "all elementwise transforms x parameter alphabet x input grid x directions; spline parameter vectors up to two deviating entries and periodic words; every module kind; every observable",
     "Tests compare 32-bit round trips at moderate values with loose tolerances; cancellation, saturation and offsets show only at particular parameters.",
     [B + "scalar.py", B + "analytic.py", B + "splines.py", "src/bijx/lattice/scalar.py", "src/bijx/lie.py"], [("scalar bijections", B + "scalar.py"), ("rational_quadratic_spline", B + "splines.py")], ["forward", "reverse"])
prop("P31", "Derivatives used for training are finite and correct everywhere",
     "The automatic derivatives of images, inverses, log densities, samples, network outputs and observables, with respect to inputs and to every parameter, equal the derivatives of the functions computed. "
     "They are finite wherever the function is differentiable, and lie between the one-sided derivatives where only those exist. "
     "This includes knots and end points of splines, the centre of radial layers, zero and saturated arguments, and switches between branches of a formula.",
     ["inputs", "configurations"], "all transforms x parameter alphabet x grid and far points x directions x parameters; all knots, ends and interiors of spline words; all radial maps x dimensions x positions; every module kind and observable x special points x every parameter array",
     "Tests never differentiate at knots, boundaries, centres or branch points; a wrong or NaN gradient leaves all values unchanged.",
     [B + "scalar.py", B + "analytic.py", B + "splines.py", B + "radial.py", "src/bijx/distributions.py", "src/bijx/lattice/scalar.py"],
     [("scalar bijections", B + "scalar.py"), ("rational_quadratic_spline", B + "splines.py"), ("RadialLayer", B + "radial.py")], ["forward", "reverse", "log_density"])
NA = {}

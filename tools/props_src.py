"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props_src.py rewrites both."""
import json, os
P = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, observe, technique, state=(), note=""):
    P.append(dict(pid=pid, title=title, statement=" ".join(statement.split()), over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, state=list(state), note=note))


prop("C01", "Solving the inverse problem conserves the mass of every contour event",
     """Inverting a probability measure on a discretized output space gives every input sample a nonnegative probability such that
     each output event's probability is spread over exactly the input samples whose outputs fall in that event, in proportion to
     their cell volumes, while an event reached by no sample (or only by samples of zero volume) contributes nothing.
     The result does not depend on the order of the samples, and repeating the calculation with the same data reproduces it.""",
     ["inputs", "histories"],
     "all sample counts and dimensions, output partitions (Voronoi, rectangle, regular), output measures with and without zero-probability cells, volumes equal or arbitrary, sample orders, and earlier calculations on the same discretization",
     "The tests solve a few fixed linear problems with uniform output measures and mostly check that probabilities sum to one; a wrong split inside an event, or a wrong event, keeps that sum.",
     ["bet/calculateP/calculateP.py", "bet/sample.py"],
     [["prob", "bet/calculateP/calculateP.py"], ["set_io_ptr", "bet/sample.py"]],
     ["probabilities of the input set after calculateP.prob"],
     "Hypothesis generation against an independent brute-force reference of the contour-event split")

prop("C02", "Emulated solutions use the measure of the nearest output cell",
     """Solving with emulated samples gives each emulated sample the probability of the output event that its nearest model sample maps
     to, divided equally among all emulated samples falling in that event; events hit by no emulated sample contribute nothing.
     Solving for sample cells whose volumes are estimated from emulated samples, or by Monte Carlo, is the same as first
     estimating the volumes and then inverting.""",
     ["inputs", "histories"],
     "all model sample sets, emulated sets, output partitions and measures; before or after other calculations on the same discretization",
     "Tests check only the total mass on a few fixed data files.",
     ["bet/calculateP/calculateP.py", "bet/sample.py"],
     [["prob_on_emulated_samples", "bet/calculateP/calculateP.py"], ["set_emulated_ii_ptr", "bet/sample.py"]],
     ["probabilities of the emulated input set and of the input set"],
     "Hypothesis generation against a brute-force nearest-neighbour reference")

prop("C03", "Transferring probability between sample sets conserves mass",
     """Transferring a probability measure from one sample set to another moves the whole mass of every old sample to the new cell
     it falls in (the one whose sample is nearest to it, or the rectangle containing it). With a set of emulated points the mass of every old cell is instead split equally over the points
     falling in it and collected by the new cells holding those points, renormalized to total one if some old cell of positive mass has no points.
     Transferring from a discretization uses the measure of its emulated input set if it has one and that of its input set otherwise.
     Mass is never created, negative or moved elsewhere, and a set transferred onto itself is unchanged.""",
     ["inputs"],
     "all pairs of sample sets on a common domain, all measures, all emulation point sets",
     "Tests transfer between two fixed sets and compare with hand computed or loosely bounded numbers.",
     ["bet/calculateP/calculateP.py"],
     [["prob_from_sample_set, prob_from_sample_set_with_emulated_volumes, prob_from_discretization_input", "bet/calculateP/calculateP.py"]],
     ["probabilities of the target set"],
     "Hypothesis generation against brute-force overlap counting")

prop("C04", "Voronoi queries return the nearest current sample",
     """A query of a Voronoi sample set returns, for every query point and every number of neighbours asked for, the nearest of the
     current sample values in the set's p-norm with the right distances, in order of distance. This holds after any sequence of
     replacing or appending values, normalizing the domain or its undoing, copying, clipping and communication between local and global arrays.""",
     ["inputs", "histories"],
     "all sets, p-norms from 1 to infinity, numbers of neighbours, query points inside and outside the domain, and all histories of updates interleaved with queries",
     "Tests query once on a fixed grid and never change the set between queries.",
     ["bet/sample.py"],
     [["query / set_kdtree / cached search tree", "bet/sample.py"]],
     ["distances and indices returned by query"],
     "stateful operation sequences against a brute-force distance model")

prop("C05", "Rectangle, ball and Cartesian cells own exactly the points they contain",
     """A set of axis-aligned rectangles, of balls, or of Cartesian grid cells assigns every query point to a cell that contains it and to
     the single outside cell otherwise, and a Cartesian grid of given edges has exactly the product cells of those edges.
     The cell volumes reported relative to the domain are the true ones, nonnegative, and together with the outside cell sum to one.""",
     ["inputs"],
     "all dimensions, families of disjoint rectangles or balls, grid edges, p-norms, query points inside, outside and on boundaries, numbers of neighbours asked for",
     "Tests use one or two fixed rectangles or balls in the unit square.",
     ["bet/sample.py"],
     [["rectangle_sample_set, ball_sample_set, cartesian_sample_set: setup, query, exact_volume", "bet/sample.py"]],
     ["indices and distances of query, volumes"],
     "Hypothesis generation against direct point-in-cell tests and closed-form volumes")

prop("C06", "Cell volumes are correct and sum to one",
     """Exact cell volumes equal the true Lebesgue volume of the Voronoi cells within the domain divided by the volume of the domain, whatever
     the sample order; volumes estimated from points equal the fraction of those points nearest to each sample.
     Monte Carlo and random volume estimates are consistent with the true volumes, nonnegative and sum to one, and cell
     radii equal the largest distance from the sample to the estimation points of its cell.""",
     ["inputs"],
     "all sample sets of dimension one and two for the exact volumes, any dimension for the estimates, all boxes as domains",
     "Tests use regular grids where all volumes are equal, so permuted or mis-scaled volumes are invisible.",
     ["bet/sample.py"],
     [["exact_volume_1D, exact_volume_2D, estimate_volume, estimate_volume_mc, estimate_volume_emulated, estimate_local_volume, estimate_radii", "bet/sample.py"]],
     ["volumes, radii of the set"],
     "Hypothesis generation against exact half-plane clipping and nearest-point counting")

prop("C07", "Normalizing the domain and undoing it is an exact affine round trip",
     """Normalizing maps every sample value and reference value affinely from the domain to the unit box and derivatives by the
     corresponding chain rule; undoing the normalization restores values, derivatives and domain. This holds whether the values are
     stored globally, locally or both, and the arrays the user supplied are not altered.""",
     ["inputs", "histories"],
     "all domains and values, jacobians, any interleaving of normalize, undo, local/global communication",
     "Tests normalize one set with global values only.",
     ["bet/sample.py"],
     [["normalize_domain, undo_normalize_domain", "bet/sample.py"]],
     ["values, jacobians, reference value, domain"],
     "stateful sequences against an affine reference model")

prop("C08", "Sample sets keep their per-sample arrays consistent through every edit",
     """Appending, clipping, merging and copying sample sets keep each sample's value, volume, probability, jacobian and other
     attributes together and in order (clipping keeps the first samples with all their attributes, merging stacks the values of the
     second set below those of the first and keeps dimension, domain and norm, a copy has every attribute), with array lengths that agree; a set whose arrays have inconsistent lengths or dimensions is
     rejected. A copy is independent of the original, and gathering and scattering between global and local arrays loses and alters nothing;
     setting a global array brings its local part in step.""",
     ["inputs", "histories"],
     "all sample sets with any subset of attributes set, and all sequences of edits",
     "Tests apply each operation once to arrays of ones or zeros, where mixed up rows are invisible.",
     ["bet/sample.py"],
     [["append_values, clip, merge, copy, check_num, global_to_local, local_to_global", "bet/sample.py"]],
     ["getters of the set"],
     "stateful operation sequences against a row-wise model")

prop("C09", "Saving and loading returns an equal object, and equality is exact",
     """An object saved and loaded again compares equal to the original and answers queries and probability questions identically, and two sets or
     discretizations compare equal exactly when all of their stored contents are equal (equality never fails on sets that
     merely differ in which attributes are present).""",
     ["inputs", "histories"],
     "all sample set kinds and discretizations with any subset of attributes; any single difference between two otherwise equal objects; file names with and without directories",
     "Tests round-trip a handful of objects and compare only equal ones.",
     ["bet/sample.py", "bet/util.py"],
     [["__eq__, save, util.save_object, util.load_object", "bet/sample.py, bet/util.py"]],
     ["result of == and of load"],
     "Hypothesis generation of objects and single mutations; round-trip and field-wise comparison oracle")

prop("C10", "Discretization results reflect the current sets",
     """Whatever sequence of replacing the input, output, emulated or output-probability sets and of recomputing an input or output measure has
     gone before, the map from samples to output cells used in any calculation is the nearest-cell map of the sets currently held,
     so a calculation gives the same answer as on a freshly built discretization with the same sets.""",
     ["histories"],
     "all sequences of set replacement, simple-function discretizations and solves",
     "Tests build a fresh discretization for each calculation.",
     ["bet/sample.py", "bet/calculateP/calculateP.py", "bet/calculateP/simpleFunP.py"],
     [["io_ptr, emulated_ii_ptr, emulated_oo_ptr caches and their refresh", "bet/sample.py"]],
     ["pointer getters and probabilities after each step"],
     "stateful sequences, differential against a freshly built discretization")

prop("C11", "Selecting, clipping and merging discretizations keeps input-output pairs",
     """Clipping, merging and copying a discretization and choosing a subset of its inputs and outputs keep every input sample paired
     with its own output and select exactly the requested samples or coordinates in the requested order, without altering the original.
     Clipping keeps all attributes of the kept samples; merging stacks input and output values (and the emulated sets) of the second below the first and keeps the output measure and observed set of the first;
     choosing inputs and outputs carries along values, error estimates, jacobian entries, domains, reference values and norms for the chosen coordinates.""",
     ["inputs"],
     "all discretizations, clip lengths, index subsets in any order, pairs to merge",
     "Tests check one small case per operation.",
     ["bet/sample.py"],
     [["discretization.clip, merge, copy, choose_inputs_outputs", "bet/sample.py"]],
     ["getters of the resulting discretization"],
     "Hypothesis generation against array slicing")

prop("C12", "Simple-function output measures are probabilities with the stated support",
     """Every simple-function approximation of an output density yields cells with nonnegative probabilities summing to one.
     For uniform measures on a box given by bounds, by size around a reference value or by a fraction of the data range, the cells of positive
     probability are those of the box: regular partitions have the requested number of equal cells per dimension covering exactly the box with equal probabilities and
     nothing outside; uniform partitions give each random or user-given cell the fraction of emulation points in the box nearest to it. Normal measures give each
     cell the fraction of normally distributed points nearest to it, and data-driven ones make the data points themselves the cells, equally likely.""",
     ["inputs"],
     "all output dimensions, reference values, box sizes given as scalar or per dimension, cell counts, data sets",
     "Tests use fixed data files and mostly check sums and sizes.",
     ["bet/calculateP/simpleFunP.py"],
     [["regular_partition_*, uniform_partition_*, user_partition_*, normal_partition_*, uniform_data", "bet/calculateP/simpleFunP.py"]],
     ["values, probabilities and partition of the returned set"],
     "Hypothesis generation against direct geometry and counting")

prop("C13", "Data-consistent inversion weights are the ratio of observed to predicted density",
     """Density-based inversion gives each input sample the weight observed density over predicted density evaluated at its output,
     each density being the Gaussian kernel density estimate of its own samples within its cluster (the predicted one weighted by prior weights if there are any), and reports for each
     cluster the ratios, their mean and the indices of its samples. Clusters without enough predictions or observations get no ratio and weight zero; cluster labels present on only one of the two sets are ignored.
     Weights do not depend on the order of the samples, on earlier inversions, or on how the arrays are stored.""",
     ["inputs"],
     "all predicted and observed samples, clusterings, prior weights, bandwidth choices, dimensions",
     "Tests check only normalization or loose tolerances on one Gaussian example.",
     ["bet/calculateP/calculateR.py"],
     [["generate_output_kdes, invert_to_*", "bet/calculateP/calculateR.py"]],
     ["weights, r, cluster statistics returned"],
     "Hypothesis generation, differential against an independent kernel density computation")

prop("C14", "Updated densities and random variables are built from the inversion weights",
     """The updated input density produced by an inversion (weighted kernel density per dimension, Gaussian mixture, single Gaussian, fitted random variable or rejection sample) is
     the one determined by the input samples of each cluster weighted by their inversion ratios, the clusters being combined in proportion to their share of the
     observations. Means and covariances of Gaussians are the weighted moments. Rejection sampling keeps each input sample with probability its weight divided by the largest weight of its cluster, so only
     original samples of positive weight are kept; they get equal probabilities, and the domain becomes their bounding box.""",
     ["inputs"],
     "all input/output samples, clusterings, prior weights, families of random variables",
     "Tests only check that the calls run or that the pdf is near a reference at a loose tolerance.",
     ["bet/calculateP/calculateR.py", "bet/sample.py"],
     [["invert_to_kde, invert_to_gmm, invert_to_multivariate_gaussian, invert_to_random_variable, invert_rejection_sampling", "bet/calculateP/calculateR.py"]],
     ["probability type, parameters, pdf and marginals of the input set"],
     "Hypothesis generation against weighted moments and weighted kernel densities computed directly")

prop("C15", "Density evaluation agrees with the declared probability model",
     """The pdf and marginal pdf of a sample set, updated or initial, evaluate exactly the density declared for it: products of one-dimensional laws, weighted sums over clusters of (products of
     one-dimensional) kernel estimates or of Gaussians, or the piecewise constant Voronoi density (the probability of the nearest cell over that cell's absolute volume). Components that are absent are skipped. The result is one
     number per point, in the order of the points, for any number of points, and follows the law currently declared.""",
     ["inputs", "histories"],
     "all probability types, parameters, evaluation points including a single point; before and after the declared law changes",
     "Tests evaluate a few Gaussians at a few points.",
     ["bet/sample.py"],
     [["evaluate_pdf, evaluate_pdf_marginal, pdf, pdf_init, marginal_pdf, marginal_pdf_init, set_densities", "bet/sample.py"]],
     ["returned densities"],
     "Hypothesis generation, differential against scipy.stats and brute-force nearest cells")

prop("C16", "Samplers return the requested samples from the requested law",
     """Every sampling routine returns exactly the requested number of samples inside the domain or support of the requested law: Latin hypercube samples have one sample per
     stratum in each dimension of the domain, regular samples are the full tensor grid of cell centres with equal volumes, random-variable samples use each coordinate's own law with its own parameters, and
     samples of an updated density come from the components of that density in numbers proportional to the component weights. The sampled law is recorded as initial law of the set, the domain is the support of the law, and
     resampling into an existing set replaces its values.""",
     ["inputs", "histories"],
     "all domains, laws, sample counts, dimensions, and repeated sampling into the same set",
     "Tests check shapes and bounds on the unit box for a few counts.",
     ["bet/sampling/basicSampling.py"],
     [["random_sample_set, lhs_sample_set, regular_sample_set, sample_from_updated", "bet/sampling/basicSampling.py"]],
     ["values, domain, declared initial law of the set"],
     "Hypothesis generation against structural predicates and seeded differential sampling")

prop("C17", "Model evaluation pairs each input with its own output",
     """Evaluating a model over an input set yields output row i equal to the model applied to input row i, for every sampling route,
     including jacobians and error estimates when the model returns them; the saved discretization equals the returned one,
     and the dimension of the output is that of the model's result.""",
     ["inputs", "configurations"],
     "all input sets, models returning one or several of data, error estimates and jacobians, local or global storage, saving or not",
     "Tests use a few fixed maps.",
     ["bet/sampling/basicSampling.py"],
     [["sampler.compute_qoi_and_create_discretization, create_random_discretization", "bet/sampling/basicSampling.py"]],
     ["discretization returned and file saved"],
     "Hypothesis generation of affine and nonlinear models against direct evaluation")

prop("C18", "Generalized Lp samplers stay in and fill the ball",
     """Samples of the generalized Lp distributions have the number and dimension asked for. The uniform law stays in the Lp ball of the stated
     centre and radius and is uniform in volume for every p including infinity; for finite p the beta law stays in the ball with the p-th power of the radius distributed as Beta(dim/p, d/p); and
     under the normal law the p-th powers of the scaled coordinates are independent Gamma(1/p) variables with symmetric signs.""",
     ["inputs"], "all p >= 1, infinity, dimensions, counts, centres and radii",
     "Tests compare a few moments for p in {1,2,inf}.",
     ["bet/sampling/LpGeneralizedSamples.py"],
     [["Lp_generalized_normal, Lp_generalized_uniform, Lp_generalized_beta", "bet/sampling/LpGeneralizedSamples.py"]],
     ["returned samples"],
     "Hypothesis generation with norm predicates and radius-distribution tests at fixed seeds")

prop("C19", "Gradient estimates are exact where the method is exact",
     """Finite-difference stencils are the centre plus and/or minus one step in each coordinate, and the resulting jacobians are exact for affine maps (forward) and quadratic maps (central), row by row for
     the right centre, output and parameter. Radial-basis gradients are those of the interpolant through the given number of samples nearest to each centre
     for every kernel and shape parameter; normalized gradients have unit 1-norm. Samples drawn around centres stay in the ball or box of the stated radius about their own centre, and the caller's sets keep their data.""",
     ["inputs"], "all centres, steps, dimensions, affine and quadratic maps, kernels, shape parameters",
     "Tests use fixed random data and check shapes, or one linear map at a loose tolerance.",
     ["bet/sensitivity/gradients.py"],
     [["sample_linf_ball, sample_lp_ball, pick_ffd_points, pick_cfd_points, calculate_gradients_rbf/ffd/cfd, radial_basis_function, radial_basis_function_dxi", "bet/sensitivity/gradients.py"]],
     ["returned discretization and its jacobians"],
     "Hypothesis generation with closed-form jacobians and an independent interpolation solver")

prop("C20", "Optimal QoI selection agrees with exhaustive search",
     """The measure, skewness and condition number of sets of output maps equal their definitions from the singular values and
     row geometry of the jacobians (mean parallelepiped volume, harmonic means of skewness and condition number, infinite when the maps are dependent), and the returned ranking lists the best distinct sets of quantities
     among all combinations, in order, with their correct scores, padded with infinite scores when there are fewer sets than asked for. The search over many quantities first drops quantities whose gradients are
     nearly parallel to an earlier one or vanish, then grows sets from those whose score stays below the tolerance, and ranks what it finds with correct scores.""",
     ["inputs"], "all jacobian arrays, numbers of quantities, subset sizes, numbers of sets requested, with and without weighting by volume",
     "Tests check a few fixed arrays or only shapes.",
     ["bet/sensitivity/chooseQoIs.py"],
     [["calculate_avg_measure, calculate_avg_skewness, calculate_avg_condnum, chooseOptQoIs, chooseOptQoIs_large, find_unique_vecs, find_good_sets, find_best_sets", "bet/sensitivity/chooseQoIs.py"]],
     ["returned scores and index sets"],
     "Hypothesis generation, differential against exhaustive enumeration with independent linear algebra")

prop("C21", "Error estimates bound or identify the event mass they describe",
     """Cell connectivity lists for each event the events of neighbouring Voronoi cells, and interior and boundary sets follow from it. Sampling error bounds are
     the sum over events of event probability times (volume of the interior set over volume of the boundary-inclusive set minus one) and likewise from above, for the whole domain or a region, undefined if an event has no interior cell.
     Model error estimates are the probability of a region lost or gained when each sample's output is moved by its error estimate and so changes events; zero model error gives a zero
     estimate. Monte Carlo and exact variants agree with direct summation, and the outputs are left unchanged.""",
     ["inputs"], "all sample sets, output partitions, regions and error estimates",
     "Tests use fixed data with loose bounds.",
     ["bet/calculateP/calculateError.py"],
     [["cell_connectivity_exact, boundary_sets, sampling_error, model_error", "bet/calculateP/calculateError.py"]],
     ["connectivity lists, error estimates"],
     "Hypothesis generation against brute-force adjacency and sums")

prop("C22", "Surrogates evaluate the piecewise polynomial of their data",
     """A piecewise surrogate evaluated at any point uses the nearest sample of its training data: constant order returns that sample's output, linear order adds the
     jacobian times the displacement from the sample (so it reproduces affine maps exactly), and error estimates and regions are carried over likewise. A set without domain or norm adopts that of the training inputs.
     Probabilities of a region computed with a surrogate equal those of the propagated points, and probabilities and error identifiers of the training cells are
     updated if and only if asked for.""",
     ["inputs"], "all training discretizations, evaluation sets, orders",
     "Tests check shapes and one constant map.",
     ["bet/surrogates.py"],
     [["piecewise_polynomial_surrogate.generate_for_input_set, calculate_prob_for_sample_set_region", "bet/surrogates.py"]],
     ["generated discretization"],
     "Hypothesis generation against direct piecewise evaluation")

prop("C23", "Density sorting and selection keep exactly the samples within the target mass",
     """Sorting by density orders samples by probability per unit volume, largest first, and drops exactly those of zero probability; selecting a percentage of the mass returns the longest
     prefix of that order (or of the reverse order, or of the given order if sorting is off) whose mass does not exceed the target, with value, volume, probability and output of the kept samples and correct indices into the original set, which is left unchanged.""",
     ["inputs"], "all measures and volumes including zeros, percentages, ascending or descending, sorted or not",
     "Tests use a few percentages on one fixed set.",
     ["bet/postProcess/postTools.py"],
     [["sort_by_rho, sample_prob, sample_highest_prob, sample_lowest_prob", "bet/postProcess/postTools.py"]],
     ["returned set and indices"],
     "Hypothesis generation against a sorting reference")

prop("C24", "Histogram marginals conserve mass per bin",
     """One- and two-dimensional marginals assign to each bin exactly the total probability of the samples in it, so they sum to the mass inside the domain (boundary included), for the
     right coordinates, bin counts and bin edges; a discretization with an emulated input set is represented by that set. Smoothing gives nonnegative marginals of total one and equals the convolution with the Gaussian
     of the stated bandwidth in each direction.""",
     ["inputs"], "all sample sets, measures, bin counts, smoothing widths",
     "Tests use one uniform grid.",
     ["bet/postProcess/plotP.py"],
     [["calculate_1D_marginal_probs, calculate_2D_marginal_probs, smooth_marginals_1D, smooth_marginals_2D", "bet/postProcess/plotP.py"]],
     ["returned bins and marginals"],
     "Hypothesis generation against direct binning")

prop("C25", "Statistical distances compare the two measures actually given",
     """Distances between probability measures (total variation, Euclidean, Hellinger, Kullback-Leibler, or a user function) equal the stated formula of the two densities on the common points, normalized if asked: they are
     nonnegative, zero for a measure and itself, symmetric for symmetric metrics, and independent of earlier calls. Random comparison points are uniform in the box of both sets enlarged by the given factor. Marginal distances
     use the pair of marginals on a range covering both domains, or both sets of values where a domain is missing or infinite.""",
     ["inputs", "histories"], "all pairs of sample sets and densities, metrics, comparison sets and call sequences",
     "Tests call each metric once on a few pairs.",
     ["bet/postProcess/compareP.py"],
     [["compare.set_compare_set, distance, distance_marginal, distance_marginal_quad", "bet/postProcess/compareP.py"]],
     ["returned distances"],
     "Hypothesis generation against direct formulas, metamorphic relations over call histories")

prop("C26", "Parallel runs give the serial answer",
     """With the samples split over several processes, every calculation (inversion, emulation, volumes, model evaluation, measures, densities, gathering of arrays,
     saving and loading) gives on every process the same global result as on one process, with no deadlock and
     nothing lost, duplicated or reordered (merging excepted, where only input-output pairs are kept together), also when some processes hold no samples. Random procedures give the same set on all processes. Globalized files load on any number of processes,
     per-process files on the same number, and loaded objects hold this process's own local arrays.""",
     ["schedules", "inputs", "configurations"], "all rank counts 1..5, sample counts including fewer than ranks, interleavings of the ranks",
     "The tests run on one process only.",
     ["bet/sample.py", "bet/util.py", "bet/Comm.py", "bet/calculateP/calculateP.py", "bet/sampling/basicSampling.py"],
     [["get_global_values, local_index splitting, Allreduce/allreduce/bcast", "bet/util.py, bet/sample.py"]],
     ["global arrays on each rank"],
     "Hypothesis generation on a simulated multi-rank communicator, differential against one rank")

prop("C27", "Array helpers shape and combine data without loss",
     """The helpers that fix array shapes, clean data, build tensor grids (up to ten vectors, last fastest) and gather arrays return the documented shape with exactly the
     given entries in order: data given by columns are transposed only if that alone fits the dimension, boxes are given by rows or columns of bounds, cleaning replaces only NaN by zero and infinities by the largest finite numbers.
     Arguments are left alone. Setting values, domain or reference value of the wrong dimension is rejected.""",
     ["inputs"], "all accepted scalars, lists, arrays, dimensions",
     "Tests use a few fixed arrays.",
     ["bet/util.py"],
     [["fix_dimensions_*, meshgrid_ndim, clean_data, get_global_values", "bet/util.py"]],
     ["returned arrays"],
     "Hypothesis generation against itertools and numpy references")

prop("C28", "The fallback communicator behaves like a one-process MPI communicator",
     """Without MPI installed the package gives bit for bit the same results as with MPI on one process, and each object-based collective operation (allgather, gather, allreduce, bcast, scatter, barrier) of the fallback returns what a
     single-process communicator returns.""",
     ["inputs", "configurations"], "all payloads, operations and roots; all calculations run in both configurations",
     "Tests run only in the configuration installed.",
     ["bet/Comm.py"],
     [["comm_for_no_mpi4py", "bet/Comm.py"]],
     ["return values of the communicator and of calculations"],
     "Hypothesis generation, differential between the fallback and mpi4py on one process")

prop("C29", "Learned quantities of interest become a consistent discretization",
     """The interface to the learner passes on exactly the predicted and observed time series, times and options, and turning its result into a discretization keeps each predicted sample with its input and carries cluster labels and
     feature maps of predicted and observed sets unchanged into outputs and observations of the right dimension, with an observation discretization exactly when observed inputs were given. Inverting it gives the density ratio of
     those maps, and saving and loading changes nothing.""",
     ["inputs"], "all predicted/observed data, cluster labelings, with and without given sets",
     "Tests run one fixed example and check types.",
     ["bet/sampling/useLUQ.py"],
     [["useLUQ.make_disc", "bet/sampling/useLUQ.py"]],
     ["returned discretizations"],
     "Hypothesis generation with a stand-in learner against the data given")

prop("C30", "Plots show the data they are given",
     """Plotting functions draw each sample, cell or marginal with its own coordinates and value for the requested dimensions: scatter plots the chosen samples with their colours, projections the named coordinates, marginals their density within
     each bin, contours and surfaces their values, Voronoi plots each cell with its own probability or density, density plots the declared marginal laws, each with reference value and axis labels where they belong. One figure is saved per combination asked for, unaffected by earlier
     plots, and the plotted sets are left unchanged.""",
     ["inputs"], "all sample sets, dimensions chosen, measures",
     "Tests only check that files appear.",
     ["bet/postProcess/plotP.py", "bet/postProcess/plotDomains.py", "bet/postProcess/plotVoronoi.py"],
     [["scatter_2D, scatter_rhoD, plot_1D_marginal_probs, plot_1D_voronoi, plot_2D_voronoi, ...", "bet/postProcess"]],
     ["matplotlib artists captured from the calls"],
     "Hypothesis generation, matplotlib artists captured and compared with the set")

prop("C31", "Requests that cannot be answered are refused and change nothing",
     """A request that is malformed or lacks what it needs (arrays, sets or points of another dimension or number, an argument of the wrong type, missing probabilities, jacobians, values, reference values or emulated samples, sizes that are not
     positive, unknown kinds of densities, laws or kernels, cell volumes or errors for a dimension, norm or kind of cell they are not defined for) is refused with the documented exception of its module instead of being answered, and leaves the
     samples, results and domains it was given unchanged. Appending to sets of rectangles or balls does nothing, as documented.""",
     ["inputs"], "all malformed requests of the listed kinds, for all dimensions, set sizes and ways of passing the data",
     "Tests exercise few of the refusals, each with one fixed example, and never check that nothing has changed.",
     ["bet/sample.py", "bet/calculateP", "bet/surrogates.py", "bet/sampling", "bet/sensitivity", "bet/postProcess"],
     [["dim_not_matching, length_not_matching, wrong_input, wrong_argument_type, bad_object, missing_attribute", "all modules"]],
     ["exception class and object contents before and after"],
     "Hypothesis generation of malformed requests; oracle: documented exception and unchanged contents")

prop("C32", "Whole numbers may be given as integers, and the caller's arrays are left alone",
     """Arrays of whole numbers given with an integer type of any width, and in any memory order, give the same results as the same numbers in floating point, in every calculation: probabilities and their transfer,
     volumes, queries, normalization of domains, partitions of the output space, surrogates, error estimates, finite differences and gradients, selection of quantities of interest, marginals, sorting by density, densities, inversion, samplers,
     model evaluation, distances, clipping, selecting, merging, saving and loading. Fractions appended to, merged with or added to whole numbers are not cut off. No calculation alters an array that the caller passed in.""",
     ["inputs"], "all routines with integer arrays of 16, 32 and 64 bits in row major, column major or strided layout, for all dimensions and set sizes",
     "Tests use floating point arrays nearly everywhere and never check the arrays they passed in.",
     ["bet/sample.py", "bet/calculateP", "bet/surrogates.py", "bet/sampling", "bet/sensitivity", "bet/postProcess", "bet/util.py"],
     [["all public routines taking arrays", "all modules"]],
     ["results of the same request in two number types; contents of the arrays passed in"],
     "Hypothesis generation; differential: the same request with floating point and integer arrays, bytes of the arguments before and after")

prop("C33", "Results do not depend on the order in which things are given",
     """Giving the same problem with its samples, emulated samples, output events, observations, query points, quantities of interest, parameters or outputs in another order gives the same results in that order: probabilities and their transfer,
     volumes, queries and pointers (renamed accordingly), surrogates, error estimates, output measures, stencils and gradients, scores and choice of quantities of interest, marginals, sorting by density, densities, inversion weights,
     distances, model evaluation, regular samples and selected coordinates. Random routines that depend on samples only through their cells do so for the same seed when samples are reordered.""",
     ["inputs"], "all problems in general position and all permutations of samples, events, points and coordinates, in 34 calculations of all modules",
     "Tests fix one order, often sorted, so that mixed-up rows, coordinates or indices can cancel out.",
     ["bet/sample.py", "bet/calculateP", "bet/surrogates.py", "bet/sampling/basicSampling.py", "bet/sensitivity", "bet/postProcess"],
     [["all calculations", "all modules"]],
     ["results of a problem and of its reordered copy"],
     "Hypothesis generation; metamorphic: results of the permuted problem are the permuted results")

prop("C34", "Results do not depend on units, origin or direction of the coordinates",
     """Giving the same problem with parameters or outputs in other units (scaled), from another origin (shifted) or in the opposite direction (reversed) gives the same probabilities, volumes relative to the domain, pointers, weights, marginals, scores and
     distances, and values, lengths, derivatives and densities converted to the new units. Where distances between points matter all coordinates are scaled alike. Cell volumes given in other units change no probability or error estimate.
     Random routines do so for the same seed.""",
     ["inputs"], "all problems in general position, scales from 2^-30 to 2^20 per coordinate, shifts and reversals, in 34 calculations of all modules",
     "Tests work in the unit box or a box of order one, where an absolute tolerance or a forgotten scale or origin does not show.",
     ["bet/sample.py", "bet/calculateP", "bet/surrogates.py", "bet/sampling/basicSampling.py", "bet/sensitivity", "bet/postProcess"],
     [["all calculations", "all modules"]],
     ["results of a problem and of its copy in other units"],
     "Hypothesis generation; metamorphic: results of the rescaled problem are the converted results")

prop("C35", "Calculations leave what they read unchanged and can be repeated",
     """A calculation sets the results it is documented to set and leaves everything else in the sample sets, measures and discretizations it was given as it was: values, domains, norms, jacobians, error estimates, regions, given volumes,
     probabilities and densities, reference values. Doing it again on the same objects (with the same seed if it is random) gives the same results.""",
     ["inputs", "histories"], "all problems in 35 calculations of all modules, with samples stored globally or also locally",
     "Tests look at the result of a first call and not at what else it changed, and rarely call twice.",
     ["bet/sample.py", "bet/calculateP", "bet/surrogates.py", "bet/sampling/basicSampling.py", "bet/sensitivity", "bet/postProcess"],
     [["all calculations", "all modules"]],
     ["contents of all objects before and after; results of the first and second call"],
     "Hypothesis generation; invariant: contents before and after, differential: first against second call")

NOT_APPLICABLE = []
PENDING = {}


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))
            f.write(json.dumps(dict(
                id=p["pid"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"],
                             mechanism=[dict(name=m[0], where=m[1]) for m in p["mechanism"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], list(NOT_APPLICABLE)
    for p in P:
        if os.path.exists(os.path.join(here, "vp", "props", p["pid"].lower() + ".py")):
            checks.append(dict(
                property=p["pid"], quick_cmd="python3 /verif/run.py %s --tier quick" % p["pid"],
                thorough_cmd="python3 /verif/run.py %s --tier thorough" % p["pid"],
                evidence_file="evidence/%s.json" % p["pid"],
                technique=p["technique"], level="exploration",
                level_note=p["note"] or "Generated-input search with an independent oracle; shows no violation among the cases explored (counts in the evidence file), not absence. Single process unless stated; floating-point comparison at stated tolerances."))
        else:
            na.append(dict(property=p["pid"], reason="check under construction"))
    m = dict(version=1, setup_cmd="python3 /verif/tools/selftest.py", checks=checks, not_applicable=na)
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

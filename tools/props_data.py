T = 'runtime monitoring: reference-model monitor over recorded executions'

prop('C01', 'Set-based inversion conserves and splits output probability by volume',
     'For every discretization, computing the input probability measure gives each output cell of '
     'positive probability that contains a sample of positive volume exactly that probability, split '
     'over the samples mapping into the cell in proportion to their input volumes (equally over '
     'emulated points when emulated samples carry the measure); every other sample gets zero. The '
     'result depends only on the sets currently in the discretization, however often and in whatever '
     'order it was solved, and no other data of the sets changes.',
     ['inputs', 'histories'],
     'all discretizations (any dimension, set type, p-norm, probabilities and volumes, also zero or '
     'extreme) and all sequences of solving and replacing output, probability or emulated sets',
     'The tests solve a few fixed linear maps and compare total mass or single values; they never '
     'vary cell types, volumes, empty cells or re-solve after replacing a set.',
     ['bet/calculateP/calculateP.py', 'bet/sample.py'],
     [('prob, prob_with_emulated_volumes, prob_on_emulated_samples', 'bet/calculateP/calculateP.py'),
      ('set_io_ptr, set_emulated_ii_ptr', 'bet/sample.py')],
     ['return of prob*: get_probabilities and get_probabilities_local of the input or emulated set'],
     'Held on thousands of seeded histories per run; trusts the independent sharing model and numpy.',
     T)

prop('C02', 'Re-binning a probability measure conserves mass cell by cell',
     'Transferring probabilities from one sample set (or the input of a discretization) to another '
     'discretization of the same space gives every new cell exactly the mass of the old samples (or of '
     'the emulated points that share each old cell equally) that lie in it, so total mass is conserved; '
     'only when a positive-probability old cell has no emulated point is the result renormalised to one. '
     'The old set is not changed, the returned vector is the one stored, and sets of different dimension '
     'are refused.',
     ['inputs', 'histories'],
     'all pairs of sets of any type, p-norm, size and probability vector, with or without emulated '
     'points, and chains of such transfers',
     'The tests use two fixed pairs of uniform sets and check one or two cells.',
     ['bet/calculateP/calculateP.py'],
     [('prob_from_sample_set, prob_from_sample_set_with_emulated_volumes, '
       'prob_from_discretization_input', 'bet/calculateP/calculateP.py')],
     ['return of prob_from_*: returned vector and get_probabilities of the new set'],
     'Held on thousands of seeded transfers per run; trusts the independent re-binning model.', T)

prop('C03', 'Every point is associated with the cell that contains it',
     'Querying a set returns, for every point, the nearest samples in the set\'s own p-norm in order with '
     'their distances (Voronoi), or the boxes (open below, closed above), grid cells or open balls that '
     'contain it at distance zero and otherwise the remainder cell at infinite distance. This holds for '
     'the values the set currently has, and the pointers of a discretization (output to probability '
     'cells, emulated input to input, emulated output to probability cells), where present, agree with it '
     'for the sets currently in place.',
     ['inputs', 'histories'],
     'all sets, dimensions, p-norms, query points (coincident, on boundaries, outside) and numbers of '
     'neighbours, before and after values or sets are replaced',
     'Tests query a handful of fixed points with k up to 2 and the default norm, and never after the '
     'values changed.',
     ['bet/sample.py'],
     [('voronoi/rectangle/ball/cartesian query and setup', 'bet/sample.py'),
      ('set_io_ptr, set_emulated_ii_ptr, set_emulated_oo_ptr, globalize_ptrs', 'bet/sample.py')],
     ['return of query; get_io_ptr, get_emulated_ii_ptr, get_emulated_oo_ptr'],
     'Held on thousands of seeded queries against brute force; ties may resolve either way.', T)

prop('C04', 'Cell volumes are the fractions of the domain the cells occupy',
     'Exact volumes in one and two dimensions and of rectangles, grids and balls equal the fraction of '
     'the domain covered by each cell (the remainder cell getting the rest); emulated volumes equal the '
     'fraction of emulated points in each cell; the Monte Carlo assumption gives equal fractions. Monte '
     'Carlo and local estimates are consistent estimates of the cell fractions in the set\'s p-norm, '
     'estimated radii never exceed a cell\'s true radius, and all fractions are non-negative, sum to one '
     'and leave the sample values unchanged.',
     ['inputs'],
     'all sample configurations in all box domains (for the planar exact volume: distinct interior '
     'samples with the documented reflection ratio large enough)',
     'Tests compare a few fixed grids whose volumes are known; irregular cells, other norms, non-unit '
     'domains and empty cells are not sampled.',
     ['bet/sample.py'],
     [('exact_volume_1D, exact_volume_2D, exact_volume_lebesgue, exact_volume, estimate_volume*, '
       'estimate_radii*, estimate_local_volume', 'bet/sample.py')],
     ['get_volumes, get_volumes_local and radii after each method'],
     'Exact methods are compared with closed forms and polygon clipping to 1e-6; Monte Carlo methods '
     'statistically at 7 sigma or wider.', T)

prop('C05', 'Simple functions represent exactly the output distribution asked for',
     'Every simple-function approximation of an output probability measure is a valid measure: '
     'non-negative, total mass one, on cells of the data dimension. A regular partition of a hyperrectangle '
     'gives equal mass to its equal cells inside the stated rectangle and zero outside; a sampled uniform '
     'or normal partition gives each of its cells the mass that distribution has there (to sampling '
     'accuracy), with samples in the stated support; user partitions and data samples get the counts of the '
     'points given. Centre, size or scale mean the same whether given as number, list or array and for '
     'data given as array, set or discretization; a discretization given gets the new measure as its output '
     'probability set with no stale pointers. Ill-formed sizes are refused.',
     ['inputs', 'histories'],
     'all data sets, dimensions, scales, reference values, sizes, numbers of cells and emulation points',
     'Tests check shapes, that probabilities sum to one and a few bounds; not that masses are those of '
     'the stated distribution, nor argument forms or re-use of a discretization.',
     ['bet/calculateP/simpleFunP.py'],
     [('uniform_partition_*, normal_partition_*, uniform_partition_normal_distribution_*, '
       'regular_partition_uniform_distribution_*, user_partition_user_distribution', 'bet/calculateP/simpleFunP.py')],
     ['returned sample set: get_values, get_probabilities, query; output probability set of the discretization'],
     'Regular cells exactly; sampled cells at 7 sigma against closed-form cell masses.', T)

prop('C06', 'Density-based inversion weights samples by observed over predicted density',
     'For every discretization with predicted and observed outputs, density-based inversion gives each '
     'sample the ratio of observed to predicted density at its output, estimated within its cluster and '
     'with the stated bandwidth, weights and bounds, and combines clusters by their share of observed data. '
     'The updated measure each inversion returns or stores (KDE per marginal, Gaussian mixture, multivariate '
     'Gaussian, fitted random variables, rejection sample) is that of the samples with those weights. '
     'Inverting again, after replacing data, or with data set globally or locally gives the answer for '
     'the current data.',
     ['inputs', 'histories'],
     'all maps, sample numbers, cluster labellings (gaps included), weights, bandwidths and sequences of methods',
     'Tests run each method once on one linear problem and check that it returns.',
     ['bet/calculateP/calculateR.py'],
     [('generate_output_kdes, invert, invert_to_kde, invert_to_gmm, invert_to_multivariate_gaussian, '
       'invert_to_random_variable, invert_rejection_sampling', 'bet/calculateP/calculateR.py')],
     ['get_weights, get_prob_type, prob_parameters, returned marginals, accepted samples'],
     'Held on thousands of seeded inversions against independently coded density estimates.', T)

prop('C07', 'Evaluated densities are those of the measure the set currently stores',
     'The PDF, initial PDF and marginal PDFs of a set evaluate, at every point, to the density of the '
     'stored measure: the product of the (cluster-weighted) marginals for KDE and random-variable types, '
     'the cluster-weighted Gaussian mixture, and for Voronoi type the probability over the volume (fraction times volume of the domain) of the '
     'cell containing the point, in the set\'s p-norm. Each marginal is that of its own coordinate. The '
     'values follow whichever probabilities and volumes are current, global or local, stored densities are '
     'probability over volume, and requests that cannot be answered are refused.',
     ['inputs', 'histories'],
     'all measures, dimensions, evaluation points and orders of replacing and evaluating',
     'Tests evaluate at a few points of one-dimensional or uniform measures.',
     ['bet/sample.py'],
     [('pdf, pdf_init, marginal_pdf, marginal_pdf_init, set_densities, set_densities_local, '
       'set_prob_type*', 'bet/sample.py')],
     ['return of pdf, pdf_init, marginal_pdf, marginal_pdf_init, get_densities*'],
     'Held on thousands of seeded evaluations against closed forms, and some against integrals.', T)

prop('C08', 'Samplers draw from the distribution, design or grid they are asked for',
     'Random sampling returns exactly the number asked for, each coordinate following the random variable '
     'named for it, on the domain given (uniform unless stated); a Latin hypercube has exactly one sample in '
     'each of the n equal strata of every coordinate; a regular grid has the stated number of distinct cell '
     'centres per coordinate, in every combination. It makes no difference whether the space is given as '
     'dimension, domain or sample set; the set and sampler record what they were asked, results are '
     'reproducible from the numpy seed, and improper requests are refused.',
     ['inputs'],
     'all dimensions, domains, sample numbers, distributions, criteria and argument forms',
     'Tests compare against the same calls on unit domains or check shapes and bounds.',
     ['bet/sampling/basicSampling.py'],
     [('random_sample_set, lhs_sample_set, regular_sample_set and sampler methods', 'bet/sampling/basicSampling.py')],
     ['values, domain and prob_type of the returned set'],
     'Designs and grids exactly; distributions by Kolmogorov-Smirnov at a one-in-1e9 level.', T)

prop('C09', 'Every sample is paired with the model output computed for it',
     'When a sampler evaluates a model, row i of the outputs, error estimates and Jacobians stored in the '
     'discretization is what the model returned for row i of the input samples, each sample being evaluated '
     'once, whatever form the model returns and whether samples are global or local; a reference '
     'input is mapped to the reference output. The input set given is not changed, saved files hold the same '
     'discretization, and objects or outputs that cannot be paired are refused.',
     ['inputs', 'histories'],
     'all row-wise models, sample sets, output forms and sequences of evaluations',
     'Tests use an identity or fixed linear model and compare totals.',
     ['bet/sampling/basicSampling.py'],
     [('compute_qoi_and_create_discretization, create_random_discretization, user_samples',
       'bet/sampling/basicSampling.py')],
     ['discretization returned; rows the recording model received; file saved'],
     'Held on thousands of seeded evaluations with recording models.', T)

prop('C10', 'Resampling an updated measure draws the number asked for from it',
     'Sampling from an updated probability measure returns exactly the number of samples asked for, '
     'distributed as the updated measure: every marginal of each cluster, correlations where the measure has '
     'them, and clusters represented in proportion to their weight (rounded to whole samples). The source is '
     'not changed, and a set without an updated measure is refused.',
     ['inputs'],
     'all measures (random variables, KDE marginals, Gaussian mixtures), cluster weights, dimensions, numbers of samples',
     'Tests check only shapes for one case each.',
     ['bet/sampling/basicSampling.py'],
     [('sample_from_updated, samples_from_* helpers', 'bet/sampling/basicSampling.py')],
     ['values of the returned set'],
     'Counts exactly, distributions at a one-in-1e8 level.', T)

prop('C11', 'Saving, loading, copying and comparing preserve the whole object',
     'A sample set or discretization that is saved and loaded, or copied, has every attribute of the '
     'original (values, domain, p-norm, widths, radii, volumes, probabilities, densities, jacobians, errors, '
     'regions, weights, measures, labels, reference values, pointers, emulated, probability and observed '
     'sets), the same type, and answers queries and solves the same. Copies share no memory with the '
     'original. Two objects compare equal exactly when all their data are equal. Saving over a file, or '
     'beside files of other objects, leaves exactly the object saved last under each name.',
     ['inputs', 'histories'],
     'all set types, combinations of attributes, file names and sequences of saving, loading, copying and '
     'changing',
     'Tests save a few fixed sets and compare a list of attributes.',
     ['bet/sample.py', 'bet/util.py'],
     [('copy, __eq__', 'bet/sample.py'), ('save_object, load_object, load_object_parallel', 'bet/util.py')],
     ['loaded and copied objects through their getters; result of =='],
     'Held on thousands of seeded objects and files.', T)

prop('C12', 'Clipping, merging, slicing and appending keep samples with their data',
     'Clipping to n keeps the first n samples of every array a set has; merging has the samples of the '
     'first set followed by those of the second; slicing keeps exactly the named coordinates of values, '
     'domain, reference values and jacobians; appending adds rows. Afterwards every sample still has its own '
     'row of every array kept, discretizations keep pairing inputs with outputs and pointers with the '
     'sets present, nothing of the originals changes and unsuitable sets are refused.',
     ['inputs', 'histories'],
     'all sets, discretizations, numbers, index lists and sequences of these operations',
     'Tests use one fixed set per operation and check a few attributes.',
     ['bet/sample.py'],
     [('clip, merge, append_values, append_values_local, choose_inputs_outputs', 'bet/sample.py')],
     ['returned sets and discretizations through their getters'],
     'Held on thousands of seeded sequences with distinguishable rows.', T)

prop('C13', 'Normalising a domain is the affine map to the unit box and is undone',
     'Normalising the domain of a set maps values (global and local), reference value and cell widths '
     'affinely so that the domain is the unit box, scales jacobians accordingly, and leaves volumes, '
     'probabilities and everything else alone; a point is in the cell its image is in. '
     'Undoing it, however often the set was normalised, restores the original values, domain, widths and jacobians to rounding. This '
     'holds however often it is repeated and also when arrays share memory. Sets without domain are refused.',
     ['inputs', 'histories'],
     'all sets, domains of any scale, attributes, and sequences of normalising and restoring',
     'Tests normalise one fixed set once.',
     ['bet/sample.py'],
     [('normalize_domain, undo_normalize_domain', 'bet/sample.py')],
     ['getters of the set after each operation'],
     'Held on thousands of seeded round trips.', T)

prop('C14', 'Results do not depend on how many processes compute them',
     'Run on any number of processes, every operation of BET finishes on all of them, leaves the same global '
     'result on every process, and this result is the one a single process computes from the same '
     'samples: splitting and gathering arrays, volumes, pointers, probabilities, re-binning, simple-function '
     'measures, rejection sampling, model evaluation, clipping, merging, marginals, sensitivities, error '
     'estimates, files. Local arrays are the pieces of the global ones in process order. All processes '
     'enter the same collective operations, and random designs are one design split over the processes.',
     ['schedules', 'inputs', 'configurations'],
     'all numbers of processes (also more than samples), arrival orders at collectives, random states of the '
     'processes and data',
     'The tests run on one process; nothing compares several.',
     ['bet/Comm.py', 'bet/sample.py', 'bet/util.py', 'bet/calculateP/calculateP.py',
      'bet/sampling/basicSampling.py'],
     [('global_to_local, local_to_global, check_num, get_global_values, save_object',
       'bet/sample.py, bet/util.py'), ('allgather, allreduce, bcast users', 'whole package')],
     ['every collective each process enters; results on every process'],
     'Held on all seeded schedules; the communicator is a monitored stand-in for mpi4py.',
     'runtime monitoring: simulated MPI hub checking collectives online, cross-rank and serial '
     'differential monitors')

prop('C15', 'Without mpi4py the library does what it does with it',
     'When mpi4py cannot be imported, every operation - sampling, solving, querying, volumes, errors, '
     'surrogates, comparison, saving and loading - gives the results it gives in one process with mpi4py, and '
     'the communicator the library then offers (rank 0 of size 1) performs every operation the library uses '
     'as a one-process communicator does, without changing what is handed to it.',
     ['inputs', 'histories'],
     'all workloads of the other properties, with mpi4py absent, and all operations and objects of the '
     'stand-in communicator',
     'The tests always run with mpi4py importable; the stand-in is never executed by most of them.',
     ['bet/Comm.py', 'bet/sample.py', 'bet/util.py'],
     [('Comm_for_no_mpi4py', 'bet/Comm.py')],
     ['the monitors of the other properties in a process where mpi4py is blocked; returns of the stand-in'],
     'Held on hundreds of seeded workloads per run; a rejection counts only if the same workload passes with '
     'mpi4py.', 'runtime monitoring: differential monitor, the same monitored workload with and without mpi4py')

prop('C16', 'Gradients computed from clusters are those of the sampled map',
     'Clusters around centres list the centres first and then each centre\'s own points: uniformly '
     'distributed in the Lp ball of the given radii cut with the domain, or the forward or centred stencil. '
     'Gradients approximated from a cluster discretization belong to their centre, output and input, in that '
     'order: the forward or centred difference quotients (exact for affine, respectively quadratic maps; '
     'missing outputs count as zero), or the gradient of the interpolant of the nearest neighbours by the '
     'radial basis function and shape parameter chosen; normalised to unit 1-norm if asked, zero '
     'gradients staying zero. The centres keep their outputs and domains and the arguments are not changed.',
     ['inputs'],
     'all maps, centres (also on the boundary), radii, dimensions, kernels, shape parameters, numbers of '
     'neighbours and norms',
     'Tests check shapes, and accuracy for one smooth map to loose tolerances.',
     ['bet/sensitivity/gradients.py', 'bet/util.py'],
     [('sample_lp_ball, sample_l1_ball, sample_linf_ball, pick_ffd_points, pick_cfd_points, '
       'radial_basis_function*, calculate_gradients_*', 'bet/sensitivity/gradients.py')],
     ['values of the clusters; jacobians, values and domains of the returned discretization'],
     'Held on thousands of seeded clusters; RBF systems only where well conditioned.', T)

prop('C17', 'Lp generalized samples follow the law of their ball',
     'The Lp generalized uniform sampler is uniform in the Lp ball (p up to infinity), the '
     'generalized normal has independent coordinates of density proportional to exp(-|x|^p/scale) (uniform on '
     'the box for p infinite), and the generalized beta has direction uniform on the sphere and radius with '
     'r^p beta distributed; scaled per coordinate and shifted as asked, exactly as many as asked for, '
     'reproducible from the numpy seed.',
     ['inputs'],
     'all dimensions, p, scales, locations, shape parameters and sample numbers',
     'Tests only check that samples lie in the ball.',
     ['bet/sampling/LpGeneralizedSamples.py'],
     [('Lp_generalized_uniform, Lp_generalized_normal, Lp_generalized_beta',
       'bet/sampling/LpGeneralizedSamples.py')],
     ['returned samples'],
     'Laws judged by Kolmogorov-Smirnov at a one-in-1e9 level, support exactly.',
     'runtime monitoring: statistical and support monitors on recorded samples')

prop('C18', 'The sets of QoIs chosen are the best of all sets allowed',
     'The average measure, skewness and condition number of a set of QoIs are those of its gradients at the '
     'centres (infinite for dependent gradients), with the singular values of every centre. Removing redundant '
     'QoIs leaves none with a zero gradient (if asked), no two that are parallel beyond the tolerance, and '
     'drops none needlessly. The sets returned are the best of all sets of the QoIs left, in order, each with '
     'its own quality and singular values, without repetition, and no others; the stepwise search extends '
     'exactly the sets within the tolerance. Gradients are not changed.',
     ['inputs'],
     'all gradients (dependent, zero, badly scaled), index lists, set sizes, numbers of sets and tolerances',
     'Tests use four fixed Jacobians and check the shapes or the single best set.',
     ['bet/sensitivity/chooseQoIs.py'],
     [('calculate_avg_*, find_unique_vecs, find_good_sets, chooseOptQoIs*', 'bet/sensitivity/chooseQoIs.py')],
     ['returned qualities, sets and singular values'],
     'Held on thousands of seeded problems against full enumeration.', T)

prop('C19', 'Error estimates are the errors of the computed probabilities',
     'The sampling error bounds of the contour events, and of the events of a region, are those of the '
     'cells whose neighbours (of the Voronoi tessellation) map to other events, with exact volumes or by '
     'emulation; the model error of a region is the difference of its probability with the outputs and with '
     'the outputs corrected by the error estimates, shared out over the samples that change event, infinite '
     'when an event becomes empty. Results do not depend on what was asked before, and the discretization is '
     'not changed other than by the pointers, volumes and error identifiers computed.',
     ['inputs', 'histories'],
     'all discretizations, output cells, regions, error estimates, volumes (given, local, absent) and orders '
     'of calls',
     'Tests check one linear map, one region and shapes.',
     ['bet/calculateP/calculateError.py'],
     [('cell_connectivity_exact, boundary_sets', 'bet/calculateP/calculateError.py'),
      ('sampling_error.calculate_for_contour_events, calculate_for_sample_set_region*, '
       'model_error.calculate_for_sample_set_region*', 'bet/calculateP/calculateError.py')],
     ['neighbours, boundary sets, error bounds, error identifiers and the discretization after each call'],
     'Held on thousands of seeded discretizations against brute-force oracles; points whose cell is '
     'ambiguous are skipped.', T)

prop('C20', 'Surrogates are the piecewise polynomials claimed and carry probability',
     'A surrogate of order 0 gives every input of a set the output of the sample whose cell contains it, one of '
     'order 1 adds that sample\'s Jacobian times the offset (exact for affine maps); error estimates are '
     'those of that sample. Probabilities of regions computed with it are those of the surrogate samples, '
     'errors their differences under the error estimates; updating the input gives each of its '
     'samples the probability (and error) of its cell, and not updating leaves it alone. The input '
     'discretization, and a domain the set has, are kept, whatever was generated before.',
     ['inputs', 'histories'],
     'all discretizations, Jacobians, input sets (global or local), regions, metrics and call sequences',
     'Tests check shapes and that the calls run.',
     ['bet/surrogates.py', 'bet/calculateP/calculateError.py'],
     [('piecewise_polynomial_surrogate', 'bet/surrogates.py')],
     ['values, errors and probabilities of generated discretizations and of the input after each call'],
     'Held on thousands of seeded call sequences.', T)

prop('C21', 'Samples selected by probability are the densest and stay consistent',
     'Sorting a set or discretization by density returns exactly the samples of positive probability in order '
     'of falling density (probability when there are no volumes), and selecting a fraction of the probability '
     'from the top or the bottom, sorted or in the order given, the longest run of them whose probability '
     'does not exceed it. Values, probabilities, volumes, outputs and indices returned belong to the same '
     'samples; the argument is not changed.',
     ['inputs'],
     'all probabilities and volumes (zeros, ties, missing), fractions, and repeated selections',
     'Tests use uniform probabilities or fixed vectors with one order.',
     ['bet/postProcess/postTools.py'],
     [('sort_by_rho, sample_prob, sample_highest_prob, sample_lowest_prob', 'bet/postProcess/postTools.py')],
     ['returned sets and indices, the argument afterwards'],
     'Held on thousands of seeded sets.', T)

prop('C22', 'Distances between measures are those of their densities',
     'The distance of two measures (initial or updated, of sets or of either side of discretizations) by each '
     'named functional is the one defined by their densities at the comparison points, averaged or '
     'normalised as asked, whatever was asked before: zero for equal measures, symmetric, within range. '
     'Comparison points are those given, or uniform in the box containing both sets enlarged as '
     'asked. Distances of marginals use the interval given or the one containing both domains or sample '
     'sets, by points or by quadrature. Unusable arguments are refused.',
     ['inputs', 'histories'],
     'all measures, dimensions, comparison points, functionals, intervals and orders of calls',
     'Tests check identity and symmetry to one decimal for one pair; most did not run.',
     ['bet/postProcess/compareP.py'],
     [('compare.set_compare_set, distance, distance_marginal, distance_marginal_quad',
       'bet/postProcess/compareP.py')],
     ['distances returned after each call, comparison points'],
     'Held on thousands of seeded comparisons with closed-form densities.', T)

prop('C23', 'Marginals computed from samples hold their probability',
     'Binning a set, or the plain or emulated input of a discretization, gives each bin of every direction (or '
     'pair of directions) exactly the probability of the samples inside it (samples outside the domain count '
     'in none), and edges that divide the domain evenly into the bins asked for; smoothing gives the renormalised '
     'convolution with a Gaussian of the width asked for in each direction, centred (a symmetric marginal '
     'stays so), and leaves the raw marginals alone.',
     ['inputs'],
     'all sets, dimensions, domains, probabilities, numbers of bins and widths',
     'Tests bin one uniform grid and check a few entries.',
     ['bet/postProcess/plotP.py'],
     [('calculate_1D_marginal_probs, calculate_2D_marginal_probs, smooth_marginals_1D, smooth_marginals_2D',
       'bet/postProcess/plotP.py')],
     ['bins and marginals returned, the set afterwards'],
     'Held on thousands of seeded sets.', T)

prop('C24', 'Plots show the samples and measures they are given',
     'A figure saved by a plotting routine contains exactly the samples (or those selected), cells, marginals '
     'or densities it was asked for, at their coordinates in the directions asked for, coloured by the values '
     'given or named, with the reference points given, under the file name built from the arguments; every '
     'pair or triplet of coordinates asked for gets its own figure with nothing of another, nothing is saved '
     'when not asked, and the data is not changed.',
     ['inputs', 'histories'],
     'all sets and discretizations, dimensions, selections, colours, references and sequences of plots',
     'Tests only check that the calls do not raise.',
     ['bet/postProcess/plotDomains.py', 'bet/postProcess/plotP.py', 'bet/postProcess/plotVoronoi.py'],
     [('scatter_2D, scatter_3D, scatter_rhoD, scatter_*_multi, show_data_domain_*',
       'bet/postProcess/plotDomains.py'),
      ('plot_1D_marginal_probs, plot_2D_marginal_probs, plot_marginal', 'bet/postProcess/plotP.py'),
      ('plot_1D_voronoi, plot_2D_voronoi', 'bet/postProcess/plotVoronoi.py')],
     ['artists and file name of each figure at the moment it is saved'],
     'Held on hundreds of seeded plots per run; axis decorations are not judged.', T)

prop('C25', 'Inconsistent data is refused and what was there stays',
     'A set takes values whose shape fits its dimension (transposed if only that fits), a domain of two bounds '
     'per dimension and a reference value of its dimension, and refuses any other, keeping what it had; what is '
     'set is what is returned, and the bounding box is that of the current values; the '
     'number of samples it reports is that of all its arrays, and arrays of different lengths are '
     'reported as an error, globally and locally. Rectangles, balls and grids refuse cells of the wrong '
     'dimension or number and do not take further ones. A discretization refuses input and output values '
     'of different lengths, objects that are no sample sets, and probability or emulated sets of another '
     'dimension, and keeps the sets it had.',
     ['inputs', 'histories'],
     'all shapes, lengths, dimensions, orientations and orders of setting',
     'Tests try one wrong shape for a few setters and never look at the state left behind.',
     ['bet/sample.py'],
     [('set_values, set_values_local, set_domain, set_reference_value, check_num, check_num_local, setup, '
       'append_*', 'bet/sample.py'),
      ('discretization: check_nums and setters', 'bet/sample.py')],
     ['stored arrays and sets after every accepted or refused call; numbers reported'],
     'Held on thousands of seeded call sequences.', T)

prop('C26', 'Array helpers keep every number and give the shape documented',
     'The grid of up to ten coordinate vectors contains every combination of their entries once, the last coordinate '
     'running fastest; vectors, columns, domains and data keep every number in order in the shape (N,), '
     '(N,1), (dim,2) or (N,dim) whatever container or memory layout they come in, and a domain that fits no '
     'such shape is refused; cleaning replaces NaN by zero and infinities by the largest number of '
     'their sign and nothing else. No helper changes its argument.',
     ['inputs'],
     'all numbers, lists, tuples and arrays of any layout',
     'Tests check shapes of a few arrays.',
     ['bet/util.py'],
     [('meshgrid_ndim, fix_dimensions_vector, fix_dimensions_vector_2darray, fix_dimensions_domain, '
       'fix_dimensions_data, clean_data', 'bet/util.py')],
     ['returned arrays and the argument afterwards'],
     'Held on thousands of seeded arguments.', T)

prop('C27', 'Learned quantities stay with the samples they were learned from',
     'The learner is given the model output of the prediction and of the observation samples (or the series '
     'set by hand) at the times asked for, and every learning step the arguments given; the discretizations '
     'made pair the prediction inputs with the labels and transformed data of the predictions and, as observed '
     'set, those of the observations, and the observation inputs (if any) with theirs; after learning again '
     'or saving and loading they show what was learned then. They can be inverted as they are. A missing '
     'package is reported.',
     ['inputs', 'histories'],
     'all prediction and observation sets, numbers of clusters and quantities, and orders of steps',
     'The tests are skipped where LUQ is not installed, as here, and check dimensions only.',
     ['bet/sampling/useLUQ.py'],
     [('useLUQ.setup, initialize, make_disc, save', 'bet/sampling/useLUQ.py')],
     ['calls received by a recording stand-in of LUQ, sets of the discretizations made'],
     'Held on hundreds of seeded histories against a stand-in of the LUQ package.', T)

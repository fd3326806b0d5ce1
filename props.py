"""property table: source of properties.jsonl and MANIFEST.json (see gen.py)"""
VG = "static value-graph analysis: abstract interpretation of the syntax tree into index-notation terms, compared with a specification term"
NOTE = ("Decided from the source text alone for symbolic data; axis extents, numbers of devices and processes stay symbolic. "
        "A difference is reported only if it is witnessed by an interpretation of the terms; anything the analysis cannot follow is printed as UNDECIDED, never as a violation.")

PROPS = [
 dict(id="C02", title="Global reductions equal weighted statistics over all processes and devices",
      statement="The global sum, mean, variance and covariance of per-sample data equal the corresponding probability-weighted statistics of the union of the samples held by all processes and all of their devices, whatever the split of samples across processes, devices and batch. Gathering returns every sample exactly once in the order of processes, devices and batch entries. Every process obtains the same result.",
      over=["inputs", "configurations"], q="all real or complex data arrays, all normalised weights, all numbers of processes, devices and samples per device, scalar, vector and matrix valued observations",
      why="The tests run on one process with the devices of one host and a few fixed arrays; they cannot vary the number of processes nor all shapes and weights.",
      files=["jVMC/mpi_wrapper.py"], mech=[("global_sum/global_mean/global_variance/global_covariance/gather", "jVMC/mpi_wrapper.py")],
      obs=["return values of the reductions"], tech=VG, note=NOTE),
 dict(id="C03", title="Sampled observables report the statistics of the data they stand for",
      statement="Mean, variance, covariance, per-sample covariance data, variance of the covariance and tangent kernel of a sampled observable equal the weighted statistics of its observations over all processes and devices. Transforming, selecting components of, or restricting to a subset of samples yields an observable whose statistics are those of the transformed, selected or renormalised subset data. Re-evaluating an estimator for new parameters updates all statistics.",
      over=["inputs", "histories"], q="all observation arrays (scalar, vector, matrix valued), positive normalised weights, device and process counts, index selections, and sequences of derived observables",
      why="Unit tests compare a handful of random arrays on a single process; they never vary the number of processes nor chains of transformations.",
      files=["jVMC/stats.py", "jVMC/mpi_wrapper.py"], mech=[("SampledObs", "jVMC/stats.py")], obs=["SampledObs methods"], tech=VG, note=NOTE),
 dict(id="C14", title="Operator strings act as the weighted products of their local factors",
      statement="For every configuration, an operator assembled from strings of local operators yields connected configurations and matrix elements that equal the sum over strings of prefactor times the product of the local actions, rightmost factor first. Fermionic factors contribute the sign of the occupied modes behind them so that the predefined creation and annihilation operators satisfy the canonical anticommutation relations, and the predefined spin operators act as documented. Scalar and time-dependent prefactors multiply their own string, however the string was built with products, on any lattice shape and for any number of processes that share the prefactor evaluation.",
      over=["inputs", "programs"], q="all strings, local tables, prefactors, lattice shapes, local dimensions, configurations and process counts",
      why="The tests check a few Hamiltonians on small chains with fixed strings; they cannot cover arbitrary tables, orders, prefactor combinations or the parallel prefactor path.",
      files=["jVMC/operator/branch_free.py"], mech=[("BranchFreeOperator.compile, OpStr, LocalOp", "jVMC/operator/branch_free.py")],
      obs=["connected configurations and matrix elements"], tech=VG, note=NOTE),
 dict(id="C15", title="Local estimators equal the sum over connected configurations",
      statement="For every configuration the local estimator of an operator equals the sum over connected configurations of matrix element times the ratio of wave-function amplitudes, for logarithmic and plain amplitudes, whether the amplitude of the configuration is supplied or computed, and with any run-time arguments of the operator. The result does not depend on the batch size used for the evaluation, also if the batch size does not divide the number of samples, nor on estimators evaluated before with other arguments. The differentiable estimator function agrees with it.",
      over=["inputs", "configurations", "histories"], q="all operators, wave functions, configurations, run-time arguments, sample counts, batch sizes, device and process counts, and sequences of evaluations",
      why="The tests evaluate a few Hamiltonians with one batch size; remainders of batches, operators with arguments and repeated evaluation with different arguments are not sampled.",
      files=["jVMC/operator/base.py"], mech=[("Operator.get_O_loc, get_O_loc_batched, get_s_primes, get_estimator_function", "jVMC/operator/base.py")],
      obs=["local estimators"], tech=VG, note=NOTE + " Batched evaluation is unrolled for a list of sample counts and batch sizes; three connected configurations per configuration."),
 dict(id="C10", title="Parameter vector and network parameters are in one-to-one correspondence",
      statement="The vector returned by get_parameters contains every real degree of freedom of the network parameters exactly once. Setting a vector and reading it back returns the same vector, setting the vector that was read restores the network parameters, and updating adds the increment entry by entry. Other variable collections of the network stay as they are. Evaluation, gradients, the sampler function and direct sampling use the parameters that were set last.",
      over=["inputs", "histories"], q="all parameter values and increments, real and complex networks, nested parameter trees of any order of names, and sequences of set, update and evaluation",
      why="The tests check individual networks with a single vector; they do not establish the bijection for all values, nested trees, complex leaves and repeated updates.",
      files=["jVMC/vqs.py"], mech=[("NQS.get_parameters, set_parameters, update_parameters, params", "jVMC/vqs.py")], obs=["NQS.get_parameters", "NQS.parameters"], tech=VG,
      note=NOTE + " The parameter tree of the stub network is fixed (four leaves of rank 0 to 3, symbolic entries)."),
 dict(id="C11", title="Gradients are derivatives with respect to the parameter vector entries",
      statement="Entry k of the gradient of a configuration is the derivative of the log-amplitude of that configuration with respect to entry k of the vector returned by get_parameters, for real networks, complex functions of real parameters, holomorphic networks and complex non-holomorphic networks. Dictionary gradients placed at the positions given by the index map form the same vector. The gradient of the mean of an estimator equals the covariance of twice the real part of the log-derivative with the estimator plus the mean derivative of the estimator, in the same order.",
      over=["inputs", "configurations"], q="all network functions, parameters and configurations of the four parameter kinds, all weights, device and process counts",
      why="Tests compare finite differences for a few networks and a small tolerance; order, sign and conjugation for the other parameter kinds and multi-leaf trees are not covered.",
      files=["jVMC/vqs.py", "jVMC/stats.py"], mech=[("NQS.gradients, gradients_dict, grad_dict_to_vec_map; SampledObs.mean_and_grad", "jVMC/vqs.py, jVMC/stats.py")], obs=["gradient arrays"], tech=VG,
      note=NOTE + " jax.grad is modelled by its documented convention (d/dx - i d/dy); the derivative of the network is an uninterpreted function. Whether a network is holomorphic is decided in the source by a norm test, which is taken to be exact."),
 dict(id="C12", title="Batched evaluation is independent of the batch size",
      statement="Evaluating the wave function or its gradients for a set of configurations yields, for each configuration in its place, the value for that configuration alone, whatever the batch size, also if the batch size does not divide the number of configurations or exceeds it.",
      over=["inputs", "configurations"], q="all networks, configurations, device counts, and pairs of sample count and batch size (a grid of ten pairs is unrolled)",
      why="Tests use one batch size per network.", files=["jVMC/vqs.py"], mech=[("create_batches, eval_batched, NQS.__call__, NQS.gradients", "jVMC/vqs.py")],
      obs=["amplitudes and gradients"], tech=VG, note=NOTE + " Sample counts and batch sizes are unrolled on a grid."),
 dict(id="C05", title="The requested number of samples is distributed and reported consistently",
      statement="Distributing a number of basis states over processes assigns every process a consecutive range such that the ranges are disjoint and cover all states. Sampling N configurations delivers, over all processes and devices together, at least N samples and less than one extra unit per device (the unit is one sample per Markov chain, rounded up to the requested multiple); the number per device is a multiple of the requested multiple; the number reported afterwards is the number delivered; and configurations, amplitudes and weights come in equal number. The default number of samples is the one set last.",
      over=["inputs", "configurations"], q="all requested numbers, chain counts, multiples, and numbers of processes and devices (terms symbolic in the request; evaluated on a grid of 1-4 processes, 1-3 devices and requests up to 61)",
      why="The tests run a single process, where every distribution is trivially complete.",
      files=["jVMC/mpi_wrapper.py", "jVMC/sampler.py"], mech=[("distribute_sampling, first_sample_id", "jVMC/mpi_wrapper.py"), ("MCSampler.sample", "jVMC/sampler.py")], obs=["numbers of samples"],
      tech=VG, note=NOTE + " The size terms are extracted for symbolic request, process and device counts and compared by evaluation on a grid."),
 dict(id="C06", title="Random draws never share a key between uses, chains, devices or processes",
      statement="Every pseudo-random draw uses a key of its own. Within one call and over successive calls of sample no two draws share a key, nor do draws for different Markov chains, devices or processes (unless the keys were set to be equal by the caller). A key is not reused after it was split. The seed given by the user determines all draws, and identical setup gives identical draws. Each built-in update proposal uses independent keys for its draws. Parameter initialisation yields the same parameters on all processes and devices.",
      over=["inputs", "histories", "configurations"], q="all seeds, numbers of processes, devices and chains, Markov-chain and direct sampling, sequences of up to three calls of sample",
      why="A test cannot observe that two draws coincide unless it happens to compare them; correlated chains or processes still produce plausible averages.",
      files=["jVMC/sampler.py", "jVMC/vqs.py"], mech=[("MCSampler.sample, _get_samples_gen, _get_samples_mcmc, _sweep, set_random_key; propose_*", "jVMC/sampler.py"), ("NQS.init_net", "jVMC/vqs.py")], obs=["keys passed to jax.random"],
      tech="static key-linearity analysis: the key term of every draw site is extracted by abstract interpretation and all pairs of draws (over chains, devices, processes and calls) are compared", note=NOTE),
 dict(id="C07", title="Markov chains leave the target distribution invariant; weights match it",
      statement="A Markov-chain update replaces the configuration of a chain by its own proposal with probability min(1, (|psi(new)|/|psi(old)|)^mu) for the parameters in force and keeps it otherwise, chain by chain, and the stored log-probability is always that of the current configuration and parameters. Between two samples of a chain exactly the configured number of updates per sweep is performed, and the configured number of sweeps for thermalisation before the first. Samples are returned with the amplitude of that very configuration and with weights proportional to |psi|^(1/logProbFactor - mu), normalised over all processes and devices; direct sampling has uniform weights. Given parameters are used for the sampling only. Acceptance counts match the decisions taken.",
      over=["inputs", "histories", "configurations"], q="all wave functions, proposals, random draws, exponents mu, factors, numbers of chains, sweeps, samples, devices and processes, sequences of calls",
      why="Deviations from detailed balance or stale cached probabilities bias averages by amounts below the statistical tolerance of the tests.",
      files=["jVMC/sampler.py"], mech=[("MCSampler.sample, _get_samples_mcmc, _sweep, _mc_init", "jVMC/sampler.py")], obs=["samples, amplitudes, weights"], tech=VG, note=NOTE + " Chains, samples, sweeps and updates per sweep are unrolled for small numbers."),
 dict(id="C08", title="Built-in update proposals are valid, symmetric and reach every configuration",
      statement="The built-in update proposals map valid configurations of their kind (spin flip and Z2: values 0 and 1; POVM outcomes: 0 to 3; zero magnetisation: half of the sites of a two-dimensional lattice occupied) to valid configurations of the same shape. The probability to propose t from s equals that to propose s from t, and repeated proposals reach every configuration of the sector.",
      over=["inputs", "configurations"], q="all configurations and all random draws, on a list of one- and two-dimensional lattice shapes",
      why="The tests check averages of sampled observables with a statistical tolerance for one lattice; an asymmetric or incomplete proposal on other shapes goes unnoticed.",
      files=["jVMC/sampler.py"], mech=[("propose_spin_flip, propose_POVM_outcome, propose_spin_flip_Z2, propose_spin_flip_zeroMag", "jVMC/sampler.py")], obs=["proposed configuration"],
      tech=VG + "; the transition matrix of the extracted term is tabulated", note=NOTE + " Lattices with up to six sites (quick)."),
 dict(id="C09", title="Temporary parameters used in computations are restored",
      statement="Sampling with given parameters (Markov chains, direct sampling, exact enumeration), and evaluating the TDVP or minSR right-hand side for given parameters, leaves the wave function afterwards with the parameters it had before the call, and the results of the call are those for the given parameters.",
      over=["inputs", "histories"], q="all parameter vectors and sequences of calls with and without given parameters",
      why="Tests look at the returned values, not at the state of the wave function after sequences of calls.",
      files=["jVMC/sampler.py", "jVMC/util/tdvp.py", "jVMC/util/minsr.py"], mech=[("MCSampler.sample, ExactSampler.sample", "jVMC/sampler.py"), ("TDVP.__call__", "jVMC/util/tdvp.py"), ("MinSR.__call__", "jVMC/util/minsr.py")], obs=["NQS.parameters"], tech=VG, note=NOTE),
 dict(id="C24", title="Exact enumeration covers every basis state once with its exact probability",
      statement="The exact sampler returns, over all processes and devices together, every basis state of the lattice with a total weight equal to its exact normalised probability |psi(s)|^(1/logProbFactor) for the current parameters, each with its own amplitude, and no other configuration carries weight, also if the number of states is not divisible by the number of processes or devices, and in repeated calls after changes of the parameters.",
      over=["inputs", "configurations", "histories"], q="all wave functions and parameters; process and device counts 1-3; lattices with up to three sites and local dimension up to four",
      why="The tests use a single process and a number of states divisible by the number of devices.",
      files=["jVMC/sampler.py"], mech=[("ExactSampler", "jVMC/sampler.py")], obs=["configurations, amplitudes, weights"], tech=VG, note=NOTE),
 dict(id="C17", title="Integrators perform the documented integration steps",
      statement="The Euler and Heun integrators return y + dt f and y + dt (k0 + k1)/2 with k1 evaluated at t + dt and y + dt k0, together with the time step taken. The adaptive integrator returns the result of two consecutive half steps of the Heun rule and the time step it actually took; a step is accepted only if the distance to the single full step in the given norm does not exceed the tolerance; the next step is the accepted one times clip(0.9 (tol/err)^(1/3), 0.2, 2), capped by the maximal step; rejected attempts leave no trace in the result. The right-hand side gets the current state and time, the arguments of the caller, and the number 0 as integration step exactly at the beginning of a step.",
      over=["inputs", "histories"], q="all right-hand sides, states, times, norms, tolerances, and histories of accepted and rejected attempts (up to three attempts per step, two consecutive steps)",
      why="The tests integrate one ODE and compare the final state with a tolerance; wrong evaluation times for time-dependent right-hand sides, wrong bookkeeping of the step and unlucky rejections are not sampled.",
      files=["jVMC/util/stepper.py"], mech=[("Euler.step, Heun.step, AdaptiveHeun.step, minNorm", "jVMC/util/stepper.py")], obs=["returned state, step and the arguments of the right-hand side"], tech=VG, note=NOTE + " The loop of the adaptive integrator is unrolled over all outcomes of up to three attempts."),
 dict(id="C18", title="TDVP and minSR solve the documented equations",
      statement="The TDVP equation handed out and solved has S = R[Cov(O,O)] with the relative diagonal shift and F = R[-x Cov(O, E_loc)], R being the real part or i times the imaginary part as requested and x the prefactor of the instance (1 for the SR equation). The update is the solution of S u = F in the eigenbasis of S with the documented signal-to-noise and pseudo-inverse regularisation, where the cutoff is the first in the sequence that meets the residual tolerance. Reported energy, variance, signal-to-noise ratio, spectrum and TDVP error belong to the latest evaluation at integration step 0; cross validation does not change the result. The minSR update is -O^+ pinv(O O^+) e with centred, weighted O and e. The ground-state search performs the requested number of steps unless the variance falls below the threshold, and reduces the diagonal shift by 5 percent per step.",
      over=["inputs", "configurations", "histories"], q="all local energies, gradients, weights, prefactors, shifts, tolerances, numbers of samples, devices and processes; sequences of evaluations with different integration-step numbers",
      why="The tests run the complete time evolution of one small chain and compare with a tolerance; sign, conjugation, regularisation and bookkeeping errors in other configurations do not show.",
      files=["jVMC/util/tdvp.py", "jVMC/util/minsr.py", "jVMC/util/util.py"], mech=[("TDVP", "jVMC/util/tdvp.py"), ("MinSR", "jVMC/util/minsr.py"), ("ground_state_search", "jVMC/util/util.py")], obs=["update vector and recorded quantities"], tech=VG,
      note=NOTE + " Eigendecomposition and pseudo-inverse are uninterpreted functions of the matrix."),
 dict(id="C25", title="Measurements report mean, variance and standard error of each observable",
      statement="Measuring a set of operators returns for every name, in the order of its operators, the real part of the weighted mean of the local estimator over all samples of all processes and devices, its variance, and the standard error sqrt(variance)/sqrt(number of samples), with the arguments given for each operator and the requested number of samples. POVM measurements report the same statistics for each observable, and connected correlations <o_i o_j> - <o>^2 with their own variance and error, for sampled or given configurations. The ground-state search records the observables of the parameters after exactly the number of steps they are labelled with.",
      over=["inputs", "configurations"], q="all operators, arguments, wave functions, samples, weights, sample numbers, device and process counts; lists, single operators and tuples with arguments",
      why="The tests look at the mean of one or two observables on a single process and hardly at variances, errors and operators with arguments.",
      files=["jVMC/util/util.py", "jVMC/operator/povm.py"], mech=[("measure, ground_state_search", "jVMC/util/util.py"), ("measure_povm", "jVMC/operator/povm.py")], obs=["result dictionaries"], tech=VG, note=NOTE),
 dict(id="C19", title="POVM operators and observables represent the given quantum operators",
      statement="The conversion of a matrix to the POVM formalism yields the documented unitary, dissipative, imaginary-time and observable maps for any measurement operators, and the predefined operators are those of the Pauli matrices, their products and the documented jump operators. The measurement operators form a symmetric informationally complete POVM for all angles. Product-state distributions are the outcome probabilities of the named states. A POVM operator connects each configuration exactly with the configurations, and with the total matrix elements, given by the sum of strength times local map of all added terms, however terms overlap, on any sites and in any order, also after further terms were added. Observables of a configuration are site averages and translation-averaged correlations. Operators added to a POVM are available afterwards and existing names are refused.",
      over=["inputs", "programs"], q="all matrices, angles, strengths, local maps (symbolic entries) and states; term lists with one- to three-site terms on two to four sites; one- and two-dimensional lattices",
      why="The tests evolve one Lindblad equation and compare magnetisations with a tolerance; other term combinations, orders of sites and angles are not sampled.",
      files=["jVMC/operator/povm.py"], mech=[("matrix_to_povm, get_M, POVM, POVMOperator.compile", "jVMC/operator/povm.py")], obs=["matrices, connected configurations and matrix elements"], tech=VG, note=NOTE + " Term lists and lattices are enumerated; maps with two sites are checked with rational measurement operators without structure."),
 dict(id="C20", title="Output files hold what was written, row by row with its time",
      statement="Every call that writes observables, metadata or a network checkpoint (with a fixed set of names) appends to the data set of each quantity exactly one row with the given values, and one row with the given time, at the same position; earlier rows are never changed. Groups are separate from each other and from the root. Opening with append keeps what is in the file, opening without it replaces the file once, at construction only. Only the first process (or the process named by the caller) touches the file. A checkpoint is restored by index, by nearest time, or the latest, with its own time, identically on all processes. Timings accumulate over start/stop pairs per name, and printing happens on the first process only.",
      over=["inputs", "histories", "configurations"], q="all written values and times; histories of up to five writes with changes of the group, with and without existing files; one and two processes",
      why="The tests do not cover the output manager at all.",
      files=["jVMC/util/output_manager.py"], mech=[("OutputManager", "jVMC/util/output_manager.py")], obs=["content of the HDF5 file, returned checkpoints, printed text"], tech=VG + "; the HDF5 library is replaced by a model of groups and data sets",
      note=NOTE + " Histories are enumerated; the HDF5 library and MPI are modelled. Rows of observables that first appear in a later write are not covered."),
 dict(id="C01", title="Processes communicate in lockstep and agree on global results",
      statement="In every operation of the library all MPI processes perform the same sequence of collective operations with matching operation, root and data size, and whether a process takes part never depends on its rank or on data that differ between processes, also if processes hold different numbers of samples or states. Hence no operation can deadlock, and what is documented as a global result (sums, means, variances, covariances, gathered data, sampled-observable statistics, measurements, energies, parameter updates, acceptance ratio, broadcast data and restored checkpoints) is the same on all processes.",
      over=["configurations", "inputs", "schedules"], q="all data; two and three processes with equal and unequal numbers of samples; reductions, statistics, samplers, operators with batched evaluation, measurements, TDVP, minSR, ground-state search, checkpoints",
      why="The tests run a single process, where every collective operation is trivially matched.",
      files=["jVMC/mpi_wrapper.py", "jVMC/stats.py", "jVMC/sampler.py", "jVMC/operator/base.py", "jVMC/util/util.py"], mech=[("global_sum, global_mean, global_variance, global_covariance, gather, bcast_unknown_size", "jVMC/mpi_wrapper.py"), ("Operator.get_O_loc, get_O_loc_batched", "jVMC/operator/base.py"), ("MCSampler.sample, acceptance_ratio, ExactSampler.sample", "jVMC/sampler.py")],
      obs=["collective calls and their arguments per process, results per process"], tech="static communication analysis: every entry point is interpreted abstractly once per process with a concrete rank; the extracted sequences of collective operations (operation, root, size, path condition) and the result terms are compared between processes", note=NOTE + " Results of collective operations are shared symbols; process numbers 2 and 3 and sample numbers are enumerated."),
 dict(id="C16", title="Symmetry orbits are the named groups; SymNet averages over the whole orbit",
      statement="The orbit of a chain or a square lattice contains every element of the group generated by the chosen operations (translations, reflections, 90 degree rotations, spin flip) exactly once, as a signed permutation of the sites in the +1/-1 coding, for every lattice size, choice and order of the names, and assigns to each element the product of the given quantum-number factors (if these form a representation). A symmetrised network returns, up to a constant independent of configuration and parameters, the logarithm of the sum over the whole orbit of factor times the plain amplitude of the transformed configuration (or the documented alternative averages), for configurations of any shape, and the state built with an orbit uses exactly this network, orbit and average; hence symmetry-related configurations have the same amplitude up to the factor. Samples generated directly from a symmetrised network are transformed by an operation drawn uniformly from the orbit, acting on configurations as in the network.",
      over=["inputs", "configurations"], q="chains of 1 to 5 and square lattices of 2x2 to 4x4 sites with all choices of symmetries, factors +1, -1 and i; all networks, configurations and factors for the symmetrised amplitude",
      why="The tests build a few orbits with unit factors and count their elements.",
      files=["jVMC/util/symmetries.py", "jVMC/nets/sym_wrapper.py", "jVMC/sampler.py"], mech=[("get_orbit_1D, get_orbit_2D_square", "jVMC/util/symmetries.py"), ("SymNet, avgFun_*", "jVMC/nets/sym_wrapper.py"), ("MCSampler._randomize_samples", "jVMC/sampler.py")], obs=["orbit matrices and factors, log-amplitudes, samples"],
      tech=VG + "; orbits are evaluated to integer tables and compared with the closure of the named generators", note=NOTE + " Lattice sizes are enumerated; networks are uninterpreted functions."),
 dict(id="C23", title="Autoregressive nets are normalised and sample their own distribution",
      statement="Recurrent networks in one and two dimensions, for every lattice size, local dimension, depth, cell type, cell function, phase layer and amplitude exponent, define a normalised distribution: the sum over all configurations of |psi| to the power 1/logProbFactor is one, each conditional depends only on sites visited earlier, and the phase does not change the distribution. The direct sampler draws every site from exactly the conditional distribution that the log-amplitude assigns, along the same path over the lattice, with a fresh independent random key for every site and every sample, so that generated samples follow |psi| to the power 1/logProbFactor.",
      over=["inputs", "configurations"], q="all parameters and random keys (layers are uninterpreted functions or explicit affine maps); chains of 2 to 4 and lattices of 2x2 sites, local dimension 2 and 3, depth 1 and 2, RNN, GRU, LSTM and custom cells, real and complex output",
      why="The tests compare sampled frequencies on one small chain and lattice within a statistical tolerance and sum the probabilities for one parameter choice.",
      files=["jVMC/nets/rnn1d_general.py", "jVMC/nets/rnn2d_general.py"], mech=[("RNN1DGeneral", "jVMC/nets/rnn1d_general.py"), ("RNN2DGeneral", "jVMC/nets/rnn2d_general.py")], obs=["log-amplitudes, conditional logits of every drawn site, keys"],
      tech=VG, note=NOTE + " Lattice sizes, depths and cells are enumerated. Complex parameters are a known finding."),
 dict(id="C26", title="Network architectures compute the documented functions",
      statement="For all parameters and configurations: restricted Boltzmann machines return the sum over hidden units of log cosh of the affine map of the spins (complex ones up to multiples of 2 pi i, stable for large arguments of either sign), feed-forward networks the composition of their layers with the given activation functions (the last one repeated), biases and widths, convolutional networks the sum of the outputs of their convolution layers, with periodic or zero boundary and biases as chosen, over the root of their number. With periodic boundaries and unit strides convolutional networks are invariant under all translations; the orbit-averaged network is the mean over the orbit acting on +1/-1 spins. A pair of networks has the first as logarithmic modulus and the second as phase, and samples with the first. Polynomial activations are the series of log cosh and tanh.",
      over=["inputs", "configurations"], q="all parameters and configurations (symbolic weights and entries); chains of 1 to 4 sites and lattices up to 2x3, up to three layers, filters up to 3, strides 1 and 2, with and without biases, one to three activation functions",
      why="The tests evaluate translations of two configurations and single values of a few networks with fixed seeds.",
      files=["jVMC/nets/rbm.py", "jVMC/nets/ffn.py", "jVMC/nets/cnn.py", "jVMC/nets/two_nets_wrapper.py", "jVMC/nets/activation_functions.py"], mech=[("RBM, CpxRBM, CpxRBM_Nospinflip", "jVMC/nets/rbm.py"), ("FFN", "jVMC/nets/ffn.py"), ("CNN, CpxCNN, CpxCNNSym", "jVMC/nets/cnn.py"), ("TwoNets", "jVMC/nets/two_nets_wrapper.py"), ("log_cosh, poly5, poly6", "jVMC/nets/activation_functions.py")], obs=["network outputs"],
      tech=VG, note=NOTE + " Dense and convolution layers are modelled as the affine maps of the flax documentation with symbolic weights; sizes are enumerated. Initial parameter values are not covered."),
 dict(id="C22", title="States made from a description are the described ones",
      statement="init_net(descr, dims, seed) returns an initialised variational state for configurations of shape dims that consists of the described network type with exactly the given parameters (others at their defaults) and the named activation functions in the given order, or of net1 as logarithmic modulus and net2 as phase. It is symmetrised over the group of the named symmetries of the chain or square lattice with the given factors (one if none is given), averaging coefficients, or moduli and phases separately if the modulus network generates samples; direct sampling is available exactly in that case. Batch size and seed are the given ones. The description is not changed and yields the same state when it is used again.",
      over=["inputs", "configurations", "histories"], q="all network types, pairs of networks, choices of symmetries and factors on chains and square lattices, repeated use",
      why="The tests build one state from a description, with one network and without symmetries.",
      files=["jVMC/util/util.py", "jVMC/nets/activation_functions.py", "jVMC/nets/sym_wrapper.py", "jVMC/nets/two_nets_wrapper.py"], mech=[("init_net", "jVMC/util/util.py"), ("activationFunctions", "jVMC/nets/activation_functions.py")], obs=["returned state and its network, orbit, batch size, seed"],
      tech="abstract interpretation of the source; the object graph of the result is compared with the description, activation functions and averages as terms, orbits with the closure of the generators", note=NOTE + " Descriptions are enumerated."),
 dict(id="C04", title="Parallel computations run on the devices selected last",
      statement="After devices were selected, and after every later change of the selection, every parallel computation of reductions and sampled-observable statistics, and of variational states, samplers and operators made after the selection, runs on exactly the selected devices, also if a former selection of the same size, a subset of it, or the first selection returns. Device count, device list and default device agree with the selection.",
      over=["histories", "configurations"], q="histories of six selections of one to four devices, each followed by every reduction, statistic, network evaluation, gradient, sampling and local estimator",
      why="The tests use one device and never change the selection.",
      files=["jVMC/global_defs.py", "jVMC/mpi_wrapper.py", "jVMC/stats.py", "jVMC/vqs.py", "jVMC/sampler.py", "jVMC/operator/base.py"], mech=[("set_pmap_devices, pmap_devices_updated", "jVMC/global_defs.py"), ("jit_my_stuff", "jVMC/mpi_wrapper.py"), ("jit_my_stuff", "jVMC/stats.py")], obs=["device argument of every mapped function that is called"],
      tech="abstract interpretation of the source over histories of device selections; the device set with which every called mapped function was made is compared with the current selection", note=NOTE + " Selections are enumerated; objects made before a change of the selection are not covered."),
]

NA = []

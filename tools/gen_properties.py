"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

A = "acetn/"
prop("C01", "Spin-operator expressions denote the exact operator",
 "Every expression built from the provided spin operators by tensor products (also in place), sums, differences, negation, scaling and division yields exactly the operator it denotes: in complex precision always, and in real precision whenever all terms added together contain an even (or all an odd) number of Y factors and the result is even. In real precision the result equals the true real operator, including the sign of products of Y operators and of products of sums of them. Evaluating an expression never changes its operands.",
 ["programs", "configurations"], "all expression trees up to a depth over X, Y, Z, I, scalars, and every floating and complex dtype",
 "The tests evaluate a handful of single products; the sign rule for real-precision Y operators depends on the whole expression tree.",
 [A+"model/pauli_matrix.py"], [("operator overloads and Y-parity sign rule", "PauliMatrix")], ["matrix of the resulting operator"])

prop("C02", "Trotter gates together carry exactly the model's Hamiltonian",
 "For every model, unit cell and time step, the generators of the two-site gates used in one evolution step add up to the whole Hamiltonian: every bond term once and every site term once in total, oriented as the bond, also when only some sites have a one-site term, when a term depends on its site or bond, and when terms are plain tensors rather than spin operators. Building gates leaves the model's own operators unchanged, however often it is repeated, and never affects gates built earlier for another model or time step.",
 ["inputs", "configurations", "histories"], "all unit cells up to a size, all subsets of sites carrying one-site terms, operator representations, dtypes, and repeated gate constructions sharing models",
 "Tests build gates for one built-in 2x2 model and never compare them with the Hamiltonian; missing terms only shift energies.",
 [A+"evolution/gate.py", A+"evolution/evolve.py"], [("one-site terms spread over the four bonds of a site", "Gate.build_two_site_gates"), ("matrix exponential", "Gate.calculate_gate")])

prop("C03", "Each network evolves and measures with its own current model",
 "After any sequence of model selections, parameter changes and registrations on several networks, measuring and evolving a network uses exactly the model class and the parameter values last chosen for that network, whether selected by name, by class, or passed explicitly for one call. Measuring or evolving without a model, with an unknown name, or registering a class that is not a model raises an error and leaves earlier choices intact. The parameter set a caller passed in is never modified.",
 ["histories"], "all operation sequences up to a depth over two networks: choose model (named or unnamed), change parameters, register, measure, evolve",
 "Tests create one model per process; the interaction is through a process-wide registry and shared parameter sets.",
 [A+"ipeps/ipeps.py", A+"model/model_factory.py", A+"ipeps/ipeps_config.py"],
 [("registry of model classes", "ModelFactory"), ("set_model / set_model_params", "Ipeps")])

prop("C04", "Copies and independent networks never influence one another",
 "A copy, a conversion to another precision, or a network built from another one holds equal tensors, sizes and bond order at that moment. Afterwards no operation on one network (assigning tensors, in-place changes of tensors obtained from it, renormalizing, evolving, changing the boundary dimension or parameters, saving or loading) changes any tensor, size, bond order or parameter of another, not even of a network built from the same configuration, and the caller's configuration is never modified. Assigning a tensor stores its value, so changing the source afterwards has no effect.",
 ["histories"], "all operation sequences up to a depth over up to three networks with every pair checked for interference after every operation",
 "Unit tests check one copy at a time; interference needs two live networks and a particular order of operations.",
 [A+"ipeps/tensor_network.py", A+"ipeps/site_tensor.py", A+"ipeps/ipeps.py", A+"ipeps/ipeps_config.py"],
 [("per-network tensor storage", "TensorNetwork.__init__"), ("clone on assignment", "SiteTensor.__setitem__"), ("own dims and params", "TNConfig/ModelConfig.__post_init__")],
 state=[("site tensors", "tensors of each site by coordinates", "TensorNetwork")])

prop("C05", "Saved states load back exactly; failed loads change nothing",
 "Loading a saved network restores every site, corner and edge tensor bit for bit (converted to the precision of the loading network), whatever sequence of evolution, renormalization and boundary-dimension changes preceded the save, and repeatedly. Saving does not change the saved network or how it behaves afterwards. Loading a missing or truncated file raises an error, and a load that raises leaves every tensor of the network as it was.",
 ["histories", "crash_points", "fault_sequences"], "all short histories before the save, all dtype pairs, and every truncation point of the saved file (as left by a crash during the save) within the bounds",
 "Tests load three intact files into one kind of network; they never save after a history nor load a damaged file.",
 [A+"ipeps/tensor_network.py"], [("save / load", "TensorNetwork.save, TensorNetwork.load")])

prop("C06", "Evolution starts from the model state once, then continues",
 "The first evolution of a fresh network starts from the product state the model prescribes for each site (up to the small initial noise). Every evolution of a network that was loaded, built from another network, or evolved before continues from the tensors it holds, with zero steps leaving all site tensors untouched. Measuring, renormalizing, saving, copying and changing the model, its parameters or the boundary dimension never alter the site tensors, nor decide whether the next evolution starts afresh.",
 ["histories"], "all operation sequences up to a depth over construct, evolve, measure, renormalize, save, load, change model or boundary dimension",
 "Tests only load a converged state and evolve it once.",
 [A+"ipeps/ipeps.py", A+"ipeps/tensor_network.py", A+"ipeps/site_tensor.py"],
 [("initialization flag", "Ipeps.evolve, TensorNetwork.load"), ("product-state initialization", "SiteTensor.initialize_site_tensor")])

prop("C07", "The lattice is a torus and every bond is updated once per step",
 "The list of sites holds every site of the unit cell once and the list of bonds holds every nearest-neighbour pair of the periodic cell exactly once with the direction that leads from its first to its second site. Every evolution step updates every bond exactly once with the gate of that bond, for any unit cell of at least two sites per direction, number of steps and update scheme, and afterwards the list still holds the same bonds. Consecutive steps traverse the bonds in opposite order.",
 ["configurations", "histories"], "all unit cells up to a size, update schemes and step counts, with every gate application observed",
 "All tests use 2x2 cells, where both neighbours of a site coincide, so a wrong neighbour or direction is invisible.",
 [A+"ipeps/tensor_network.py", A+"evolution/evolve.py", A+"ipeps/bond.py"],
 [("site and bond lists", "TensorNetwork.build_bond_list"), ("evolution loop", "evolve")])

prop("C08", "Full-update evolution is exact when the result is representable",
 "Whenever the evolved state fits into the available bond dimension, full-update imaginary-time evolution yields exactly (up to normalization, gauge and numerical accuracy) the state obtained by applying the step's gates to the initial state. This holds for every unit cell of at least two sites per direction, every bond direction, real and complex precision, site- and bond-dependent Hamiltonians, and every choice of linear solver, gauge fixing and boundary settings. When truncation is needed, the updated pair is a stationary point of its distance to the gated pair in the metric of the surrounding boundary. The updated site tensors stay finite and normalized.",
 ["inputs", "configurations", "histories"], "all unit cells, bond directions, Hamiltonian families (one-site, diagonal, generic single bonds, generic on all bonds), solver options and dtypes within the bounds",
 "Tests compare one step of one stored real 2x2 state with stored numbers; orientation, site-dependent terms, other cells and complex numbers are never exercised.",
 [A+"evolution/full_update.py", A+"evolution/fast_full_update.py", A+"evolution/als_solver.py", A+"evolution/tensor_update.py", A+"evolution/evolve.py"],
 [("reduced-tensor update", "FullUpdater.tensor_update"), ("norm tensor", "build_norm_tensor"), ("bond permutations", "TensorUpdater.update")])

prop("C09", "Simple-update evolution is exact when the result is representable",
 "Whenever the evolved state fits into the available bond dimension, simple-update imaginary-time evolution yields exactly (up to normalization, gauge and numerical accuracy) the state obtained by applying the step's gates to the initial state, over several steps and several evolve calls, for every unit cell of at least two sites per direction, bond direction, site- or bond-dependent Hamiltonian, real or complex precision. When truncation is needed, the truncated bond keeps the largest weights of the mean-field environment. The updated site tensors stay finite.",
 ["inputs", "configurations", "histories"], "all unit cells, bond directions, Hamiltonian families and dtypes within the bounds",
 "No test compares a simple-update result with an exact state.",
 [A+"evolution/simple_update.py", A+"evolution/lambda_tensors.py", A+"evolution/tensor_update.py"],
 [("absorb / strip bond weights", "LambdaTensors"), ("bond update", "SimpleUpdater.bond_update")])

prop("C10", "Boundary moves absorb exactly the right row or column",
 "As long as nothing has to be truncated, any sequence of boundary moves, renormalization sweeps or full-update bond updates (which absorb the two columns or rows of the bond) leaves around every site and bond exactly the boundary obtained by absorbing the corresponding columns and rows of the periodic lattice, up to gauge and normalization. This holds for every unit cell, every move direction and position, both projector types, both decomposition types, and real and complex precision. A move changes no other boundary and no site tensor.",
 ["histories", "configurations"], "all move sequences up to a depth over all directions and positions, for all unit cells up to 3x3 including single-row cells, all projector and decomposition types and dtypes",
 "Tests compare single moves on stored real 2x2 states, where left and right neighbours coincide.",
 [A+"renormalization/directional_mover.py", A+"renormalization/projectors.py", A+"renormalization/ctmrg.py"],
 [("directional moves", "DirectionalMover"), ("projectors", "ProjectorCalculator"), ("sweep order", "ctmrg")])

prop("C11", "Reduced density matrices are the exact contraction of the network",
 "For any site tensors and any boundary tensors, the one-site and two-site reduced density matrices equal the exact contraction of the site or bond with its surrounding boundary, in all four bond directions, for every physical, bond and boundary dimension (also unequal ones) and every precision. Computing them changes nothing in the network. Reversing a bond's direction exchanges the two sites and nothing else.",
 ["inputs", "configurations"], "all dimensions up to a bound, all directions, unit cells and dtypes, with generic tensors",
 "Tests only check the shapes of the reduced density matrices.",
 [A+"measurement/rdm.py"], [("contraction sequences", "RDM.build_site_rdm, build_bond_rdm_core_blocked")])

prop("C12", "Renormalized boundaries give exact expectation values",
 "For states whose infinite boundary the chosen projectors can represent at the given boundary dimension, renormalizing from any starting boundary and then measuring yields the exact infinite-lattice expectation values and reduced density matrices, for every pattern of bonds in the unit cell, every projector and decomposition type and precision. The reduced density matrices are Hermitian, positive and consistent between a bond and its sites.",
 ["inputs", "configurations"], "all graph-state bond patterns and phase choices on all unit cells within the bounds, all projector and decomposition types, plus exactly solved classical models",
 "Tests measure three stored states against stored numbers.",
 [A+"renormalization/ctmrg.py", A+"renormalization/projectors.py", A+"renormalization/directional_mover.py", A+"measurement/rdm.py", A+"measurement/measure.py"],
 [("CTMRG sweeps", "ctmrg"), ("expectation values", "measure")])

prop("C13", "Boundary projectors are the optimal truncation",
 "The pair of boundary projectors, inserted between the two parts of the system they are computed from, reproduces the product of those parts when its rank fits the boundary dimension and otherwise its best approximation of that rank, for both projector types, both decomposition types, all directions, real and complex precision. The retained dimension never exceeds the boundary dimension or the number of singular values above the cutoff, and rank-deficient environments never produce infinite or undefined entries. In exact-rank cases all variants give the same result.",
 ["inputs", "configurations"], "all directions, projector and decomposition types, boundary dimensions, ranks and dtypes within the bounds, with generic and rank-deficient environments",
 "Tests check projectors of one stored real state at one dimension.",
 [A+"renormalization/projectors.py"], [("half- and full-system projectors", "ProjectorCalculator.calculate")])

prop("C14", "Low-rank decompositions are exact up to the requested rank",
 "The randomized decompositions of a matrix or of a product of two or four matrices return orthonormal factors and non-negative singular values in descending order, whose product equals the matrix whenever its rank does not exceed the requested one, for any random test matrix, shape, requested rank (also larger than the matrix), number of iterations and dtype. The product forms give the same decomposition as the plain form applied to the multiplied-out matrix. With a spectral gap the leading singular values converge to the true ones with the number of iterations.",
 ["inputs", "configurations"], "all shapes, ranks, requested ranks, iteration counts and dtypes up to a bound, with enumerated random-matrix outcomes including degenerate ones",
 "Tests draw a few generic real matrices of fixed shapes.",
 [A+"linalg/svd_lowrank.py", A+"linalg/fused_matmul_svd_lowrank.py", A+"linalg/fused_3matmul_svd_lowrank.py"],
 [("randomized range finder", "svd_lowrank and fused variants")])

prop("C15", "Boundary dimensions stay bounded, matched and finite",
 "After any sequence of boundary-dimension changes, renormalizations, evolutions, loads and measurements, every corner and edge tensor has boundary legs no larger than the boundary dimension in force at the last renormalization, matching legs of neighbouring boundary tensors have equal sizes, and all tensors have the configured precision, are finite and normalized. A new boundary dimension takes effect at the next renormalization, both growing and shrinking. Site tensors always keep their configured dimensions.",
 ["histories", "configurations"], "all operation sequences up to a depth over set boundary dimension, renormalize, evolve, load, measure on several unit cells and settings",
 "Tests run single operations at one boundary dimension.",
 [A+"renormalization/directional_mover.py", A+"renormalization/projectors.py", A+"ipeps/ipeps.py", A+"evolution/full_update.py"],
 [("projector truncation", "ProjectorCalculator"), ("normalization", "DirectionalMover.renormalize_*")])

prop("C16", "Distributed runs give the serial result on every rank",
 "For every number of processes and every unit cell, a distributed run of construction, renormalization, evolution and measurement terminates without deadlock, leaves every process with identical tensors, and gives the result of the serial run wherever that is uniquely defined, independent of the number of processes. All processes execute matching collective operations in every interleaving, also when boundary dimensions differ between rows and when random number generators differ between processes.",
 ["schedules", "configurations", "histories"], "all world sizes up to a bound x unit cells x settings, all interleavings of the processes' collective operations",
 "No test runs more than one process.",
 [A+"renormalization/directional_mover.py", A+"utils/distributed.py", A+"evolution/fast_full_update.py", A+"ipeps/ipeps.py"],
 [("distributed moves", "DirectionalMover.left_right_move_dist, up_down_move_dist"), ("gather and broadcast", "all_gather_tensor, FastFullUpdater.bond_update")])

prop("C17", "The process group lives as long as some network needs it",
 "Distribution is enabled exactly when the launcher provides a rank and a world size larger than one; each process then uses its own rank, and requesting more processes than devices or an unsupported device type is an error. Over any sequence of creating, using and deleting networks the process group is created once, available to every living network, and destroyed exactly when the last one is gone. Only the first process writes output.",
 ["histories", "configurations"], "all create/use/delete sequences over several networks up to a depth and all combinations of launcher variables and devices",
 "Tests never run with launcher variables set.",
 [A+"utils/distributed.py", A+"ipeps/ipeps.py"], [("setup and finalize", "setup_distributed, finalize_distributed, Ipeps.__del__")])

prop("C18", "Configurations resolve to the documented settings",
 "Every configuration resolves to exactly the values given, with documented defaults for everything omitted, and with exactly these adjustments: an unavailable accelerator device falls back to CPU, an unavailable accelerator backend falls back to the default backend, and progress bars are disabled in non-interactive batch jobs. Unknown options, unknown projector types, update schemes or data types raise an error rather than being ignored. Each accepted option reaches the algorithm it controls.",
 ["configurations"], "all single and pairwise option combinations from finite value sets and all batch-environment combinations",
 "Tests use one configuration.",
 [A+"ipeps/ipeps_config.py", A+"ipeps/ipeps.py", "docs/source/input_settings.rst"], [("dataclass defaults and fallbacks", "IpepsConfig")])

prop("C19", "The least-squares bond solver never loses accuracy",
 "For every Hermitian positive metric and every target, the alternating least-squares solver returns finite tensors of the requested shape whose error is at most that of the truncated singular-value starting point, is a stationary point once converged, and vanishes when the target is representable. This holds for both linear solvers, all shapes, iteration limits and tolerances, in real and complex precision. The inputs are not modified.",
 ["inputs", "configurations"], "all shapes, conditioning classes, methods, iteration limits, tolerances and dtypes within the bounds",
 "Tests check a single real-valued well-conditioned instance.",
 [A+"evolution/als_solver.py"], [("ALS iteration", "ALSSolver.solve"), ("initial guess", "ALSSolver.initialize_reduced_tensors")])

prop("C20", "Preconditioning a bond update never changes the problem",
 "The positive approximation of a Hermitian norm tensor is positive, equals it up to a non-negative multiple of the identity that is at most a small multiple of the most negative eigenvalue or the cutoff, and always terminates. Gauge fixing changes the metric and the target together so that the distance of every candidate is unchanged and undoing the gauge recovers the original tensors. Splitting and rejoining site tensors, and balancing the updated pair, reproduce the same pair of tensors.",
 ["inputs", "configurations"], "all eigenvalue-sign and degeneracy patterns, dimensions, cutoffs and dtypes within the bounds",
 "Tests check shapes and one stored real instance.",
 [A+"evolution/full_update.py", A+"evolution/tensor_update.py"], [("positive approximation", "positive_approx"), ("gauge fixing", "gauge_fix"), ("QR split", "TensorUpdater.decompose_site_tensors")])

prop("C21", "The compiled solver agrees with the reference solver",
 "The accelerated implementation of the bond solver computes the same result as the default implementation for every shape, precision (real or complex, single or double), linear-solver method, iteration limit, tolerance and regularization, including singular systems where it has to fall back. It rejects unknown solver methods, leaves its inputs unmodified whatever their memory layout, and a failing library call raises an error.",
 ["inputs", "configurations"], "all shapes, dtypes, methods, iteration limits and tolerances within the bounds, running the compiled source against stand-ins for the accelerator libraries",
 "Its tests are skipped without a GPU, so nothing exercises it.",
 ["csrc/evolution/als_solve.cpp", "csrc/evolution/als_tensors.cpp", "csrc/linalg/cholesky_solve.h", "csrc/linalg/contraction.cpp", A+"evolution/als_solver.py"], [("compiled ALS loop", "csrc/evolution/als_solve.cpp"), ("linear systems", "csrc/evolution/als_tensors.cpp, csrc/linalg/cholesky_solve.h"), ("contractions", "csrc/linalg/contraction.cpp")])

prop("C22", "Physics does not depend on how the state is written down",
 "Converged measurements and evolution results do not change when the same infinite state is described differently: translated, rotated or reflected together with the model, repeated in a larger unit cell, rescaled, with the bond gauges changed or the bond dimension padded with zeros. This holds for generic entangled states, all update schemes, projector types and precisions.",
 ["inputs", "configurations"], "all lattice symmetries and unit-cell embeddings of all unit cells within the bounds applied to generic states",
 "Tests have one description of each state.",
 [A+"renormalization/directional_mover.py", A+"measurement/rdm.py", A+"evolution/full_update.py", A+"evolution/simple_update.py"],
 [("direction index arithmetic", "DirectionalMover, RDM, TensorUpdater")])

prop("C23", "Measured values are the documented averages",
 "The reported energy is the sum of all site and bond terms of the model in the unit cell divided by the number of sites, and each observable is the average of its value over all sites (one-site) or all bonds (two-site), for every unit cell, physical dimension, site- or bond-dependent operator given as spin operator or tensor in matrix or four-index form, and unnormalized states. Measuring changes neither the network nor the model, and repeating it gives the same values.",
 ["inputs", "configurations"], "all unit cells, physical dimensions, operator representations and site/bond dependence patterns within the bounds",
 "Tests measure uniform built-in models on a 2x2 cell.",
 [A+"measurement/measure.py", A+"ipeps/ipeps.py"], [("averaging", "calculate_one_site_measurements, calculate_two_site_measurements")])

prop("C24", "Built-in models are the documented Hamiltonians",
 "For every parameter value, precision and unit cell, the built-in Heisenberg model yields J S.S on every bond with the Neel state as initial state and staggered magnetizations as observables (J defaulting to 1), and the built-in Ising model yields -jz ZZ on every bond and -hx X on every site with uniform magnetizations and a polarized initial state. Bond directions are reported correctly, and custom models inherit the documented defaults (no one-site term, no observables, first basis state).",
 ["inputs", "configurations"], "all parameter values from a grid, dtypes, sites and bonds of all unit cells within the bounds",
 "Tests use one parameter value per model and only through stored energies.",
 [A+"model/models/heisenberg.py", A+"model/models/ising.py", A+"model/model.py"], [("Hamiltonian terms", "HeisenbergModel, IsingModel")])

prop("C25", "The sample models mean the lattices they name",
 "The models of the sample programs (transverse-field Ising, compass, honeycomb Ising, kagome Ising, the latter two with two and three spins per tensor) hand out terms that, summed over any periodic cell, are exactly the Hamiltonian of the named lattice with the given couplings and fields, and that do not depend on the direction in which a bond is named. The gates of an evolution step carry the same Hamiltonian, measuring a product state gives its energy and magnetizations, and every sample program runs through, evolving and measuring finite values.",
 ["inputs", "configurations"], "all couplings from a grid, dtypes, bond directions, periodic lattices and product states within the bounds",
 "No test imports the samples or uses a composite physical dimension.",
 ["samples/04_compass_model.py", "samples/05_honeycomb_ising.py", "samples/06_kagome_ising.py", A+"model/pauli_matrix.py", A+"evolution/gate.py", A+"measurement/measure.py"], [("sample models", "CompassModel, HoneycombIsingModel, KagomeIsingModel")])

prop("C26", "Solvable models follow their exact solution",
 "For every model whose terms are diagonal in a common product basis (Ising couplings of any strength pattern and sign along any spin axis with fields along it, or arbitrary diagonal terms in site-dependent bases, differing between bonds and sites), evolving any product state through the public interface and measuring gives, after every evolve call and for both update schemes, the energies and expectation values of the state evolved for the total imaginary time so far, on the infinite lattice. It does not matter into how many steps or calls that time is split, whether time steps are negative or zero, whether the run was saved and resumed, copied, or given another boundary dimension, model or parameters in between, how bonds are oriented, or which cell, precision, solver or projectors are used.",
 ["inputs", "configurations", "histories"], "all coupling patterns, axes, cells up to 3x3 and 4x2, schemes, step histories, precisions and projector options within the bounds, at couplings away from criticality",
 "Tests compare with recorded energies of a few runs; here entangled two-dimensional states have exact values, and the whole pipeline of gates, updates, renormalization and measurement has to agree.",
 [A+"ipeps/ipeps.py", A+"evolution/evolve.py", A+"evolution/gate.py", A+"evolution/full_update.py", A+"evolution/simple_update.py", A+"renormalization/ctmrg.py", A+"measurement/measure.py"], [("public interface", "Ipeps.set_model, evolve, renormalize, measure, save, load")])

prop("C27", "Reporting has no influence on results",
 "The same program with the same random seed gives bit-identical tensors, bond order and measured values whatever is reported: at every log level, with progress bars on or off, inside or outside batch jobs, and for time steps and step numbers given as Python, numpy or torch numbers of the same value. Debug reports appear only when asked for. The timing wrappers call the function with its arguments, as often as stated, and hand its result on unchanged together with the time.",
 ["inputs", "configurations"], "all reporting modes, schemes, cells, precisions and step numbers within the bounds",
 "Tests run with one log level and without comparing modes; the ten-step reports are not reached.",
 [A+"evolution/evolve.py", A+"utils/logger.py", A+"utils/benchmarking.py", A+"renormalization/ctmrg.py", A+"ipeps/ipeps_config.py"], [("reporting", "evolve, Logger, record_runtime, disable_progressbar")])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))

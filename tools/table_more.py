"""More properties (see table.py)."""
GB = "quspin/basis/basis_general/"
GC = GB + "_basis_general_core/source/"


def add(prop):
    prop("P03", "General bases hold exactly the representatives of the sector, sorted and normed",
         "For every kind of site, lattice size, particle sector or list of sectors, and set of commuting symmetry maps with quantum numbers, a *_basis_general "
         "object holds exactly one state for each orbit that survives the projection (the largest integer of the orbit), sorted, with the norm that makes "
         "basis vectors orthonormal, and nothing else. Neither the number of threads, their schedule, the memory estimate Ns_block_est, block_order, N_p, nor "
         "building in one or two steps (make) changes it; index() inverts states, and a too small estimate is refused or enlarged, never silently truncated.",
         ["schedules", "inputs", "configurations"],
         "all site types, sizes (also beyond 64 bits), sectors, symmetry maps, quantum numbers, construction options, thread teams and interleavings",
         "The tests build few translation-invariant bases in a build without threads; the threaded enumeration with its per-thread buffers and merge is never run.",
         [GB + "base_general.py", GC + "make_general_basis.h", GC + "general_basis_core.h", GC + "general_basis_core.pyx", GB + "spin.py", GB + "boson.py",
          GB + "fermion.py"],
         ["per-thread state buffers concatenated and sorted", "prefix blocks (basis_begin/basis_end)", "check_state norm by orbit walk"],
         check="p03", tech="deterministic simulation of the OpenMP threads, seeded lattices and schedules, orbit-enumeration reference model",
         note="Seeded sampling. Reference built independently from the definition of the group projector; sequentially consistent memory is assumed.")
    prop("P04", "Operators act identically through every interface of a general basis",
         "On every general basis the matrix of an operator obtained from hamiltonian, basis.Op, Op_bra_ket, quantum_LinearOperator and inplace_Op (also transposed, "
         "conjugated, accumulating into v_out, on several vectors and every dtype and layout) equals the projection of the second-quantised operator on the "
         "sector, and Op_shift_sector equals that projection between two sectors. This holds for any number of threads and any interleaving; inputs stay "
         "unchanged and only v_out is written.",
         ["schedules", "inputs", "configurations"],
         "all bases as in P03, operator strings with repeated sites, coefficients, dtypes, thread teams and interleavings",
         "The tests compare a few operators on few lattices without threads; races in the scatter of matrix elements and phases of rare orbits stay unseen.",
         [GC + "general_basis_op.h", GC + "general_basis_core.pyx", GC + "spinless_fermion_basis_core.h", GC + "spinful_fermion_basis_core.h", GC + "boson_basis_core.h",
          GC + "hcb_basis_core.h", GC + "higher_spin_basis_core.h", GC + "bits_info.h", GB + "base_general.py", GB + "spin.py", GB + "fermion.py"],
         ["ref_state group element and fermion sign", "atomic accumulation of the product", "norm ratio of the two orbits"],
         check="p04", tech="deterministic simulation of the OpenMP threads, seeded operators and schedules, dense second-quantised reference model",
         note="Seeded sampling; sector dimensions up to a few hundred; sequentially consistent memory is assumed.")
    prop("P05", "States convert exactly between a general basis and the product-state space",
         "On every general basis project_from and get_proj embed vectors of the sector (one or several, dense or sparse, every dtype and layout, with pcon=True into the "
         "particle-conserving space) as the isometry that the symmetry projector defines, and project_to is its adjoint, so project_to(project_from(v)) = v. Op-free "
         "helpers agree with it: representative and normalization of arbitrary product states (with out arrays, returned group elements and signs), get_amp in both "
         "directions, index. The bitwise helpers act like the Python integer operators at every word length. Results do not depend on threads or their schedule, "
         "only outputs are written, and outputs of a wrong kind are refused.",
         ["schedules", "inputs", "configurations"],
         "all bases as in P03, vectors, output arrays, word lengths, thread teams and interleavings",
         "The tests project a few vectors in builds without threads; the threaded group average and the phases of complex sectors are not compared with anything.",
         [GC + "general_basis_get_vec.h", GC + "general_basis_get_amp.h", GC + "general_basis_rep.h", GC + "general_basis_bitops.h", GC + "general_basis_core.pyx",
          GC + "general_basis_utils.pyx", GB + "base_general.py"],
         ["recursive group average with phases", "per-state work sharing", "representative search with sign bookkeeping"],
         check="p05", tech="deterministic simulation of the OpenMP threads, seeded bases and conversions, dense symmetry-projector reference model",
         note="Seeded sampling; sectors up to 200 states, product-state spaces up to 2000; sequentially consistent memory is assumed.")
    prop("P07", "Block evolution is exact, ordered and never hangs, whatever the workers do",
         "block_ops.evolve and block_ops.expm, for any set of symmetry blocks, initial state, times (on one side of t0), dtype, n_jobs, block_diag, iterate and order "
         "of calls on one object, return at every time the evolution of the part of the state that lies in the blocks, in the order of the times. Worker "
         "processes and their queues may be scheduled, delayed or stalled in any way. If a worker raises, is killed or cannot be started, the caller gets an "
         "error in a bounded number of steps instead of waiting or getting results of other times, and no worker is left running after an error or after "
         "the iteration is closed early. The object stays usable, and the caller's state and times are not changed.",
         ["schedules", "crash points", "histories", "inputs"],
         "all block sets, call histories, schedules of the worker processes, kill points, failing forks and failing driving functions",
         "The tests run one healthy pool; lost workers, early close and the hand-shake between queue and event are never exercised.",
         ["quspin/tools/block_tools.py"],
         ["queue and event hand-shake per worker", "grouping of blocks over jobs", "lazily cached block Hamiltonians and projectors"],
         check="p07", tech="deterministic simulation of the worker processes with crashes, stalls and failing forks, dense propagator reference",
         note="Seeded sampling; multiprocessing and joblib are replaced by simulated processes running the real worker functions; ODE tolerance limits accuracy to 1e-5.")
    prop("P08", "Block-diagonal Hamiltonians do not depend on hash order of the drives",
         "block_diag_hamiltonian returns, for every list of blocks (any order, including blocks in which a drive or the static part vanishes) and every set of driving "
         "functions and arguments, an operator that at every time is the direct sum of the Hamiltonians of the blocks in the given order, with the matching "
         "projector when get_proj is set, whatever the hash values of the functions and so the iteration order of sets and dictionaries. A driving function that "
         "raises during construction raises to the caller and leaves the lists of the caller unchanged.",
         ["schedules", "inputs", "configurations"],
         "all block lists, driving functions, hash orders and failing calls",
         "Tests use one driving function and one hash order; the mix-up needs two drives whose set order differs from their list order.",
         ["quspin/tools/block_tools.py", "quspin/operators/_make_hamiltonian.py"],
         ["one matrix list per driving function joined over the blocks"],
         check="p08", tech="deterministic simulation with simulator-chosen hash orders and failing callbacks, direct-sum reference model",
         note="Seeded sampling; chains of up to 6 sites; hash order is the only nondeterminism of this code.")
    prop("P12", "Every history of hamiltonian arithmetic acts like the matrices it stands for",
         "Take any number of hamiltonian objects, built from operator strings or matrices in any storage format with any driving functions and arguments, and any history "
         "of sums, products, powers, in-place operations, commutators, scalar multiples, transposes, conjugates, copies, casts, projections and format changes among "
         "them and with sparse or dense matrices. Then every object evaluates at every time (toarray, tocsr, dot, rdot, expt_value, matrix_ele, quant_fluct, diagonal, "
         "trace, eigh, eigsh, aslinearoperator) to what the same operations on the dense matrices give. Operations that are not in place, evaluations, refused operands "
         "and failing driving functions change no object and no operand; distinct driving functions are never merged, whatever their hashes.",
         ["histories", "inputs", "crash points"],
         "all histories of operations on a pool of objects, storage formats, driving functions, hash values and calls at which a driving function fails",
         "The tests apply single operations to fresh objects with one drive and compare at one time; sharing, aliasing and merged drives need histories.",
         ["quspin/operators/hamiltonian_core.py", "quspin/operators/_functions.py", "quspin/operators/_make_hamiltonian.py"],
         ["dictionary of dynamic parts keyed by driving function", "cancellation of vanishing terms", "products of driving functions", "in-place updates of shared matrices"],
         check="p12", tech="deterministic simulation of call histories with injected callback failures and chosen hashes, dense-matrix reference",
         note="Seeded sampling; dimensions up to 8, histories up to 11 steps, objects that share memory on request (copy=False) are not changed in place.")
    prop("P14", "Every history of quantum_operator objects acts like the matrices it stands for",
         "Take any number of quantum_operator objects, built per key from operator strings and matrices in any storage format (also several per key), and any history of "
         "sums, differences, scalar products and quotients (new and in place), transposes, conjugates, copies, casts, format changes, conversions to hamiltonians and "
         "archive round trips among them. Then for every dictionary of couplings every evaluation (toarray, tocsr, tocsc, dot, rdot, expt_value, quant_fluct, matrix_ele, "
         "diagonal, trace, eigh, eigsh, aslinearoperator, tohamiltonian at any time) gives what the dense matrices per key give, with missing couplings equal to one. No "
         "evaluation, operation that is not in place, refused operand or interrupt changes an object, a matrix or a dictionary of the caller.",
         ["histories", "inputs", "crash points"],
         "all histories of operations on a pool of objects, storage formats, coupling dictionaries and lines at which the library is interrupted",
         "The tests evaluate fresh objects once; shared matrices, reused dictionaries and in-place operations need histories.",
         ["quspin/operators/quantum_operator_core.py"],
         ["matrices shared between operators", "coupling dictionaries shared between calls", "keys that vanish and come back"],
         check="p14", tech="deterministic simulation of call histories with interrupts at chosen lines and refused operands, dense-matrix reference per key",
         note="Seeded sampling; dimensions up to 8, histories up to 11 steps; in-place operations are not interrupted.")
    prop("P11", "A saved operator survives failing storage, crashes and loss of power",
         "load_zip of an archive written by save_zip gives the saved operator again: the same keys (any string), bit-identical matrices in the same storage formats, dtype, "
         "shape and, with save_basis, the basis. At every moment, whatever storage operation fails, is cut short or is the last one before the process dies or the power "
         "fails, the archive on disk is complete: what was saved before the current save_zip, or what it saves; after save_zip returns it is the latter. A save_zip that "
         "raises because of the storage leaves nothing else behind. Truncated archives and read errors raise and never yield another operator.",
         ["crash points", "histories", "inputs"],
         "all histories of saves and loads by several processes and all storage operations at which an error, a short write, process death or loss of power can hit",
         "The tests save once to a healthy disk; what a crash in the middle of a save leaves behind can only be seen by crashing there.",
         ["quspin/operators/quantum_operator_core.py:save_zip", "quspin/operators/quantum_operator_core.py:load_zip"],
         ["order of writing, syncing and renaming", "names of archive members made from keys", "cleanup after failures"],
         check="p11", tech="deterministic simulation of the storage below libc with crash, torn-write, error and power-loss injection, recovery checked against a history model",
         note="Seeded sampling; metadata operations are durable in order and data is durable only after fsync; one file system, no concurrent savers.")
    prop("P09", "Floquet objects describe one period of the drive however workers behave",
         "For every periodic hamiltonian (continuous drive, one hamiltonian evaluated at given times with given durations, or a list of hamiltonians with durations) the Floquet "
         "object holds the time-ordered evolution operator of one period (UF, not its transpose), its phases in order, orthonormal eigenstates also for (nearly) degenerate phases, "
         "the quasi-energies in the first zone, and the Floquet hamiltonian, each as requested. Neither the number of workers, the order in which they finish, earlier Floquet "
         "objects, nor shared hamiltonians and lists change it; a failing driving function, a dying worker or an interrupt reaches the caller as an error and leaves the inputs "
         "unchanged. Floquet_t_vec maps every index to the right period and position.",
         ["schedules", "faults", "inputs"],
         "all drives, step lists, sectors, numbers of workers, completion orders and worker or drive failures",
         "The tests compute one or two drives with healthy workers; degenerate spectra, non-symmetric unitaries and failing workers never appear.",
         ["quspin/tools/Floquet.py"],
         ["columns of the unitary computed by workers and stacked", "bare excepts in the workers", "degenerate eigenvectors"],
         check="p09", tech="deterministic simulation of the worker pool with completion order, worker death, drive failures and interrupts, dense propagator reference",
         note="Seeded sampling; joblib.Parallel is replaced by a simulated pool that copies arguments and results; dimensions up to 8.")
    prop("P10", "Interleaved time evolutions give the solutions of the equation of motion",
         "hamiltonian.evolve and tools.evolve return, for every requested time, the solution of the Schroedinger equation, the Liouville-von Neumann equation or the user's "
         "equation (real or imaginary time, one or several states, split real and imaginary parts with stack_state, any storage format and dtype), with the norm kept in "
         "imaginary time. This holds for lists, single times and iterators, however many iterators over the same hamiltonians are advanced in turn, and whatever callers do to "
         "initial states and to states they already received. Failing driving functions and exhausted step limits raise; other evolutions go on undisturbed and nothing of the "
         "caller is changed.",
         ["schedules", "faults", "histories"],
         "all interleavings of iterators, storage formats, equations, times, and failures of driving functions at any call",
         "The tests run one evolution at a time and never touch a state between two steps; shared memory and views only show when evolutions interleave.",
         ["quspin/tools/evolution.py", "quspin/operators/hamiltonian_core.py:evolve", "quspin/operators/hamiltonian_core.py:__LO"],
         ["solver state returned to the caller", "scratch arrays shared between evolutions", "transposed storage formats in the commutator"],
         check="p10", tech="deterministic simulation of interleaved evolutions with drive failures and overwritten states, dense propagator reference",
         note="Seeded sampling; dimensions up to 8; one vode-type solver at a time (limit of scipy); times on one side of the initial time.")
    prop("P15", "Every history of quantum_LinearOperators acts like the matrices they stand for",
         "Take any operator strings on 1d or general bases (also in symmetry sectors, with a given diagonal) and any history of views (T, H, conj, transpose, getH), copies, scalar "
         "products (new and in place), new diagonals and products with states, sparse matrices and hamiltonians on objects that share these arrays. Then dot (with out and a), "
         "matvec, rmatvec, expt_value, quant_fluct, matrix_ele and inplace_Op give what the dense matrix gives, for every object. No view, evaluation, refused operand or "
         "interrupt changes another object or an array of the caller.",
         ["histories", "inputs", "crash points"],
         "all histories of operations on a pool of objects and views, operator strings, sectors, dtypes and lines at which the library is interrupted",
         "The tests multiply fresh operators with one state; views that change the operator they come from need histories.",
         ["quspin/operators/quantum_LinearOperator_core.py", "quspin/basis/base.py:inplace_Op"],
         ["flags toggled for views", "diagonal shared with the caller", "argument order of transposed and conjugated"],
         check="p15", tech="deterministic simulation of call histories with interrupts at chosen lines and refused operands, dense-matrix reference",
         note="Seeded sampling; up to 4 sites, histories up to 11 steps; in-place operations are not interrupted.")
    prop("P16", "exp_op objects and pending iterators act like the matrix exponentials",
         "Take exp_op objects over hamiltonians with drives, quantum_operators, dense or sparse matrices, with any prefactor and grid (increasing, decreasing, single points), and "
         "any history of views (T, H, conj), copies, set_a, set_grid, unset_grid and set_iterate. Then get_mat, dot, rdot and sandwich (shift, time and couplings given) on "
         "vectors, matrices, sparse matrices and hamiltonians, and hamiltonian.rotate_by with a generator, give exp(aO)A, A exp(aO) and exp(aO)^+ A exp(aO) at each grid point. "
         "An iterator keeps giving the values fixed when it was made, in order and exactly one per point, whatever is done to the objects, the operands and the yielded values in "
         "between. Failing drives, refused arguments and interrupts change nothing.",
         ["schedules", "histories", "faults"],
         "all histories on a pool of exponentials, operands of every kind, orders of advancing pending iterators, failing drives and lines at which the library is interrupted",
         "exp_op has no tests of its own; three tests use single iterators with one operand.",
         ["quspin/operators/exp_op_core.py", "quspin/operators/hamiltonian_core.py:rotate_by"],
         ["generators that mutate shared matrices", "views that change the object", "grids stored in several attributes"],
         check="p16", tech="deterministic simulation of call histories with pending iterators, drive failures and interrupts, dense matrix exponential reference",
         note="Seeded sampling; dimensions up to 6, exponents of norm up to about 3; layouts of results on grids are those of the documented release.")
    prop("P17", "Lanczos runs over shared operators describe the Krylov space of the vector",
         "lanczos_full and lanczos_iter return, for every hermitian operator (matrix, sparse matrix, hamiltonian, quantum_operator, LinearOperator or object with dot, with or without "
         "out), every initial vector, dtype and size, the eigen-decomposition of the operator in the Krylov space and its orthonormal vectors, starting with the normalised initial "
         "vector, also with full_ortho, out, and when the Krylov space is exhausted early. expm_lanczos, lin_comb_Q_T, FTLM_static_iteration and LTLM_static_iteration give the "
         "functions of the projected operator they stand for, at every temperature. Generators of vectors can be restarted and advanced in any order, yielded vectors stay as they "
         "are, and with copies requested nothing a caller overwrites matters. Failing products, refused arguments and interrupts change nothing.",
         ["schedules", "histories", "faults"],
         "all operators, vectors, sizes, orders of advancing generators, products that fail at any call and lines at which the library is interrupted",
         "The tests use one random matrix and one generator at a time; exhausted spaces, kept vectors and low temperatures never appear.",
         ["quspin/tools/lanczos/_lanczos_utils.py", "quspin/tools/lanczos/_FTLM.py", "quspin/tools/lanczos/_LTLM.py", "quspin/tools/lanczos/_expm.py"],
         ["generators that repeat the recursion", "breakdown of the recursion", "buffers shared with the caller"],
         check="p17", tech="deterministic simulation of interleaved generators with failing products and interrupts, dense Krylov-space reference",
         note="Seeded sampling; dimensions up to 16, Krylov spaces up to 8; badly conditioned Krylov spaces are not judged.")
    prop("P18", "1d, tensor and photon bases are complete orthonormal symmetry sectors",
         "For every 1d basis (spins, bosons, spinless and spinful fermions), every length, unit cell, particle sector and combination of symmetry blocks, and tensor and photon bases made "
         "of them, the states of the sectors are orthonormal, together make up the whole space and carry the quantum numbers asked for; Op, get_proj, project_from, index and the "
         "basis' states agree with one dense model with Jordan-Wigner signs. The hermiticity, symmetry and particle checks refuse an operator list that breaks the sector and accept "
         "one that respects it, and expanded_form gives the same operators. Interrupts, refused arguments, copies and callers who overwrite what they got never change a basis.",
         ["histories", "faults", "inputs"],
         "all families and combinations of symmetry blocks, operator lists, orders of calls on shared bases, and lines at which the library is interrupted",
         "The tests use lengths and combinations chosen by hand, compare bases with each other, and never call a basis again after a failure.",
         ["quspin/basis/basis_1d", "quspin/basis/tensor.py", "quspin/basis/photon.py", "quspin/basis/base.py"],
         ["reference states and norms per combination of symmetries", "signs of fermions", "states transformed in place", "expanded and sorted operator lists"],
         check="p18", tech="deterministic simulation of call histories with interrupts, refused arguments and terminal faults, dense-space reference with Jordan-Wigner signs",
         note="Seeded sampling; spaces up to a few hundred states; number operators in particle-hole sectors and 1d bases of more than 64 sites are not judged.")
    prop("P19", "Reduced states, entropies and measurements equal those of the full space",
         "For pure, mixed and sparse states and collections of them on 1d, general (also in symmetry sectors), tensor and photon bases, and every bipartition, partial_trace and ent_entropy "
         "(every alpha, density, return_rdm, solver and format) give the reduced density matrices (for subsystem B complex conjugated), their spectra and entropies computed in the full product space. obs_vs_time, "
         "ED_state_vs_time and diag_ensemble give the expectation values, states and long-time averages of the spectrum, whichever way states are passed, however pending generators "
         "are advanced. Failing generators, drives and svd solvers, refused arguments, interrupts and callers who overwrite what they got change nothing.",
         ["histories", "faults", "schedules"],
         "all bases, sectors, bipartitions, forms of states, histories on shared bases and generators, failing user functions and lines at which the library is interrupted",
         "The tests compare a few real states of spin chains between two code paths; complex states, other bases, generators and failures never appear.",
         ["quspin/basis/lattice.py", "quspin/basis/_reshape_subsys.py", "quspin/basis/tensor.py", "quspin/basis/photon.py", "quspin/tools/measurements.py", "quspin/tools/evolution.py"],
         ["pure and mixed states told apart by their shape", "order of sites and of tensor factors", "conversion of states and observables in place"],
         check="p19", tech="deterministic simulation of call histories with pending generators, failing user functions and interrupts, dense product-space reference",
         note="Seeded sampling; product spaces up to about 1000 states; mixed states up to 80; times and states of a generator have equal length. The "
              "reduced density matrix of B is the complex conjugate, as released.")

    prop("P13", "Lattice transformations and bit helpers are the permutations they name",
         "The functions of quspin.basis.transformations return the site permutations of the lattice symmetries they are named after, for every lattice size.",
         ["inputs"], "all lattice sizes", "The tests only use square lattices of equal sides.",
         ["quspin/basis/transformations/square.py"], ["index arithmetic"], check=None,
         na="pure index formulas of their integer arguments: there is no schedule, time, I/O, history or fault a simulator could decide")
    prop("P06", "User-defined bases act like the sector their callbacks describe",
         "For every user_basis made of numba callbacks (operators, maps, enumeration of particle sectors in any order, constraints, particle counters, 32 and 64 bit), the basis holds exactly "
         "the representatives of the sector, and hamiltonian, Op, Op_bra_ket, inplace_Op, quantum_LinearOperator, Op_shift_sector, projections (pcon included), amplitudes, look-ups and norms "
         "equal those of the dense model, whatever threads call the callbacks in whatever order. Error codes of an operator callback reach the caller; arguments that do not fit are refused; "
         "dropping the arguments, the callbacks or copies of a basis never changes it.",
         ["schedules", "faults", "inputs"],
         "all callbacks within the documented contract, sectors, constraints, symmetry maps, OpenMP teams and interleavings, failing callbacks and object lifetimes",
         "The tests rebuild a few built-in bases one after the other and compare matrices, in one thread and without failing callbacks.",
         ["quspin/basis/basis_general/base_user.py", "quspin/basis/basis_general/_basis_general_core/user_core.pyx", GC + "user_basis_core.h", GC + "general_basis_core.pyx"],
         ["callbacks called from OpenMP threads", "argument arrays kept alive by the basis", "sorting of the enumeration", "error codes passed through the core"],
         check="p06", tech="deterministic simulation of the OpenMP threads that run the callbacks, with failing callbacks and garbage collection, dense-space reference",
         note="Seeded sampling; sectors up to a few hundred states, sps up to 5; callbacks that break their own contract are not judged.")

KNOWN = []
FIXED = [
    ("P04", "integers of particle sectors were too small", "with S>1/2 or bosons and a fixed particle number, operator strings that pass through states with more particles overflowed the integer: matrix elements were lost (N=21, S='1', Nup=1, '-+')"),
    ("P03", "integers of particle sectors were too small", "spin_basis_general(45, S='3/2', Nup=[0]).make(N_p=5) divided by zero"),
    ("P05", "conjugated the phases and recursed", "project_to of a basis with two or more maps called project_from in the recursion and used the conjugate phases"),
    ("P05", "get_proj(pcon=True) ignored", "get_proj(pcon=True) of a basis without symmetry maps returned the projector to the full space"),
    ("P05", "transposed the projector without", "project_to(sparse=True) of complex sectors was not the adjoint of project_from"),
    ("P05", "0-d arrays", "project_to and project_from of a basis with one state returned 0-d arrays"),
    ("P07", "hung the caller", "an exception or death of a worker process left the caller waiting for ever, and closing the iteration early left workers running"),
    ("P07", "at a single time", "block_ops.evolve(times=scalar) with several blocks of different size raised"),
    ("P07", "failed or lost blocks", "block_ops.evolve(block_diag=True) raised; with n_jobs larger than the number of blocks blocks were lost"),
    ("P08", "mixed up drives", "block_diag_hamiltonian attached the matrices to the driving functions in the order of a set, and failed when a drive vanishes in a block"),
    ("P12", "with equal hashes", "driving functions (or the same function with arguments -1 and -2) whose hashes collide lost terms; conj of products of drives raised"),
    ("P12", "returned the memory of the static", "changing the result of tocsr, tocsc or diagonal changed the hamiltonian"),
    ("P12", "did not fill the array out", "toarray(out=) with a sparse dynamic part left out unfilled"),
    ("P12", "failed for some formats", "update_matrix_formats with a string or 'dense' for dynamic parts and as_dense_format raised"),
    ("P12", "failed for sparse states and one-state", "expt_value of a sparse state and on one-dimensional spaces raised"),
    ("P12", "rdot failed without", "rdot raised unless out was given"),
    ("P12", "failed for sparse states at several times", "dot of a sparse matrix at several times raised"),
    ("P12", "with a hamiltonian returned None", "ndarray + hamiltonian evaluated to None"),
    ("P12", "for repeated driving functions with copy", "hamiltonian([], [[A,f,()],[B,f,()]], copy=False) changed A"),
    ("P12", "kept the size of the original", "Ns of project_to was the size of the original space"),
    ("P12", "lost terms and changed its operands", "sums of sparse and dense parts, H*=..., H-=..., and products of static and driven hamiltonians raised, lost terms, changed dtype or changed operands"),
    ("P11", "save_zip destroyed the old archive", "a failing save_zip left a truncated archive in place of the old one; keys that contain sparse, dense, .npz or / were lost or raised; dtype and formats changed; empty operators could not be loaded"),
    ("P14", "added the missing couplings to the dictionary", "evaluations added keys to the dictionary of the caller and to the shared default {}, so that evaluating another operator raised"),
    ("P14", "arithmetic of quantum_operators changed its operands", "-op, op*x, op+=... changed operands, python scalars and / raised"),
    ("P14", "changed or lost the matrices given for one key", "a list of matrices for one key was summed into the matrix of the caller, operator strings of the same key were lost"),
    ("P14", "evaluations of quantum_operators failed", "rdot without out, quant_fluct, expt_value of sparse states, toarray(out=), complex couplings in aslinearoperator failed or gave wrong results"),
    ("P12", "swallowed by bare excepts", "interrupts and failures of numpy during tocsr, tocsc and sum_duplicates were swallowed and another path was taken"),
    ("P10", "wrong matrix for transposed sparse formats", "evolution of density matrices under hamiltonians in csr or csc format with non-symmetric matrices was wrong"),
    ("P10", "normalised by the wrong norm", "evolve with imag_time of several states divided by the norm of the matrix, stack_state of several states raised"),
    ("P10", "returned views of its own memory", "states returned by evolve changed when the solver went on, and evolve changed the initial state of the caller"),
    ("P09", "Floquet unitary was transposed", "UF, VF, HF and the phases belonged to the transposed unitary for drives that are not symmetric"),
    ("P09", "failures of driving functions were swallowed", "an exception of a driving function in a Floquet worker was ignored and the column computed from stale data"),
    ("P09", "step lists of different length", "t_list and dt_list of different length were accepted and steps ignored"),
    ("P09", "nearly degenerate phases", "eigenstates of a unitary with nearly equal phases were not orthonormal or no eigenstates"),
    ("P09", "found by comparing rounded times", "Floquet_t_vec.get_coordinates raised or was off by one period for long vectors"),
    ("P15", "dot(out=), quant_fluct", "dot with out=, quant_fluct, expt_value of sparse and one-state spaces raised or were wrong"),
    ("P15", "with sparse matrices and hamiltonians failed", "products with sparse matrices and hamiltonians raised or lost the diagonal"),
    ("P15", "changed the diagonal of the caller", "diagonal operator strings were added into the array of the caller"),
    ("P15", "changed the operator itself, conjugated ones", "H.T, H.H and H.conj() turned H itself over; transposed and conjugated were swapped; 2*H did not scale"),
    ("P16", "failed for hamiltonians and sparse matrices", "exp_op on a grid with hamiltonian operands used grid and step in the wrong order; arrays of sparse matrices raised; later steps changed yielded objects"),
    ("P16", "wrong results on decreasing grids", "real exponents on grids with stop <= start gave wrong numbers, num=1 raised"),
    ("P16", "ignored its defaults", "set_grid(start, stop) raised, set_iterate(True) without grid was accepted"),
    ("P16", "of exp_op changed the object itself", "expO.T, expO.H and expO.conj() changed expO"),
    ("P16", "used the inverse order", "sandwich without a grid returned U C U^+ instead of U^+ C U, ignored shift and changed the object; sparse get_mat, quantum_operator pars and dense exponents with sparse operands raised"),
    ("P17", "cut off Lanczos vectors at low temperatures", "LTLM dropped Lanczos vectors at low temperatures, and returned an empty result when all energies are large"),
    ("P17", "overwritten by the following ones", "list(Q_T) of lanczos_iter held the last vector many times"),
    ("P17", "changed the signs of the vectors", "with full_ortho the first vector was minus the initial vector, so expm_lanczos had the wrong sign"),
    ("P17", "when the Krylov space is exhausted", "an eigenvector as initial vector gave nan, exhausted spaces lost their last vector, full_ortho raised"),
    ("P18", "were not normalised", "parity sectors with kblock and a unit cell of two sites contained states of norm different from one"),
    ("P18", "lost states which are invariant", "kblock with zAblock and zBblock for S>1/2 missed the states invariant under both inversions"),
    ("P18", "acted on the other sublattice", "zAblock and zBblock were swapped for chains of even length: sectors did not have the quantum numbers the checks assume"),
    ("P18", "particle-hole blocks of boson_basis_1d", "boson_basis_1d(L, Nb=, cblock=) raised NameError, pcblock was ignored"),
    ("P18", "for photon bases were cut off", "photon bases with Ntot missed the sector with all sites occupied, or contained sectors that do not exist"),
    ("P18", "transformed the states of the basis in place", "an interrupted get_proj or project_from left a basis whose states are wrong; dtype instances raised"),
    ("P18", "photon bases with a conserved total number failed", "photon_basis(boson_basis_1d, Ntot=) and S>1/2 raised, empty sectors raised, Op changed the list of indices"),
    ("P18", "reference states of parity times inversion", "matrix elements of spinful fermions in psblock sectors had wrong signs"),
    ("P18", "outside of the chain were accepted", "spinful_fermion_basis_1d.Op with an index beyond the chain acted on the other species"),
    ("P18", "compared operators without their signs", "valid operators with odd strings and their partners were refused by check_symm, spinful operators on different sites were accepted"),
    ("P18", "mixed up the species", "spin flips of spinful fermions passed the particle conservation check"),
    ("P18", "was dropped by tensor and photon", "expanded_form of fermionic operators in tensor and photon bases had wrong signs"),
    ("P18", "lost, doubled or merged operators", "expanded_form dropped non-zero operators, merged different drives, raised for list arguments; lists with repeated entries were refused"),
    ("P19", "iteration order of a set", "with more than 8 sites rdm_B had its sites in the order of a hash table"),
    ("P19", "partial traces of tensor bases", "tensor_basis.partial_trace raised without return_rdm, for series of mixed states, collections of sparse states, and rewrote coo states of the caller"),
    ("P19", "Renyi entropies of tensor bases", "ent_entropy(alpha=2) of tensor and photon bases was nan or wrong"),
    ("P19", "mixed up pure and mixed states", "photon_basis.ent_entropy ignored enforce_pure and return_rdm_EVs; mixed states raised; collections as long as the projected space were taken for mixed"),
    ("P19", "split into subsystems of both species", "spinful_fermion_basis_general.ent_entropy raised by default and for every tuple of subsystems"),
    ("P19", "custom svd solvers and unordered", "sparse ent_entropy ignored subsys_ordering, svd_solver raised when A is larger than B, general bases refused sparse states, sub_sys_A=[N] was accepted"),
    ("P19", "used the transposed eigenvectors", "ent_entropy({'V_rho':..,'rho_d':..}) gave the entropy of another state"),
    ("P19", "truncated weights to integers", "diag_ensemble with integer temperatures had all weights 0 or 1; delta_t_Obs of complex observables was complex"),
    ("P19", "replaced the observables of the caller", "obs_vs_time changed Obs_dict; as many times as states gave mixed-state entropies; a generator with one time raised"),
    ("P06", "dropped error codes of user-defined", "inplace_Op and quantum_LinearOperator returned partial results when op_func of a user_basis returned an error code"),
    ("P06", "read beyond particle sectors given as tuples", "Op_bra_ket with a sector of several particle numbers read beyond a vector"),
    ("P05", "without symmetries were identities", "project_from(pcon=True) and get_proj(pcon=True) of spinful fermions without double occupancy and without symmetries returned the vector of the constrained space"),
    ("P06", "stored states out of order", "a user_basis whose next_state is not descending and made later had unsorted states, projections with pcon=True raised, Op_bra_ket without counters crashed"),
    ("P06", "read int64 count_particles_args", "count_particles_args of type int64 were read as pairs of int32"),
    ("P06", "could not be made with default operators", "user_basis raised without allowed_ops, with _make_basis=False and with lists of particle sectors"),
    ("P06", "result of pre_check_state as bool", "a pre_check_state returning a multiple of 256 was taken for 0 and the state dropped"),
]

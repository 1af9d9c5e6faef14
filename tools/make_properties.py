"""Writes /verif/properties.jsonl (single place where the texts are edited)."""
import json, pathlib

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Ladder operators flip the right bit with the Jordan-Wigner sign",
 "For every state, site and number of sites, creating or removing a particle flips exactly that site's occupation bit and returns -1 to the number of occupied sites with a larger index; a hop flips both sites and returns -1 to the number of particles strictly between them. Creating on an occupied site or removing from an empty one is refused with an error, and the occupation tests return exactly the bit (or its negation).",
 ["inputs"], "every bit pattern, every pair of sites, every chain length",
 "The operator test enumerates a handful of 2-5 site patterns and cannot run without numba; none of the stable tests touches it.",
 ["edpyt/operators.py"], [("bit flip by xor, sign by counting bits to the left, assertion on the ordering of the result", "edpyt/operators.py: flip, fsgn, get_parity, cdg, c, cdgc, check_full, check_empty")],
 ["return values of the operators"])

prop("C02", "Every sector basis is complete, duplicate-free and sorted; dimensions match",
 "For every number of sites and particles, the basis of a sector contains every bit pattern with that particle number exactly once in increasing order, and its length is the binomial coefficient (product of two for spin-resolved sectors). Adding or removing a particle of a given spin changes exactly that spin's count by one, and is refused exactly when the result would leave 0..n; enumerating sectors and tabulating dimensions visits every quantum number exactly once with the right dimension.",
 ["inputs"], "every n, nup, ndw (and total N), both spins",
 "Tests count a few sectors for n=4; they do not run in the stable set.",
 ["edpyt/sector.py", "edpyt/espace.py"], [("Gosper successor iteration from the lowest pattern", "edpyt/sector.py: permutations, generate_states"), ("spin-resolved neighbour sectors with bound checks", "edpyt/sector.py: get_cdg_sector, get_c_sector"), ("sector enumeration and dimension table", "edpyt/espace.py: build_empty_sector, _sz_iter_sectors, _N_iter_sectors, get_espace_dim")])

prop("C03", "Index maps and their inverses agree",
 "The map between a sector's flat state index and the (up, down) pair, the map between a flat sector number and its quantum numbers, and the binary representation of a state and its inverse are mutually inverse. Looking a state up in a sorted basis returns its position, or -1 when it is absent; every piece of code that turns quantum numbers into a flat sector number uses the same formula.",
 ["inputs"], "every index, dimension, basis and state",
 "test_lookup samples one array and checks neither the absent case nor round trips; it needs numba.",
 ["edpyt/lookup.py", "edpyt/espace.py"], [("div/mod and affine map", "edpyt/lookup.py: get_spin_indices, get_state_index"), ("ravel/unravel with equal shapes", "edpyt/lookup.py: get_sector_index, get_num_spins; edpyt/espace.py: build_espace"), ("bisection", "edpyt/lookup.py: binsearch"), ("bit strings", "edpyt/lookup.py: binrep, intrep, count_bits")])

prop("C04", "One memory layout: the up index is the fast index everywhere",
 "In every routine that produces or consumes a state vector of a spin-resolved sector, component (up, down) lives at position up + down * (number of up states). This holds in the local and non-local Hamiltonians, both hopping products and their dense forms, Green's function projections, occupation counts and on-site energies.",
 ["inputs"], "every sector with different up and down dimensions, every consumer",
 "Tests that mix producers and consumers use particle-hole symmetric sectors where dup equals dwn, so swapping the two dimensions goes unnoticed.",
 ["edpyt/ham_local.py", "edpyt/ham_non_local.py", "edpyt/ham_hopping.py", "edpyt/psparse.pyx", "edpyt/cs_gaxpy.c", "edpyt/gf_exact.py", "edpyt/gf_lanczos.py", "edpyt/observs.py", "edpyt/build_mb_ham.py", "edpyt/dedlib.py"],
 [("affine subscripts, strided slices, reshape and kron order", "all files above")])

prop("C05", "Hopping Hamiltonian: exactly the one-body off-diagonal matrix elements",
 "For every hopping matrix and sector, the row of a basis state contains, for each ordered pair of different sites (i, j) with a matrix element above the documented 1e-7 threshold, i empty and j occupied, exactly one entry: that element times the fermionic sign, in the column of the state with the particle moved from j to i. Row pointers delimit exactly the entries of the row, spin up uses the up matrix and spin down the down matrix, and the allocated storage is exactly the number of entries written.",
 ["inputs"], "every hopping matrix (symmetric or not, spin dependent), every sector",
 "test_build_mb_ham compares against one explicit construction for one random matrix and does not run in the stable set.",
 ["edpyt/ham_hopping.py"], [("sparse compression of the matrix", "edpyt/ham_hopping.py: count_nnz_offdiag, nnz_offdiag_csrmat, empty_csrmat"), ("row construction", "edpyt/ham_hopping.py: add_hoppings, build_ham_hopping")])

prop("C06", "Local Hamiltonian: the diagonal energy of every basis state",
 "For every one-body matrix (per spin), interaction matrix, chemical shift and reference occupation, the diagonal entry of a basis state is the sum of its occupied on-site energies per spin, plus the on-site interaction of doubly occupied sites, plus one half of the inter-site density-density interaction measured from the reference occupation; in the half-filling mode each spin occupation of the on-site term is shifted by one half. Spin-resolved and particle-number sectors, and the non-interacting energy helper, give the same energy to the same state.",
 ["inputs"], "every H (spin dependent included), V, mu, z, both modes, every state",
 "Existing tests use one H for both spins and mu=0; the particle-number variant is only compared on spin-symmetric input.",
 ["edpyt/ham_local.py", "edpyt/build_mb_ham.py"], [("spin-resolved kernel", "edpyt/ham_local.py: _build_ham_local"), ("particle-number kernel", "edpyt/ham_local.py: _N_build_ham_local"), ("dispatch and default reference occupation", "edpyt/ham_local.py: build_ham_local"), ("on-site helper", "edpyt/build_mb_ham.py: add_onsites, sum_diags_contrib")])

prop("C07", "Spin exchange and pair hopping have the right matrix elements",
 "For every exchange and pair-hopping matrix, each allowed process contributes one entry: for exchange a spin flip-flop between two sites with amplitude minus the coupling times both fermionic signs (plus the diagonal same-spin term), for pair hopping the move of a doubly occupied pair to an empty site with the coupling times both signs; the particle-number variant sums the same operator products over all spin pairs with weight one half. Either coupling may be absent, and no process forbidden by the Pauli principle produces an entry.",
 ["inputs"], "every Jx, Jp (either may be None), every sector",
 "test_exchange_exact uses one two-orbital model and needs numba; no test passes only one of the two couplings in a spin-resolved sector.",
 ["edpyt/ham_non_local.py", "edpyt/build_mb_ham.py"], [("spin-resolved rows", "edpyt/ham_non_local.py: _build_ham_non_local"), ("particle-number rows", "edpyt/ham_non_local.py: _N_build_ham_non_local"), ("dispatch", "edpyt/ham_non_local.py: build_ham_non_local; edpyt/build_mb_ham.py: build_mb_ham")])

prop("C08", "Matrix-vector product and dense form represent the same Hamiltonian",
 "For every list of operators, the matrix-free product and the dense matrix are the sum of all the operators, each applied exactly once, whatever the output buffer contained before and also when the list holds only the diagonal operator. The sparse kernels compute row sums of value times vector component for the up, down and full sectors, accumulating into the output; the distributed product applies the same three terms.",
 ["inputs", "programs"], "every vector, every operator list (including length one), every optional output buffer",
 "The psparse tests sample one random matrix each; the composite operator needs numba and is never called with an output buffer or a single operator.",
 ["edpyt/matvec_product.py", "edpyt/psparse.pyx", "edpyt/cs_gaxpy.c", "edpyt/ham_hopping.py", "edpyt/ham_local.py", "edpyt/ham_non_local.py", "edpyt/build_mb_ham.py"],
 [("first operator overwrites, the others accumulate", "edpyt/build_mb_ham.py: build_mb_ham; edpyt/matvec_product.py"), ("sparse kernels", "edpyt/psparse.pyx: UPmultiply, DWmultiply, Multiply; edpyt/cs_gaxpy.c"), ("dense forms", "edpyt/matvec_product.py: todense; *.todense")])

prop("C09", "Parallel kernels give schedule-independent results",
 "In every parallel loop, two different iterations never write the same memory location and no iteration reads a location another iteration writes, so the result does not depend on the number of threads or the schedule. Scalars assigned in a parallel loop are private to an iteration or a recognised reduction.",
 ["schedules"], "every interleaving of the iterations, every thread count",
 "Tests run one schedule on tiny inputs.",
 ["edpyt/psparse.pyx", "edpyt/cs_gaxpy.c", "edpyt/continued_fraction.pyx", "edpyt/ham_local.py", "edpyt/build_mb_ham.py", "edpyt/lanczos.py"],
 [("iteration-owned output slices", "every prange loop")])

prop("C10", "Solvers and observables do not modify their inputs",
 "Building and diagonalising a Hamiltonian, building Green's functions, counting occupations and computing transition rates leave the caller's matrices, eigenvectors, parameters and sector tables as they were: same values, shapes and writability, also when an error is raised. Only the routines documented to update an argument in place do so: sector screening, adjusting the number of eigenstates, bath fitting, building an impurity matrix, collecting accumulators passed in for that purpose, the Lanczos work vectors and the distributed transposes.",
 ["inputs", "histories"], "every public routine, every argument, every memory order and writability of the arrays, every sequence of calls",
 "Tests use each input once and never look at it afterwards.",
 ["edpyt/build_mb_ham.py", "edpyt/observs.py", "edpyt/gf_lanczos.py", "edpyt/gf2_lanczos.py", "edpyt/gf_exact.py", "edpyt/espace.py", "edpyt/integrate_gf.py", "edpyt/dmft.py", "edpyt/cotnl.py", "edpyt/sqtnl.py"],
 [("copies and views", "all files above")])

prop("C11", "Sector bookkeeping: ground-state energy, screening, number of states",
 "The ground-state energy returned with an eigenspace is the minimum over all kept sectors; sectors asked for zero states are skipped. Screening keeps exactly the eigenstates whose Boltzmann factor relative to the ground state exceeds the cutoff, keeps eigenvalues and eigenvectors matched, and drops exactly the sectors with none; adjusting the number of states per sector stays between one and the sector dimension, increases it by one only if all requested states were kept and decreases it only if fewer were kept or the sector is absent.",
 ["inputs", "histories"], "every spectrum, every beta and cutoff, every requested number of states",
 "The tests check one espace each.",
 ["edpyt/espace.py"], [("build", "edpyt/espace.py: build_espace, build_non_interacting_espace"), ("screen", "edpyt/espace.py: screen_espace"), ("adjust", "edpyt/espace.py: adjust_neigsector, get_espace_dim")])

prop("C12", "Eigensolvers: right method, lowest states first, no failure code ignored",
 "A sector is diagonalised densely when all its states are requested or it is small, and iteratively only for fewer states than its dimension; either way the requested number of lowest states is returned. Every status code a numerical library call returns is examined before its results are used, and an error is reported with the meaning of that same code.",
 ["inputs", "fault_sequences"], "every sector size and requested number, every status code of LAPACK and ARPACK",
 "No test provokes a failing LAPACK or ARPACK call.",
 ["edpyt/espace.py", "edpyt/eigh_arpack.py", "edpyt/tridiag.py"], [("dispatch", "edpyt/espace.py: solve_sector"), ("status codes", "edpyt/eigh_arpack.py: eigsh; edpyt/tridiag.py")])

prop("C13", "Green's functions are Boltzmann-weighted Lehmann sums with the right poles",
 "Every Green's function uses, for the requested spin, all pairs of sectors connected by adding (or removing) one particle of that spin; its weights are squared amplitudes times Boltzmann factors of the same temperature and ground-state energy that enter the partition function, which is summed over the same sectors. Electron poles sit at final minus initial energy and hole poles at initial minus final energy, and a state the operator annihilates contributes nothing instead of failing.",
 ["inputs"], "every spectrum, temperature, site, spin, representation",
 "Tests use spin up, half filling and very low temperature; the stable set does not import these modules.",
 ["edpyt/gf_exact.py", "edpyt/gf2_exact.py", "edpyt/gf_lanczos.py", "edpyt/gf2_lanczos.py"],
 [("Lehmann sums", "edpyt/gf_exact.py: build_gf_exact; edpyt/gf2_exact.py: build_gf2_exact"), ("Lanczos starts and coefficients", "edpyt/gf_lanczos.py: build_gf_lanczos, build_gf_coeff_sp, build_gf_coeff_cf; edpyt/gf2_lanczos.py: build_gf_offdiag"), ("projections", "edpyt/gf_exact.py: project_exact_up, project_exact_dw; edpyt/gf_lanczos.py: project_up, project_dw")])

prop("C14", "Lanczos steps follow the three-term recurrence, serial and distributed alike",
 "Each step returns the norm of the incoming vector, the expectation value with the normalised vector, that vector, and the next residual (operator applied minus the two projections); the distributed step differs only by reducing the two scalar products over all processes. The coefficients returned are exactly those of completed steps, a vanishing start vector is reported as such, and the second pass rebuilds eigenvectors from the same recurrence.",
 ["inputs", "histories"], "every operator, start vector, iteration count",
 "The Lanczos tests compare the lowest eigenvalue of one random matrix.",
 ["edpyt/lanczos.py"], [("steps", "edpyt/lanczos.py: _sl_step, _sl_step_mpi"), ("driver", "edpyt/lanczos.py: build_sl_tridiag, sl_solve, _kron")])

prop("C15", "Continued fraction, spectral sum and pole sum evaluate the same function",
 "Evaluating a Green's function at any set of energies and broadenings gives, per point, the nested fraction over all stored levels from the last to the first, or the sum of weight over energy distance over all stored poles; the total is the sum over all stored parts divided by the partition function, and a matrix Green's function is symmetric in its off-diagonal elements. Converting Lanczos coefficients to either representation uses squared off-diagonals, the squared starting norm times the Boltzmann weight, and energies measured from the initial state with the sign of the excitation.",
 ["inputs"], "every list of coefficients, every complex energy",
 "The stable test checks two points of a length-two fraction.",
 ["edpyt/continued_fraction.pyx", "edpyt/gf_lanczos.py", "edpyt/gf2_lanczos.py", "edpyt/gf_exact.py", "edpyt/gf2_exact.py"],
 [("kernels", "edpyt/continued_fraction.pyx: calc, continued_fraction"), ("evaluators", "edpyt/gf_lanczos.py: Gf, spectral, continued_fraction; edpyt/gf_exact.py: Gf; edpyt/gf2_exact.py: Gf2; edpyt/gf2_lanczos.py")])

prop("C16", "Occupations are weighted expectation values of the number operators",
 "For either memory order of the eigenvectors, the up (down) occupation of a site in an eigenstate is the sum of squared amplitudes over basis states whose up (down) pattern has that site occupied, times the state's weight if weights are given. The thermal occupation divides the sum over all sectors of Boltzmann-weighted occupations by the partition function built from the same exponentials, and the distributed variant sums the contributions of all processes.",
 ["inputs", "configurations"], "every eigenvector matrix in C or Fortran order, with and without weights",
 "test_observs checks one half-filled case and needs numba.",
 ["edpyt/observs.py", "edpyt/dedlib.py", "edpyt/dedlib_dev.py"], [("contractions", "edpyt/observs.py: _get_evecs_occupation, get_occupation"), ("single-state variants", "edpyt/dedlib.py: get_occupation; edpyt/dedlib_dev.py: get_evecs_occupation")])

prop("C17", "MPI collectives are entered by all ranks in the same order",
 "No collective call, and no loop or branch around one, depends on a value that can differ between ranks. In particular every loop that contains a collective is controlled by quantities that all ranks compute identically or receive from a broadcast or reduction in every iteration.",
 ["schedules", "configurations"], "every number of ranks, every schedule",
 "Tests run with one rank, where any collective matches itself.",
 ["edpyt/ded.py", "edpyt/lanczos.py", "edpyt/observs.py", "edpyt/vector_transpose.py", "edpyt/nano_dmft.py", "edpyt/matvec_product.py"],
 [("reductions and broadcasts", "all collective call sites")])

prop("C18", "Distributed data: every element owned once, layouts match their consumers",
 "When work or a vector is divided among processes, every element is assigned to exactly one process or an uneven division is refused; nothing is silently dropped. In the distributed product the up kernel sees the vector divided by down index and the down kernel sees it transposed, both vectors are transposed back before the result is returned, and the two transposes are inverse block permutations with matching send and receive counts.",
 ["configurations", "histories"], "every number of processes, every sector size",
 "The stable transpose test runs on one rank, where the transposes only reshape.",
 ["edpyt/vector_transpose.py", "edpyt/matvec_product.py", "edpyt/observs.py", "edpyt/nano_dmft.py", "edpyt/ded.py"],
 [("block transposes", "edpyt/vector_transpose.py: collect_up, collect_dw"), ("product", "edpyt/matvec_product.py: _matvec_operator_mpi"), ("ranges per rank", "edpyt/observs.py: _get_evecs_occupation_mpi; edpyt/nano_dmft.py: _get_idx_world; edpyt/ded.py")])

prop("C19", "Rate matrices conserve probability",
 "Every rate added to an off-diagonal entry (final, initial) of a rate matrix is subtracted from the diagonal entry of the initial state under the same conditions, and diagonal transitions contribute nothing, so each column sums to zero for every temperature, bias and coupling. The stationary solution is the normalised eigenvector belonging to the eigenvalue whose derivative vanishes.",
 ["inputs"], "every set of transitions, temperature, chemical potential, coupling",
 "Tests compare currents of one model.",
 ["edpyt/cotnl.py", "edpyt/sqtnl.py", "edpyt/cotunneling.py", "edpyt/sqtunneling.py", "edpyt/rates.py"],
 [("paired updates", "build_rate_and_transition_matrices, build_rate_matrix"), ("dictionary to matrix", "edpyt/cotnl.py: dict_to_matrix"), ("stationary state", "edpyt/rates.py: stationary_solution")])

prop("C20", "Tunnelling rates carry the right Fermi factors and lead assignment",
 "The rate for adding an electron is its squared amplitude times the Fermi function of (energy minus chemical potential) and the rate for removing one uses the Fermi function of the opposite argument, with the same energy difference in both directions, so forward and backward rates obey detailed balance. Cotunnelling amplitudes take the extracting and injecting leads consistently for electron and hole processes in every integration method, and removable singularities of the occupation factors take their limiting value.",
 ["inputs"], "every energy, temperature, bias, lead pair",
 "Tests check one current-voltage curve of the approximate method.",
 ["edpyt/sqtnl.py", "edpyt/sqtunneling.py", "edpyt/cotnl.py", "edpyt/cotunneling.py", "edpyt/integrals.py"],
 [("sequential rates", "Gfe, Gfh, nF"), ("cotunnelling amplitudes", "Gf2, Gf2e, Gf2h, Sigma and variants, G"), ("closed-form integrals", "edpyt/integrals.py")])

prop("C21", "Transition tables contain every allowed process with matched amplitudes",
 "For each connected pair of sectors, every (final, initial) pair of eigenstates gets an entry whose amplitude vector holds, per site, the matrix element of the right ladder operator, and whose energy is the difference of exactly these two states; whenever n to n' is listed so is n' to n, and listings stop only at the empty and the completely filled sector. Selecting the sectors and number of states needed for transport returns a value for every sector and never an index outside the table.",
 ["inputs"], "every number of sites, every spectrum, every ground-state sector including edge fillings",
 "Tests use half-filled molecules away from the empty and full sectors.",
 ["edpyt/cotnl.py", "edpyt/sqtnl.py", "edpyt/cotunneling.py", "edpyt/sqtunneling.py"],
 [("builders", "build_transition_elements, excite_*, project_*"), ("sector selection", "find_active_sectors, get_active_neig")])

prop("C22", "Impurity Hamiltonians are symmetric and share storage as documented",
 "Every routine that fills an impurity matrix writes each bath coupling to both transposed positions, bath energies to the bath diagonal and the impurity level to its own diagonal entry, and touches nothing else. In the spin-dependent impurity both spin blocks stay views of the one matrix passed to the solver, through fitting, updating and symmetrising.",
 ["histories", "inputs"], "every bath, every number of impurities, every sequence of fit, update and symmetrise",
 "No stable test builds an impurity.",
 ["edpyt/dmft.py", "edpyt/dedlib.py", "edpyt/dedlib_dev.py"], [("star geometry", "edpyt/dmft.py: Gfimp.fit, Gfimp.update; edpyt/dedlib.py: build_siam, build_moam"), ("shared storage", "edpyt/dmft.py: SpinGfimp")])

prop("C23", "The DMFT loop: Dyson relations, step order and termination",
 "The hybridisation, Weiss field, self-energy and interacting Green's function obey Dyson's equation with the same chemical potential and level; one step fits the bath, updates the impurity level, solves, then hands the new self-energy to the lattice, and a new hybridisation is evaluated only after that. The loop always passes on a hybridisation with non-positive imaginary part, stops with success only if the change is below the tolerance, stops with failure after the iteration limit, and an unknown mixing method is refused.",
 ["histories", "inputs"], "every model, every sequence of iterations",
 "No stable test runs DMFT.",
 ["edpyt/dmft.py", "edpyt/nano_dmft.py"], [("relations", "Gfloc, Gfhybrid, Gfhilbert, Gfimp"), ("steps", "dmft_step, dmft_step_adjust, dmft_step_magnetic"), ("loop", "DMFT.__call__, DMFT.solve, DMFT.initialize")])

prop("C24", "Bath fitting minimises one objective, in Python and in C, with its true gradient",
 "The hybridisation is the sum of squared coupling over distance to the bath energy, the objective is the mean squared deviation over the positive Matsubara frequencies, and the gradient passed to the minimiser is the exact derivative of that objective with respect to every bath parameter. The Python and C implementations use the same formulas, the same parameter layout, the same frequencies and the same starting bath for every bath size.",
 ["inputs", "programs"], "every bath size, parameter vector, frequency grid",
 "The C programs in the stable set only print; the Python fit needs numba.",
 ["edpyt/fit_cg.py", "edpyt_backend/bath.c", "edpyt_backend/fit.c"], [("python", "edpyt/fit_cg.py: _delta, _ddelta, _chi2, dChi2, fit_hybrid, get_initial_bath"), ("C", "edpyt_backend/bath.c; edpyt_backend/fit.c")])

prop("C25", "Foreign-function boundaries agree on types, order and memory layout",
 "Every C function called from Python or Cython is declared there with the parameter count, order and types of its C definition, and the sparse-matrix structure is declared with the same fields in the same order. Arrays whose address is passed to C have the element type and contiguity C expects, or are converted first, and they are initialised.",
 ["inputs", "configurations"], "every call across the boundary, every array the caller may pass",
 "Tests pass fresh contiguous double arrays.",
 ["edpyt_backend/fit.h", "edpyt_backend/fit.c", "edpyt_backend/fit.py", "edpyt_backend/fit_wrap.py", "edpyt/fit_cffi.py", "edpyt/psparse.pyx", "edpyt/cs.h", "edpyt/cs_gaxpy.c", "edpyt_backend/bath.h", "edpyt_backend/header.h", "edpyt_backend/util.h"],
 [("declarations", "fit.h / ffi.cdef / argtypes; cs.h / ctypedef struct"), ("conversions", "edpyt_backend/fit_wrap.py, edpyt/fit_cffi.py, edpyt/psparse.pyx")])

prop("C26", "C code: every allocation checked, released once, and initialised before use",
 "In the C sources every allocation is checked before it is used and released exactly once on every path that returns; no pointer is used after release. Buffers are written before they are read, and every index into a parameter vector, frequency buffer or matrix row stays within its allocated length for every bath and grid size.",
 ["inputs", "fault_sequences"], "every bath and grid size, every early return",
 "The C test programs run one size and only check the exit status.",
 ["edpyt_backend/util.c", "edpyt_backend/bath.c", "edpyt_backend/fit.c", "edpyt_backend/frprmn.c", "edpyt_backend/dlinmin.c", "edpyt_backend/df1dim.c", "edpyt_backend/f1dim.c"],
 [("allocation helpers", "edpyt_backend/util.c"), ("users", "all files above")])

prop("C27", "Uninitialised buffers are completely written before they are read",
 "Every array allocated without initial values is, on every path and for every size, written at each position before that position is read, returned or handed to another routine. Variables are assigned on every path before they are used.",
 ["inputs"], "every size, every path",
 "Uninitialised memory often happens to hold plausible values in tests.",
 ["edpyt/ham_hopping.py", "edpyt/ham_local.py", "edpyt/ham_non_local.py", "edpyt/observs.py", "edpyt/lanczos.py", "edpyt/tridiag.py", "edpyt/fit_cg.py", "edpyt/cotnl.py", "edpyt/sqtnl.py", "edpyt/cotunneling.py", "edpyt/sqtunneling.py", "edpyt/gf2_exact.py", "edpyt/gf2_lanczos.py", "edpyt/dmft.py", "edpyt/dedlib.py", "edpyt/vector_transpose.py", "edpyt/nano_dmft.py", "edpyt/continued_fraction.pyx", "edpyt_backend/fit_wrap.py"],
 [("np.empty followed by complete writes", "all allocation sites")])

prop("C28", "Invalid selectors are rejected, never silently ignored",
 "A value outside the documented choices for a symmetry, spin index, spectrum selection, number format, Green's function representation, integration method or mixing method, or an unsupported sparse format, raises an error; it never falls through to a default or an undefined result. So does a required argument that is missing (no bath size and no parameters, no particle number and no ground state), and a refusal is not swallowed by a handler meant for something else.",
 ["inputs"], "every value of every selector argument",
 "Tests only pass valid selectors.",
 ["edpyt/espace.py", "edpyt/sector.py", "edpyt/tridiag.py", "edpyt/lanczos.py", "edpyt/lookup.py", "edpyt/gf_lanczos.py", "edpyt/gf2_lanczos.py", "edpyt/dmft.py", "edpyt/cotnl.py", "edpyt/psparse.pyx", "edpyt/fit_cg.py", "edpyt/ham_hopping.py"],
 [("final else / assert / index", "all selector dispatches")])

prop("C29", "Modules only use names, attributes and signatures that exist",
 "Every name a library module imports from the package exists, every global name it uses is defined, and every call to a function of the package passes arguments its signature accepts. Third-party imports are limited to the declared dependencies and the ones their features document.",
 ["programs", "configurations"], "every module, every call site, also those no test reaches",
 "Names in unexecuted branches are resolved only when the branch runs; most modules are not imported by the stable tests.",
 ["edpyt/*.py", "edpyt/*.pyx", "edpyt_backend/*.py", "setup.py"], [("imports, definitions and call sites", "all modules")])

prop("C30", "Integrating a Green's function uses the contour, temperature and level asked for",
 "The occupation is one half of the residue sum over the Fermi-function poles at the requested temperature and chemical potential plus the contribution of the arc at the requested radius; the Matsubara variant sums the positive frequencies of the requested temperature with an analytic tail. The chemical potential temporarily set on the Green's function is restored on every exit, including errors, and the chemical-potential search compares the integrated occupation with the goal.",
 ["inputs", "fault_sequences"], "every Green's function, mu, temperature, number of poles, radius; any exception",
 "The stable test integrates one Green's function with default arguments to 1e-4.",
 ["edpyt/integrate_gf.py", "edpyt/dmft.py", "edpyt/nano_dmft.py"], [("poles and residues", "edpyt/integrate_gf.py: zero_fermi, integrate_gf"), ("Matsubara sum", "edpyt/integrate_gf.py: matsum_gf"), ("search", "edpyt/dmft.py: adjust_mu")])

prop("C31", "Diagonalisation is numerically accurate",
 "Eigenvalues and eigenvectors returned for a sector satisfy the eigenvalue equation to working precision, and Lanczos estimates converge to the lowest eigenvalue.",
 ["inputs"], "every Hamiltonian", "Floating-point accuracy is sampled on a few matrices.",
 ["edpyt/espace.py", "edpyt/eigh_arpack.py", "edpyt/tridiag.py", "edpyt/lanczos.py"], [("LAPACK, ARPACK, Lanczos", "files above")])
prop("C32", "DMFT and chemical-potential searches converge",
 "For physical models the self-consistency loop reaches a fixed point and the chemical-potential search finds a root inside its bracket.",
 ["histories", "inputs"], "every model", "Only a full run shows convergence.",
 ["edpyt/dmft.py"], [("broyden1, linearmixing, brentq", "edpyt/dmft.py")])
prop("C33", "The conjugate-gradient minimiser finds a stationary point",
 "The C and Python minimisers stop at a bath whose gradient vanishes to tolerance and never increase the objective.",
 ["inputs"], "every hybridisation", "Depends on the numerical path of the line search.",
 ["edpyt_backend/frprmn.c", "edpyt_backend/dbrent.c", "edpyt_backend/mnbrak.c", "edpyt_backend/dlinmin.c"], [("Polak-Ribiere and line search", "files above")])
prop("C34", "Distributional exact diagonalisation averages an unbiased sample",
 "The sampled poles follow the given density of states and the averaged self-energy converges to the distribution's mean as the number of samples grows.",
 ["inputs", "histories"], "every density of states and seed", "Statistical property of a random process.",
 ["edpyt/dedlib.py", "edpyt/dedlib_dev.py", "edpyt/ded.py"], [("inverse-transform sampling", "RandomSampler")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    if n > 3: print("sentences", p["id"], n)
print(len(P))

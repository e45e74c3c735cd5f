#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    anchors.update(kw)
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})

B = "tbplas/builder/"
prop("C01", "A locked model refuses every modification",
 "While a primitive cell, supercell or set of inter-supercell hoppings is locked because something else was built from it, every public operation that would change its lattice vectors, orbitals, hopping terms, vacancies or modifiers raises the lock error. The refusal happens before anything is changed, whatever the arguments are.",
 ["histories", "inputs"], "every public mutating operation of every lockable object, every argument combination, every moment after the lock was taken",
 "The tests call a few mutators on a locked primitive cell with one argument set each; the guarantee is about all mutators, all branches inside them and subclasses.",
 [B+"base.py", B+"primitive.py", B+"super.py", B+"overlap.py"],
 [("lock check dominates state writes", "Observable.check_lock; every mutator of PrimitiveCell, OrbitalSet, SuperCell, InterHopping")])
prop("C02", "Dependents lock their sources and follow their updates",
 "Building a supercell, inter-supercell hopping set or sample from existing models registers the new object with each of them and locks each of them. When a source is updated after an edit, every dependent, direct or indirect, drops or recomputes the data derived from it, and the source ends up locked again.",
 ["histories"], "every chain of build / unlock / edit / update operations over primitive cells, supercells, inter-hopping sets and samples",
 "Only a handful of edit/update sequences is tested, each with one dependent.",
 [B+"base.py", B+"super.py", B+"sample.py"],
 [("subscribe and lock on construction; update fan-out", "Observable.update/lock; OrbitalSet.__init__/sync_array; InterHopping.__init__; Sample.__init__/reset_array/update")])
prop("C03", "Derived arrays always reflect the current model",
 "Orbital positions, on-site energies, hopping indices, hopping energies and Hamiltonians obtained from a primitive cell or supercell, directly or through a diagonalisation solver, always reflect every edit made before the call. No history of edits, reads and removals makes a stale or partially refreshed array visible.",
 ["histories"], "every interleaving of model edits and reads through the public accessors and solvers",
 "Cache invalidation depends on the history; tests read arrays once after building.",
 [B+"primitive.py", B+"super.py", B+"base.py", "tbplas/diagonal/base.py", "tbplas/diagonal/z2.py"],
 [("hash-guarded caches", "PrimitiveCell.sync_orb/sync_hop and array properties; OrbitalSet.sync_array; DiagSolver._update_array")])
prop("C04", "A rejected edit leaves the model unchanged",
 "When an editing operation on a primitive cell, overlap, supercell, vacancy set or hopping container is rejected with an error because of an illegal argument, the model is exactly as it was before the call.",
 ["inputs", "histories"], "every editing operation and every argument it rejects",
 "Tests assert that an error is raised for one bad argument, not that nothing changed on every rejecting path.",
 [B+"primitive.py", B+"super.py", B+"base.py", B+"overlap.py"],
 [("validation precedes mutation", "add_orbital/set_orbital/remove_orbital(s)/add_hopping/...; OrbitalSet.add_vacancies/set_vacancies; SuperCell.add_hopping")])
prop("C05", "Illegal indices and arguments are refused, never used",
 "Orbital, cell and vacancy indices outside the model, coordinates or index tuples of wrong length, on-site terms passed as hopping terms, repeated vacancies, too small or non-positive supercell dimensions and inconsistent lattices are refused with the documented error. They never silently address another orbital or cell.",
 ["inputs"], "every public constructor, editing operation and index conversion, every argument outside the documented range",
 "Tests probe one or two illegal values per operation; the range checks must hold for all.",
 [B+"base.py", B+"primitive.py", B+"super.py", B+"sample.py", B+"overlap.py", "tbplas/cython/super.pyx"],
 [("index and length checks", "PrimitiveCell._check_hop_index and orbital accessors; OrbitalSet.__init__/add_vacancies; check_id_sc_array/check_id_pc_array; Sample.__init__")])
prop("C06", "A hopping term and its conjugate counterpart are one and the same",
 "A hopping term from orbital i of the home cell to orbital j of cell R and the complex-conjugated term from j to i of cell -R are the same term: setting either one, in any order, determines both; reading either returns mutually conjugate values; removing either removes both. Terms of different cell or orbital pairs never influence each other.",
 ["inputs", "histories"], "every cell index R, orbital pair, energy and every sequence of set, read and remove operations",
 "Tests use a few index pairs; whether the canonical orientation is unique and the value conjugated consistently depends on all sign patterns of R and orders of i, j.",
 [B+"base.py", B+"primitive.py", B+"super.py"],
 [("canonical orientation of hopping keys", "IntraHopping._norm_keys/add_hopping/get_hopping/remove_hopping; InterHopping; find_equiv_hopping")])
prop("C07", "The Bloch Hamiltonian is the documented Fourier sum, dense and sparse",
 "For every k-point and both phase conventions, the dense and the sparse Hamiltonian of a primitive cell equal the on-site energies on the diagonal plus, for every stored hopping term, its energy times the documented Bloch phase at (i, j) and the complex conjugate at (j, i). The same holds for the overlap matrix, and a sample's k-dependent hopping obeys the same phase rule.",
 ["inputs"], "all models, k-points and conventions",
 "Tests compare band structures of a few models at a few k-points; phase, conjugation and accumulation must be right for all.",
 ["tbplas/cython/primitive.pyx", "tbplas/cython/sample.pyx", B+"primitive.py", B+"overlap.py", "tbplas/diagonal/base.py"],
 [("Fourier sum", "cython.primitive.set_ham; PrimitiveCell.set_ham_dense/set_ham_csr; Overlap.set_overlap_dense/csr; cython.sample.build_hop_k")])
prop("C08", "All sample Hamiltonian builders give the same Hermitian operator",
 "The dense matrix, the sparse matrix, and the compressed Hamiltonian with displacement data used by the propagation kernels hold the same Hermitian operator: every on-site energy once on the diagonal, every hopping term once and its conjugate transposed, for each builder and column ordering. Displacements stored with an element are those of its hopping term, with opposite sign on the transposed element, and all of them share one sparsity layout.",
 ["inputs"], "all orbital and hopping arrays, for every builder option",
 "Tests compare builders on a few small samples.",
 ["tbplas/cython/sample.pyx", B+"sample.py"],
 [("CSR builders", "build_ham_dxy_fast/build_ham_dxy_safe/sort_col_csr/fill_ham; Sample.build_ham_csr/build_dxy_csr/build_ham_dxy/set_ham_dense/set_ham_csr")])
prop("C09", "Supercells replicate the primitive cell faithfully",
 "Every orbital of a supercell that is not a vacancy has exactly one linear index, and linear and cell indices convert into each other without loss, with and without vacancies. Energies, positions, hopping terms and hopping distances of the supercell are those of the primitive cell translated to each unit cell: periodic directions wrap, open directions drop terms leaving the supercell, and terms touching vacancies disappear.",
 ["inputs", "configurations"], "all primitive cells, dimensions, boundary conditions and vacancy sets",
 "Tests use few dimensions and vacancy sets; off-by-one and wrap errors only show for particular shapes or hopping ranges.",
 ["tbplas/cython/super.pyx", B+"super.py", B+"sample.py"],
 [("index maps and replication", "id_pc2sc, id_sc2pc_array, id_pc2sc_array, build_vac_id_sc, build_orb_id_pc, build_orb_pos, build_orb_eng, build_hop_gen, split_pc_hop, build_hop_pbc, build_inter_dr; SuperCell.get_*")])
prop("C10", "Energy rescaling bounds the spectrum and is undone in results",
 "The automatic rescaling factor is at least the largest sum of absolute values over a row of the Hamiltonian, so that the rescaled spectrum lies within [-1, 1], also when a sample is rescaled again. Hamiltonians exported after rescaling are multiplied back, and the energy axis of results spans twice the total factor.",
 ["inputs", "histories"], "all samples, including negative on-site energies, and any number of rescalings",
 "Tests rescale one sample once with benign energies.",
 ["tbplas/cython/sample.pyx", B+"sample.py"],
 [("rescaling", "cython.sample.get_rescale; Sample.rescale_ham; Sample.energy_range; Sample.set_ham_dense/csr/build_ham_csr")])
prop("C11", "Magnetic fields only multiply hoppings by the documented Peierls phase",
 "Applying a magnetic field multiplies each hopping energy by a pure phase whose exponent is the integral of the documented vector potential of the chosen gauge along the hopping, in the documented flux unit; reversing a hopping conjugates its phase. On-site energies, positions and indices are untouched.",
 ["inputs"], "all hopping vectors, positions, field strengths and gauges",
 "Tests look at Landau levels for one gauge.",
 ["tbplas/cython/sample.pyx", B+"sample.py"],
 [("Peierls substitution", "cython.sample.set_mag_field; Sample.set_magnetic_field")])
prop("C12", "MPI collectives are reached identically by every process",
 "In every calculation that supports MPI, all processes perform the same sequence of collective operations on every path, whatever their rank; no branch, loop or early exit that depends on the rank or on the local share of work decides whether a collective is entered.",
 ["schedules", "configurations"], "every process count and rank, every path through the solvers, analyzers and parallel environment",
 "The suite runs with a single process, where a mismatched collective cannot hang.",
 ["tbplas/parallel.py", "tbplas/diagonal/base.py", "tbplas/diagonal/lindhard.py", "tbplas/diagonal/z2.py", "tbplas/tbpm/solver.py", "tbplas/tbpm/analysis.py", "tbplas/tbpm/config.py"],
 [("collective matching", "MPIEnv.reduce/all_reduce/average/all_average/bcast/barrier and all callers")])
prop("C13", "Distributed results do not depend on the number of processes",
 "Work items distributed over processes are each handled by exactly one process. Partial results start from zero, are combined exactly once with the sum (or the mean for random sampling), so that the result equals that of a single process.",
 ["schedules", "configurations"], "every number of processes and work items, including fewer items than processes",
 "The suite runs with one process, for which double counting and missing reductions are invisible.",
 ["tbplas/parallel.py", "tbplas/diagonal/base.py", "tbplas/diagonal/lindhard.py", "tbplas/diagonal/z2.py", "tbplas/tbpm/solver.py"],
 [("block distribution and reduction", "MPIEnv.dist_list/dist_range/dist_bound/reduce/all_reduce/average/all_average; DiagSolver, Lindhard, Solver calc methods")])
prop("C14", "Only the master process writes files and prints; all get results",
 "Files and terminal output are produced by the master process only, after the data were combined, and every process returns the same results: whatever is computed on the master alone is broadcast before it is returned.",
 ["schedules", "configurations"], "every process count and every calculation",
 "With the single process of the test suite master-only and all-rank code are indistinguishable.",
 ["tbplas/parallel.py", "tbplas/tbpm/solver.py", "tbplas/tbpm/analysis.py", "tbplas/diagonal/base.py", "tbplas/diagonal/lindhard.py"],
 [("rank guards", "MPIEnv.print/log/is_master; Solver._save_data; Analyzer.calc_* with bcast")])
prop("C15", "Parallel loops are free of data races",
 "No iteration of a multi-threaded loop in the native kernels writes data that another iteration reads or writes, except through declared reductions; scratch variables are thread-private. Results do not depend on the number of threads or their schedule.",
 ["schedules"], "all thread counts and interleavings, all inputs",
 "A race shows up only under particular interleavings.",
 ["tbplas/fortran/*.f90", "tbplas/fortran/*.F90", "tbplas/cython/*.pyx"],
 [("OpenMP worksharing", "every !$OMP PARALLEL DO in tbplas/fortran")])
prop("C16", "Native kernels receive the data their parameters stand for",
 "At every call from Python into a compiled kernel, and from a compiled kernel into another, each argument carries the quantity the parameter stands for, in kind, order, count and index base. Optional quantities default to documented values.",
 ["programs", "inputs"], "every call into compiled code",
 "Swapped arguments of equal type and shape give plausible numbers; tests exercise few kernels.",
 ["tbplas/tbpm/solver.py", "tbplas/tbpm/analysis.py", B+"*.py", "tbplas/diagonal/lindhard.py", "tbplas/fortran/*", "tbplas/cython/*"],
 [("argument roles", "f2py.* calls in Solver/Analyzer/Lindhard; core.* calls in builder")])
prop("C17", "Both response-function backends compute the same functions",
 "The two implementations of the polarisation and conductivity kernels (and of the products they use) compute the documented Lindhard and Kubo-Greenwood expressions, identically for the same arguments, for on-grid and arbitrary q-points.",
 ["inputs"], "all eigenvalues, eigenvectors, occupations, meshes, frequencies and backends",
 "Tests compare a couple of materials on tiny meshes with loose tolerances.",
 ["tbplas/cython/lindhard.pyx", "tbplas/fortran/lindhard.f90", "tbplas/diagonal/lindhard.py"],
 [("response kernels", "lindhard.pyx dyn_pol/prod_dp/prod_dp_arb/ac_cond/prod_ac; lindhard.f90 dyn_pol_f/prod_dp/prod_dp_arb_f/ac_cond_kg/prod_ac_f")])
prop("C18", "Propagation kernels implement the documented recursions and averages",
 "Each random-state kernel returns, at every time or moment index including the first, the arithmetic mean over its samples of the documented correlation function. Time steps, Fermi filters and kernel-polynomial moments use the Chebyshev recursion with the documented coefficients, and products with the sparse Hamiltonian are complete matrix-vector products.",
 ["inputs"], "all Hamiltonians, sample counts, time-step counts, and truncation orders",
 "Results are stochastic and compared by eye; a wrong index or weight hides in noise.",
 ["tbplas/fortran/tbpm.f90", "tbplas/fortran/propagation.f90", "tbplas/fortran/kpm.f90", "tbplas/fortran/csr.F90", "tbplas/fortran/math.F90", "tbplas/fortran/funcs.f90"],
 [("kernels", "tbpm_dos/ldos/accond/dyn_pol/dc/kbdc/eigenstates/psi_t/ldos_haydock; cheb_wf_timestep; Fermi; csr amv/amxpy")])
prop("C19", "Random sampling is reproducible and distinct across samples and ranks",
 "With a given seed the random initial states are a fixed function of the seed and of the global sample number; no two samples of one calculation, on the same or different processes, use the same random state, and no unseeded source of randomness enters a result.",
 ["inputs", "configurations"], "all seeds, sample counts and process counts",
 "Tests run one process and few samples and do not compare streams.",
 ["tbplas/fortran/random.f90", "tbplas/fortran/tbpm.f90", "tbplas/tbpm/solver.py"],
 [("seeding", "random_state(wf, iseed) and its call sites")])
prop("C20", "Slater-Koster and spin-orbit elements follow the tables and symmetries",
 "Slater-Koster matrix elements between s, p and d orbitals equal the published table for every bond direction, and exchanging the two orbitals together with reversing the bond yields the same value with the parity and parameter swap of the table. Spin-orbit elements equal the matrix elements of L.S in the documented orbital basis and form a Hermitian matrix.",
 ["inputs"], "all bond vectors, orbital pairs, parameters and spins",
 "Tests use materials in which many of the entries vanish.",
 [B+"advanced.py"], [("tables", "SK.eval and its per-shell functions; SOCTable/SOC.eval")])
prop("C21", "Saved samples load back identically",
 "Saving the arrays of a sample and loading them into another sample of the same structure restores orbital energies, positions, hopping terms, distances and the rescaling factor, each into its own place.",
 ["histories", "inputs"], "all samples, saved before or after rescaling, loaded into any sample state",
 "Tests do one round trip at most.",
 [B+"sample.py"], [("npy round trip", "Sample.save_array/load_array")])
prop("C22", "Calculations never modify the model or the caller's data",
 "Computing bands, DOS, response functions, propagation results, Hamiltonians, samples, merged or transformed cells does not modify the model, configuration or arrays passed in by the caller; returned objects can be edited without changing the source.",
 ["histories", "inputs"], "all public calculations and builders, any sequence",
 "Tests use each object once.",
 [B+"*.py", "tbplas/diagonal/*.py", "tbplas/tbpm/*.py", "tbplas/cython/*.pyx"],
 [("effects and aliasing", "calc_* of DiagSolver, Lindhard, Solver, Analyzer; extend_prim_cell, reshape_prim_cell, spiral_prim_cell, merge_prim_cell, make_hetero_layer")])
prop("C23", "Every option value selects its documented behaviour or is refused",
 "For each option with a documented set of values (solver, backend, algorithm, kernel, gauge, convention, shape, flavour and units) each documented value selects its own behaviour and any other value raises an error; none falls through to a different one or leaves a result undefined.",
 ["inputs", "configurations"], "every option and value",
 "Tests use default options, few alternatives and hardly any invalid ones.",
 ["tbplas/diagonal/*.py", "tbplas/tbpm/*.py", B+"*.py", "tbplas/base/*.py", "tbplas/cython/sample.pyx"],
 [("option dispatch", "functions that branch on an option value")])
prop("C24", "Configuration keys are defined, validated and consumed consistently",
 "Every configuration value that a calculation reads is one that the configuration defines with a documented default and validates; unknown keys are refused both when set and when read from file, and saving then reading a configuration restores it.",
 ["configurations"], "every key and value",
 "Tests set a few keys.",
 ["tbplas/tbpm/config.py", "tbplas/tbpm/solver.py", "tbplas/tbpm/analysis.py"],
 [("config dictionaries", "Config.generic/LDOS/dyn_pol/DC_conductivity/quasi_eigenstates; Solver/Analyzer uses")])
prop("C25", "Unit and coordinate conversions are consistent and invertible",
 "Fractional/Cartesian, Angstrom/nanometre, lattice-parameter/vector and real/reciprocal conversions follow their definitions for every input, including integer-typed input; each conversion and its counterpart are mutual inverses and physical constants agree with each other.",
 ["inputs"], "all lattices, coordinates, origins and units",
 "Tests convert a few vectors with zero origin.",
 ["tbplas/base/lattice.py", "tbplas/base/constants.py", "tbplas/base/kpoints.py", B+"primitive.py", B+"base.py"],
 [("conversions", "lattice.cart2frac/frac2cart/gen_lattice_vectors/gen_reciprocal_vectors/...; constants; PrimitiveCell coordinate accessors")])
prop("C26", "Cell transformations preserve the physical model",
 "Extending, reshaping, merging, trimming, shifting or applying boundary conditions to a cell keeps every orbital's energy and Cartesian position modulo the lattice and every hopping's energy and Cartesian vector: each original term appears exactly once per image, none is invented, and only terms cut by an open boundary or touching a removed orbital disappear.",
 ["inputs", "configurations"], "all cells, dimensions and transformation matrices",
 "Tests check a few cells through band structures.",
 [B+"advanced.py", B+"primitive.py", B+"super.py", B+"base.py"],
 [("transformations", "extend_prim_cell, reshape_prim_cell, spiral_prim_cell, merge_prim_cell, PrimitiveCell.apply_pbc/trim/remove_orbitals/reset_lattice")])
prop("C27", "Diagonalisation post-processing follows the definitions",
 "Bands, density of states, local densities, spin texture components, Berry-phase overlap products and response pre-factors computed from eigenvalues and eigenvectors equal their definitions in terms of them, for every model, mesh, energy grid and solver kind.",
 ["inputs"], "all models, k-meshes, energy grids, bands and solver options",
 "Tests compare selected curves.",
 ["tbplas/diagonal/base.py", "tbplas/diagonal/lindhard.py", "tbplas/diagonal/magnetic.py", "tbplas/diagonal/z2.py"],
 [("post-processing formulas", "DiagSolver.calc_bands/calc_dos/calc_states; SpinTexture; Z2; Lindhard")])
prop("C28", "Analysis formulas turn correlation functions into documented results",
 "DOS, local DOS, optical, DC and Hall conductivities, polarisation, dielectric function and diffusion coefficients are computed from the correlation functions by the documented window, Fourier transform and pre-factors, with every sample point used once and the energy axis consistent with the time step.",
 ["inputs"], "all correlation functions, window functions, dimensions and configurations",
 "Tests eyeball spectra.",
 ["tbplas/tbpm/analysis.py", "tbplas/tbpm/solver.py", "tbplas/fortran/analysis.f90", "tbplas/tbpm/utils"],
 [("analysis formulas", "Analyzer.calc_*; window functions; cond_from_trace")])
prop("C29", "Random-state estimates converge to the exact spectrum",
 "As the number of samples and time steps grows, densities of states and conductivities obtained from random-state propagation converge to the exact-diagonalisation results, and propagation conserves the norm to within the requested precision.",
 ["inputs"], "all samples and configurations", "A statistical and numerical convergence statement; tests look at curves.",
 ["tbplas/fortran/tbpm.f90", "tbplas/tbpm/solver.py"], [("stochastic trace", "tbpm_*")])
prop("C30", "Eigenvalues, eigenvectors and topological indices are accurate",
 "Eigenpairs returned by each solver satisfy the eigenvalue equation within tolerance, sparse and dense solvers agree on the requested part of the spectrum, and Z2 indices equal the true invariant for gapped models.",
 ["inputs"], "all models and k-meshes", "Numerical accuracy of floating-point iterations; tests look at a few models.",
 ["tbplas/diagonal/base.py", "tbplas/diagonal/z2.py"], [("eigen-solvers", "DiagSolver; Z2")])
prop("C31", "Wannier90 import reproduces the Wannier Hamiltonian",
 "A primitive cell imported from Wannier90 output has the lattice vectors (in the stated length unit) and Wannier centres of the files, and at every k-point the Hamiltonian Wannier90 defines: every matrix element is taken once, divided by the degeneracy of its R vector, distributed evenly over its Wigner-Seitz correction vectors when correction is requested (terms moved to the same vector add up), diagonal terms become on-site energies, and only terms below the energy cutoff are dropped.",
 ["inputs"], "all well-formed Wannier90 output files, units, degeneracies, correction vectors and cutoffs",
 "No test reads Wannier90 files; the examples only plot.",
 ["tbplas/adapter/wannier90.py"],
 [("file parsing and model construction", "read_lat_vec, read_orb_pos, read_hop, read_wsvec, apply_wsvec, wan2pc")])
prop("C32", "Built-in material models match their published parametrisation",
 "The ready-made graphene, phosphorene, antimonene and transition-metal dichalcogenide models have the documented lattice vectors, orbital positions, on-site energies and hopping terms for every combination of their arguments, including the spin-orbit variants, and are Hermitian.",
 ["configurations"], "every built-in material and every combination of arguments (lattice constants, cutoffs, spin-orbit options, material names)",
 "Tests build graphene and a few others with default arguments.",
 ["tbplas/materials/graphene.py", "tbplas/materials/phosphorene.py", "tbplas/materials/antimonene.py", "tbplas/materials/xs2.py"],
 [("model tables and generators", "make_graphene_*, make_black_phosphorus, make_antimonene, make_tmdc, make_mos2_soc, gen_hop_dict, gen_lattice")])
prop("C33", "Atomic orbitals on real-space grids follow the hydrogenic formulas",
 "When wave functions are written on a real-space grid, every grid value is the sum of hydrogen-like orbitals (normalised radial part from the confluent hypergeometric polynomial times real spherical harmonics) centred at the orbital positions, for every quantum number, grid origin, extent and resolution.",
 ["inputs"], "all quantum numbers, nuclei, grids and resolutions",
 "No test checks the values of the grid.",
 ["tbplas/cython/atom.pyx", "tbplas/visual.py"],
 [("hydrogenic orbitals", "cython.atom._factorial/_coeff/_kummer/_radial/_rnl_factor/_ylm/_ylm_factor/set_cube")])
prop("C34", "Parameter fitting minimises the documented weighted band error",
 "Fitting model parameters to reference bands minimises the band-wise difference between reference and model multiplied by each band's weight; user weights are made positive and normalised without altering the caller's array, a wrong number of weights is refused, and an unsuccessful minimisation is reported as an error, never returned as a result.",
 ["inputs"], "all reference bands, weights, start parameters and solver outcomes",
 "No test covers fitting.",
 [B+"advanced.py"],
 [("error function and status check", "ParamFit.__init__/estimate_error/fit")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

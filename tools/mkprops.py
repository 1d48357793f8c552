#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Returned occupations contain the requested number of electrons",
 "Whenever the library computes occupations from band energies, the k-point-weighted sum of the occupations over all bands and all k-points of all ranks equals the requested number of electrons: to better than 1e-11 when the smearing is Fermi-Dirac, Gauss or Gaussian-spline or when the Newton search is disabled or has failed, and to within 1e-2 when the Newton search for cold or Methfessel-Paxton smearing succeeded. If no chemical potential satisfying this can be found (including when the electron count evaluates to NaN), an exception is raised and no occupations are returned.",
 ["inputs", "configurations"],
 "All band energies, k-point weights, temperatures, electron numbers, maximal occupancies, all five smearings, Newton on/off, every outcome of the two root searches (converged, stuck, iteration limit, NaN).",
 "test_smearing evaluates one band structure per smearing and only prints; the failure exits of both searches and the tolerance of the accepted root are never exercised.",
 ["src/smearing.hpp", "src/dft/newton_minimization_smearing.hpp"],
 [("bracketing search with final residual check", "smearing.hpp: find_chemical_potential"),
  ("Newton search with charge check and fallback", "newton_minimization_smearing.hpp; smearing.hpp: occupation_from_mvector_newton"),
  ("dispatch", "smearing.hpp: occupation_from_mvector1, Smearing::fn")],
 ["(mu, fn) returned by Smearing::fn"])

prop("C02", "Every occupation is the smearing law at the returned chemical potential",
 "For every k-point and band, the returned occupation equals the occupation law of the requested smearing type evaluated at (mu - e)/kT, with mu the chemical potential returned together with it, e that band's energy, and the configured temperature and maximal occupancy. The set of k-points and the order of bands are those of the input.",
 ["inputs", "configurations"],
 "All band energies and band counts, every smearing type, Newton on/off, every chemical potential the search may return.",
 "The tests print a few numbers and assert nothing about individual occupations, band order or k-point keys.",
 ["src/smearing.hpp"],
 [("occupations evaluated from mu", "smearing.hpp: occupation_from_mvector, occupation_from_mvector_newton"),
  ("dispatch on smearing type", "smearing.hpp: Smearing::fn")],
 ["fn returned by Smearing::fn"])

prop("C03", "Smearing functions are exact derivatives of each other",
 "For each of the five smearings, the broadened delta function is the derivative of the occupation law with respect to its argument, and the derivative of the delta function used by the Newton search is the derivative of the delta function, for every argument and occupancy, up to 1e-12 times the occupancy beyond the documented cut-offs. The occupation law itself is the textbook law of that name.",
 ["inputs"],
 "All real arguments x (both signs, around and beyond the cut-offs), both maximal occupancies.",
 "No test evaluates a derivative; only sums of occupations at a single temperature are printed.",
 ["src/smearing.hpp"],
 [("closed forms", "smearing.hpp: fermi_dirac, gaussian_spline, cold_smearing, methfessel_paxton_smearing, gauss_smearing")])

prop("C04", "The entropy is thermodynamically consistent with the occupations",
 "For each of the five smearings the entropy contribution s of a level satisfies ds/dx = -x df/dx and vanishes for fully occupied and empty levels (up to 1e-12 of the occupancy beyond the cut-offs), so the entropy scales with the maximal occupancy exactly as the occupations do. The total entropy is minus the k-point-weighted sum of these contributions over all bands and all k-points of all ranks, evaluated for the requested smearing type.",
 ["inputs", "configurations"],
 "All real arguments, occupancies, band energies, chemical potentials and k-point weights, every smearing type.",
 "One entropy value per smearing is printed by a smoke test, nothing relates it to the occupations.",
 ["src/smearing.hpp"],
 [("closed forms", "smearing.hpp: *::entropy"), ("summation", "smearing.hpp: Smearing::entropy, sum_func")])

prop("C05", "Monotone smearings give physical occupations",
 "For Fermi-Dirac, Gauss and Gaussian-spline smearing every occupation lies between zero and the maximal occupancy, never decreases when a level is moved down relative to the chemical potential, and the occupations of levels symmetric about the chemical potential add up to the maximal occupancy (up to 1e-12 of it beyond the cut-offs). For all five smearings levels far below/above the chemical potential are full/empty and the delta function integrates these limits (it vanishes in both tails).",
 ["inputs"],
 "All real arguments (pairs of arguments for monotonicity) and all positive maximal occupancies.",
 "Universally quantified over the real line; tests evaluate sums at a handful of points and do not check bounds.",
 ["src/smearing.hpp"],
 [("closed forms and cut-offs", "smearing.hpp: *::fn, *::delta")])

prop("C06", "Free energy is assembled from, and leaves the host code in, one consistent state",
 "An evaluation of the free energy at orbitals X, occupations f, band energies e and chemical potential mu writes exactly X into the host code's orbital buffers and exactly f, under the right k-point keys, into its occupations before the host recomputes its energy, hands over mu, and reports F = E_KS + kB*T*S with E_KS the total energy reported by the host after that recomputation and S the entropy of (e, mu) for the configured smearing and temperature. The reported entropy term is F - E_KS, and the caller's X, f and e are left unmodified.",
 ["inputs", "histories"],
 "All orbital values, strides of the host buffers, occupations, energies, and all sequences of evaluations (state after the latest one).",
 "FreeEnergy is compiled but never executed by the test suite.",
 ["src/free_energy.hpp", "src/smearing.hpp", "src/la/mvector.hpp"],
 [("evaluation protocol", "free_energy.hpp: FreeEnergy::compute")],
 ["EnergyBase calls", "get_F, get_entropy"])

prop("C07", "The line search never accepts an increase of the free energy",
 "A line search called with a positive slope raises the slope error without evaluating anything. Otherwise, when it returns, the returned point is the one evaluated last and its free energy is not above the starting value (and is a number), or the search has returned to the starting point with a restart requested; it raises the no-descent error only after backtracking failed although a restart had already been forced. A step that is accepted clears the restart request, and no back-tracking factor of one or more is accepted. The step of the quadratic search is the minimiser of the parabola through the starting value, the slope and the last trial value, with non-negative curvature.",
 ["inputs", "histories"],
 "All energy landscapes along the path (including NaN and infinities), all slopes, trial steps, backtracking factors, restart flags and any number of trial evaluations.",
 "The line search is never executed by the tests; its behaviour depends on the whole history of trial energies.",
 ["src/linesearch/linesearch.hpp"],
 [("quadratic search and acceptance test", "linesearch.hpp: line_search::qline"),
  ("backtracking", "linesearch.hpp: line_search::bt_search"),
  ("entry/exception policy", "linesearch.hpp: line_search::operator()")])

prop("C08", "The reported outcome of a minimisation is truthful",
 "A run reports convergence if and only if it stopped because the magnitude of the slope at the current point was below the requested tolerance; the reported residual is that slope, and the reported free energy, entropy term and iteration number are those of the point the slope belongs to. A run that ends without convergence reports the slope, free energy, entropy term and iteration number of the point at which its last iteration began (of the starting point if no iteration was performed). At most the requested number of iterations is performed, every failure to find a descent direction (a positive slope of a steepest-descent direction, or no lower energy along a direction that was already restarted because a search failed or a conjugate slope was positive) ends the run as not converged, and the returned report is fully defined in every case.",
 ["inputs", "histories", "configurations"],
 "All sequences of slopes, energies and line-search outcomes (including the error outcomes) that the components can produce, all maxiter (including zero), tolerances and restart periods.",
 "The driver is not run by any test; its exits depend on the history of a whole minimisation.",
 ["src/nlcglib.cpp", "include/interface.hpp"],
 [("convergence test and exits", "nlcglib.cpp: nlcg_us"), ("report", "nlcglib.cpp: print_info")],
 ["nlcg_info"])

prop("C09", "Search directions are tangent to the S-orthonormal orbitals",
 "Every orbital search direction that is computed, steepest-descent or conjugate, satisfies (S X)^H Z = 0 for the current orbitals X and overlap operator S, for every k-point. In particular the preconditioned gradient is the preconditioner applied to the residual projected with the Lagrange multipliers that make it tangent.",
 ["inputs"],
 "All orbital, H|X>, previous-direction and rotation matrices of any size, all Hermitian positive overlap operators and preconditioners, any occupations, energies and weights.",
 "The unit tests check inner/transform/solve on single fixed matrices; no test computes a direction.",
 ["src/mvp2/mvp2.hpp", "src/mvp2/descent_direction_impl.hpp", "src/mvp2/descent_direction.hpp"],
 [("Lagrange multipliers", "mvp2.hpp: lmult, conjugatex"), ("projected preconditioned gradient", "mvp2.hpp: precondgx_us")])

prop("C10", "The slope handed to the line search is the derivative along the direction",
 "The slope returned with a search direction equals the sum over all k-points of all ranks of 2 Re tr(g_X^H Z_X) + Re tr(g_eta^H Z_eta), where Z is the returned direction and g the gradient of the free energy with respect to orbitals (w_k (H X f - S X L)) and pseudo-Hamiltonian; the Fletcher-Reeves numerator is the same quantity for the steepest-descent direction. For non-negative occupations and a positive preconditioner the orbital part for a steepest-descent direction is never positive.",
 ["inputs", "configurations"],
 "All matrices, weights, occupations, temperatures, numbers of k-points and distributions of k-points over ranks.",
 "No test computes a gradient, a slope or a direction.",
 ["src/mvp2/descent_direction.hpp", "src/mvp2/descent_direction_impl.hpp", "src/mvp2/mvp2.hpp", "src/la/lapack.hpp"],
 [("slopes", "descent_direction_impl.hpp: exec_spc, exec_conjugate"), ("sum over k", "descent_direction.hpp: restarted, conjugated"),
  ("trace inner product", "lapack.hpp: innerh_tr"), ("gradient", "mvp2.hpp: gradx")])

prop("C11", "Every step keeps the orbitals S-orthonormal and diagonalises eta",
 "For any direction and step length, the orbitals returned by a step satisfy X^H S X = 1, span the range of X + tZ, and are rotated by the eigenvectors of eta + t Z_eta; the returned energies and rotation are the eigenvalues and eigenvectors of eta + t Z_eta. Orthonormalisation (with or without overlap operator) always yields orthonormal columns spanning the same space, and the inputs of the step are not modified.",
 ["inputs"],
 "All full-rank orbital matrices of any size, Hermitian positive overlap operators, Hermitian eta, directions and step lengths.",
 "Loewdin orthogonalisation and the geodesic step are never executed by the tests.",
 ["src/geodesic.hpp", "src/la/lapack.hpp", "src/la/lapack_cpu.hpp"],
 [("step", "geodesic.hpp: advance_x, advance_eta, eigvals_and_vectors, geodesic"), ("Loewdin", "lapack.hpp: loewdin")])

prop("C12", "The pseudo-Hamiltonian gradient is the derivative of the free energy",
 "The gradient with respect to the pseudo-Hamiltonian has, for distinct energies, off-diagonal entries (f_j - f_i)/(e_j - e_i) times H_ij, no contribution from degenerate pairs, and diagonal entries -(1/kT) (H_ii - w e_i) f'_i plus the chemical-potential term that makes the total weighted change of the electron number vanish, with f' the derivative of the occupation law of the requested smearing at (mu - e)/kT; it is Hermitian whenever H is. The steepest-descent direction for it is kappa (H_ij/w - e_i delta_ij).",
 ["inputs", "configurations"],
 "All Hermitian matrices of any size, band energies (including degenerate ones), occupations, weights, temperatures, chemical potentials, all five smearings, k-points distributed over ranks.",
 "Not executed by any test.",
 ["src/pseudo_hamiltonian/grad_eta.hpp"],
 [("gradient", "grad_eta.hpp: GradEta::g_eta"), ("chemical potential terms", "grad_eta.hpp: GradEtaHelper::dFdmu, dmu_deta"), ("direction", "grad_eta.hpp: _delta_eta")])

prop("C13", "Dense linear algebra wrappers compute what they are named for, for every shape",
 "Inner product, outer product, transformation, addition, scaling, Hermitian trace product, diagonal extraction/construction, Hermitian eigen-decomposition and Hermitian solve return exactly the matrix expression they stand for, for every matrix shape and every column stride, write nothing outside the result, and leave their inputs unchanged (except the documented overwritten ones). Arguments they cannot handle (non-unit row stride, distributed matrices, a factorisation that fails) raise an exception instead of returning a result.",
 ["inputs", "configurations"],
 "All matrix values, row/column counts, leading dimensions, scalars alpha/beta including zero, and all failure codes of the underlying factorisations.",
 "The unit tests use a few square or fixed-size random matrices with no padding and never a failing factorisation.",
 ["src/la/lapack_cpu.hpp", "src/la/lapack.hpp", "src/la/cblas.hpp"],
 [("wrappers", "lapack_cpu.hpp: inner, outer, transform, add, eigh, solve_sym"), ("kernels", "lapack.hpp: scale, _add, diag, make_diag, innerh_tr"), ("BLAS calls", "cblas.hpp")])

prop("C14", "Results do not depend on how k-points are distributed over ranks",
 "Gathering k-point data gives every rank the complete set of (key, value) pairs with each value under its own key, and global sums give every rank the sum over all k-points of all ranks, for every distribution of k-points over ranks including ranks that own none and k-points with different numbers of bands. Handing over a communicator smaller than the one the data lives on is refused with an exception.",
 ["inputs", "configurations"],
 "All values, key sets, numbers of bands per k-point and distributions over up to three ranks.",
 "The MPI tests run two ranks with one fixed distribution and only print.",
 ["src/la/mvector.hpp", "src/mpi/communicator.hpp", "src/mpi/mpi_type.hpp"],
 [("gather", "mvector.hpp: mvector::allgather, _allgather"), ("reduction", "mvector.hpp: sum; communicator.hpp: allreduce"), ("datatypes", "mpi_type.hpp")])

prop("C15", "Host-code buffers are read and written exactly as described",
 "Matrices, vectors and scalars obtained from the host code appear under the k-point index the host gives for them, with the element (i,j) taken from offset i*stride0 + j*stride1 of the host's buffer; matrix views alias the host memory and vectors are copied. Operators are applied to the k-point they were asked for, on buffers whose pointer, sizes and strides describe the input and a fresh output; iterating over an operator yields each of its keys once, and memory of an unsupported kind is refused.",
 ["inputs", "configurations"],
 "All buffer contents, sizes, strides, key sets and memory kinds.",
 "One contiguous strided buffer is compared in a smoke test; operators are never applied.",
 ["src/la/mvector.hpp", "src/la/dvector.hpp", "src/operator.hpp", "src/overlap.hpp", "src/ultrasoft_precond.hpp", "include/interface.hpp"],
 [("adaptors", "mvector.hpp: make_mmatrix, make_mmvector, make_mmscalar; dvector.hpp: as_buffer_protocol"), ("operators", "operator.hpp: applicator, op_iterator")])

prop("C16", "Per-k-point evaluation touches only its own k-point and copies are independent",
 "Applying a function over k-point collections evaluates it, for each key of the first collection, on exactly the entries stored under that key, whether evaluated lazily, deferred or eagerly, and a deferred evaluation runs once; a key missing from another collection raises an exception instead of inventing an entry. Copies of matrices and collections own their data, unzipping keeps key and position, and reading a collection never changes it.",
 ["inputs", "histories"],
 "All key sets, values and orders of evaluation of the deferred results.",
 "The tests use two identical keys and do not check aliasing or missing keys.",
 ["src/la/utils.hpp", "src/la/mvector.hpp", "src/traits.hpp", "src/la/dvector.hpp"],
 [("apply", "utils.hpp: tapply, tapply_async, tapply_op; mvector.hpp: eval_threaded, unzip, copy, execute"), ("evaluation", "traits.hpp: eval")])

prop("C17", "The kinetic preconditioner is a bounded positive diagonal scaling",
 "For every non-negative kinetic energy the preconditioner entry equals 1/(1 + 16T^4/(27+18T+12T^2+8T^3)), so it lies in (0,1], is one at zero and never increases with the kinetic energy. Applying it multiplies row i of the input by entry i, for every shape, and the in-place and out-of-place forms agree.",
 ["inputs"],
 "All kinetic energies >= 0, matrices of any size and contents.",
 "Not executed by any test.",
 ["src/preconditioner.hpp"],
 [("entries", "preconditioner.hpp: PreconditionerTeter"), ("application", "preconditioner.hpp: diagonal_preconditioner")])

prop("C18", "Conjugate directions combine the new gradient with the transported old direction",
 "A conjugate direction equals Delta + gamma*Z', where Delta is the steepest-descent direction at the current point, gamma is the ratio of the current to the previous Fletcher-Reeves numerator, and Z' is the previous direction transported to the current point: orbital part rotated by the last rotation U and made tangent, pseudo-Hamiltonian part U^H Z U. The steepest-descent direction at a restart is Delta alone, and the previous direction and the inputs held by the caller are not modified.",
 ["inputs", "histories"],
 "All matrices of any size, rotations, Fletcher-Reeves numerators, numbers of k-points.",
 "Not executed by any test.",
 ["src/mvp2/descent_direction.hpp", "src/mvp2/descent_direction_impl.hpp", "src/mvp2/mvp2.hpp"],
 [("transport", "mvp2.hpp: rotatex, rotateeta, conjugatex"), ("update", "descent_direction.hpp: conjugated")])

prop("C19", "Each iteration works on the state accepted by the line search",
 "The run starts from the host's orbitals, with the occupations and chemical potential of the band energies the host reports once it has been made to compute. In every iteration the new direction is computed from the orbitals, band energies, chemical potential and rotation of the point returned by the line search and from the occupations and H|X> the host reports for that point, with the pseudo-Hamiltonian reset to the diagonal of those energies; the next line search starts from that same point with that direction and its slope. A steepest-descent direction is used when the restart period is due, when the line search asked for a restart, or when the conjugate slope is positive, and each trial point is evaluated with the occupations belonging to its own energies.",
 ["histories", "inputs", "configurations"],
 "All sequences of line-search results, slopes and restart requests, all restart periods and iteration counts.",
 "The driver is not run by any test.",
 ["src/nlcglib.cpp"],
 [("iteration", "nlcglib.cpp: nlcg_us")])

prop("C20", "Entry points run the requested calculation or refuse it",
 "The CPU entry points run the minimisation with exactly the smearing type, temperature, tolerance, kappa, tau, iteration limit and restart period they were given, for each of the five smearing types, and refuse any other smearing value, a zero temperature, a zero restart period, and entry points whose implementation or device is not available, with an exception rather than a result.",
 ["inputs", "configurations"],
 "All smearing values (valid and invalid), all numeric parameters, all public entry points.",
 "No test calls an entry point.",
 ["src/nlcglib.cpp", "src/smearing.hpp", "include/nlcglib.hpp"],
 [("dispatch", "nlcglib.cpp: nlcg_us_cpu, nlcg_us_device, nlcg_us_device_cpu, nlcg_us_cpu_device, nlcg_mvp2_*")])

prop("C21", "GPU and CPU executions agree",
 "Running a minimisation or any of its components on a GPU memory space gives the same results as on the CPU, up to rounding.",
 ["inputs", "configurations"],
 "All inputs, CUDA/ROCm back ends against the host back end.",
 "The GPU sources are not compiled in the tested configuration.",
 ["src/la/lapack_cuda.hpp", "src/la/lapack_rocm.hpp", "src/la/cuda.hpp", "src/la/rocm.hpp"],
 [("device back ends", "lapack_cuda.hpp, lapack_rocm.hpp")])

prop("C22", "Logging is safe when several threads write",
 "Messages written to the log from several threads at once appear unmixed and never corrupt the logger's state.",
 ["schedules"],
 "All interleavings of writers.",
 "No test logs from more than one thread.",
 ["src/utils/logger.hpp", "src/csingleton.hpp"],
 [("locking", "logger.hpp: Logger::operator<<")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

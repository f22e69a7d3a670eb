#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

M="include/macis/"; S="src/sparsexx/include/sparsexx/"
prop("C01","Distributed selection returns the exact k-th element on every rank",
 "For every distribution of values over the processes of a communicator (including empty processes, duplicates and an already ordered or reversed layout), every ordering relation and every rank k from 1 to the number of values, the distributed selection terminates and returns the value that a sort of all values would place at position k, and the same value on every process. Each process still holds exactly the values it started with, and all processes execute the same sequence of collective operations.",
 ["inputs","schedules","configurations"],
 "all process counts, data distributions, orderings and k, and all legal message/collective timings",
 "The two tests draw one uniform data set per run of a fixed size with all processes equally filled; empty processes, ties, k at the ends and other timings are never reached.",
 [M+"util/dist_quickselect.hpp",M+"util/mpi.hpp"],
 [("pivot election, three-way partition and recursion; gather of the remainder",M+"util/dist_quickselect.hpp:dist_quickselect"),("offset exchange",M+"util/dist_quickselect.hpp:total_gather_and_exclusive_scan")],
 ["value returned on each rank","the multiset held by each rank"])
prop("C02","Distributed sparse matrix-vector product equals the serial product",
 "For every square sparse matrix, every contiguous row partition over any number of processes and every vector, repeated distributed products alpha*A*x + beta*y give on each process its rows of the serial product, whatever the order and delay with which messages travel. The set-up exchange and every product complete, afterwards no request or message is left pending, and the reported communication volume is the number of elements exchanged.",
 ["inputs","schedules","configurations"],
 "all matrices, row partitions (also empty ones), process counts, coefficients, message arrival orders and buffering choices",
 "No test of the official build runs the distributed product at all; an example compares one matrix on whatever order the MPI library happens to deliver.",
 [S+"spblas/pspmbv.hpp",S+"util/mpi.hpp",S+"matrix_types/dist_sparse_matrix.hpp",S+"util/permute.hpp",S+"spblas/spmbv.hpp"],
 [("halo index exchange",S+"spblas/pspmbv.hpp:generate_spmv_comm_info"),("overlapped product",S+"spblas/pspmbv.hpp:pgespmv"),("non-blocking wrappers",S+"util/mpi.hpp")],
 ["local result vector on each rank"])
prop("C03","Parallel eigensolver: reported convergence means a true lowest eigenpair",
 "When the selected-CI eigensolver (with its own or a caller-supplied starting vector) or the Davidson solver reports success, the energy is identical on every process, the assembled vector is normalised and its residual norm is below the requested tolerance, and the energy is not above that of the start vector nor above any eigenvalue whose eigenvector makes up most of the start vector, independent of the number of processes, of timing and of how rows are split. With its own start vector and a subspace limit not below the order of the matrix it succeeds. Otherwise every process reports failure; no run ends with some processes waiting for others.",
 ["inputs","schedules","configurations"],
 "all symmetric diagonally dominated sparse matrices of order one or more, start vectors, row counts not divisible by or smaller than the process count, guesses present on some processes only, and all schedules",
 "The Davidson test is not part of the official build and runs one fixed matrix on one process count; divergence between processes shows only for particular splits and guesses.",
 [M+"solvers/davidson.hpp",M+"solvers/selected_ci_diag.hpp",S+"spblas/pspmbv.hpp"],
 [("parallel Davidson iteration",M+"solvers/davidson.hpp:p_davidson"),("start vector",M+"solvers/davidson.hpp:p_diagonal_guess"),("guess decision and solve",M+"solvers/selected_ci_diag.hpp:parallel_selected_ci_diag")],
 ["energy, iteration outcome and vector slice on each rank"])
prop("C04","Distributed Hamiltonian assembly equals the full Hamiltonian",
 "For every set of distinct determinants of one spin sector (equal alpha counts, equal beta counts), every set of real orbital integrals with the usual symmetries and every number of processes, the pieces built by the processes together contain each matrix element whose magnitude exceeds the threshold exactly once, with the value the second-quantised Hamiltonian defines, and the result is symmetric and independent of the process count. Running the same set through another process count or timing gives the same matrix.",
 ["inputs","schedules","configurations"],
 "all determinant lists (shuffled, with open shells, unequal spin counts), integrals, thresholds and process counts including more processes than determinants",
 "The existing test needs a data file and one process count and is not built here; it compares norms of one molecule only.",
 [M+"csr_hamiltonian.hpp",M+"hamiltonian_generator.hpp",M+"hamiltonian_generator/double_loop.hpp",M+"hamiltonian_generator/matrix_elements.hpp",M+"sd_operations.hpp"],
 [("row blocks with masked off-diagonal part",M+"csr_hamiltonian.hpp:make_dist_csr_hamiltonian"),("matrix elements",M+"hamiltonian_generator/matrix_elements.hpp")],
 ["tiles held by each rank"])
prop("C05","Selected-CI search returns the best determinants, the same on every rank",
 "Given core determinants with coefficients, the search returns a list without repetitions that is identical on every process, contains every core determinant, has at most the requested size, and otherwise consists of the connected determinants with the largest summed first-order weights (ties broken arbitrarily); if fewer candidates exist, all of them are returned. Only terms below the element threshold and, once a list outgrows its limit, sums below the pruning threshold may be left out. The score-determined part of the list does not depend on the number of processes, on timing or on clocks.",
 ["inputs","schedules","configurations"],
 "all core sets and coefficients, integrals, thresholds, list limits, target sizes (also larger than the number of candidates), process counts, schedules and clock readings",
 "The search tests need data files and headers that are absent from the official build, and compare one molecule with a stored list for whatever process count is used.",
 [M+"asci/determinant_search.hpp",M+"asci/determinant_contributions.hpp",M+"asci/determinant_sort.hpp",M+"asci/mask_constraints.hpp",M+"util/dist_quickselect.hpp"],
 [("candidate generation",M+"asci/determinant_search.hpp:asci_contributions_standard / _constraint"),("accumulation and duplicate removal",M+"asci/determinant_sort.hpp"),("global top-K and gather",M+"asci/determinant_search.hpp:asci_search")],
 ["determinant list on each rank"])
prop("C06","The parallel search covers each candidate exactly once across processes",
 "When the candidate determinants of the parallel search are divided among processes, every determinant connected to a core determinant by one or two substitutions is produced, if its weight is not zero, by exactly one process, with a summed weight equal to the serial one (up to what the element and pruning thresholds leave out), for every number of processes and every refinement depth of the division. No candidate is lost, produced by two processes, or produced outside the orbital range.",
 ["inputs","configurations","schedules"],
 "all core sets, orbital and electron counts, thresholds, list limits, process counts and division depths",
 "No existing test looks at the union of the per-process candidate sets; a lost or doubled candidate only shifts an energy slightly for some process counts.",
 [M+"asci/mask_constraints.hpp",M+"asci/determinant_search.hpp",M+"asci/determinant_sort.hpp"],
 [("constraint generation and greedy assignment",M+"asci/mask_constraints.hpp:dist_constraint_general"),("constrained excitation generators",M+"asci/mask_constraints.hpp")],
 ["per-rank candidate lists with weights"])
prop("C07","Grow/refine workflow: processes agree and the energy belongs to the wavefunction",
 "The grow and refine phases end with the same energy, determinant list, coefficients and (rotated) integrals on every process; the list has exactly the requested size without repetitions, the coefficients are normalised, and the energy equals the lowest eigenvalue (of those the dominant determinant reaches) of the Hamiltonian in that list for the integrals then in force. Orbital rotation leaves the full-space spectrum unchanged, and the outcome is that of the sequential workflow up to the solver tolerance, whatever the process count, timing or clocks. If the list cannot grow or the energy does not settle, every process reports it; the workflow never runs forever.",
 ["inputs","schedules","configurations","histories"],
 "all start determinants, integrals, growth settings (with and without orbital rotation), refine settings, process counts, schedules and clock behaviour",
 "The only test runs one molecule from a data file, is not part of the official build and checks final energies only.",
 [M+"asci/grow.hpp",M+"asci/refine.hpp",M+"asci/iteration.hpp",M+"hamiltonian_generator.hpp",M+"util/transform.hpp"],
 [("iteration and coefficient assembly",M+"asci/iteration.hpp:asci_iter"),("growth loop, rotation on one rank and broadcast",M+"asci/grow.hpp:asci_grow"),("refinement loop",M+"asci/refine.hpp:asci_refine")],
 ["return values and integrals on each rank"])
prop("C08","Typed communication wrappers: sequential meaning and clean communication",
 "Reductions, broadcasts, gathers and point-to-point wrappers deliver on every process what the sequential definition gives for every element type, count (also zero) and operation, for any timing. Every process issues the same collectives with compatible arguments, and at the end no datatype, request or message created through the wrappers is left over or released twice.",
 ["inputs","schedules","histories"],
 "all call sequences, element types, counts, roots, process counts and schedules",
 "No test exercises the wrappers directly; leaks and mismatches are invisible on a lenient MPI library.",
 [M+"util/mpi.hpp",S+"util/mpi.hpp",M+"util/dist_quickselect.hpp"],
 [("typed wrappers and managed datatypes",M+"util/mpi.hpp"),("typed wrappers",S+"util/mpi.hpp"),("gather with offsets",M+"util/dist_quickselect.hpp:total_gather_and_exclusive_scan")],
 ["output buffers; live datatypes, requests and messages"])
prop("C09","Distributing or copying a sparse matrix conserves every entry",
 "Splitting a sparse matrix over processes by the default or a caller-chosen row partition stores every entry on exactly one process, with local plus remote parts reproducing it exactly; row ranges are contiguous, disjoint and cover the matrix, and invalid partitions are rejected on every process. Copying or moving a distributed matrix yields one with the same partition, dimensions and entries, and changing a copy leaves the original as it was.",
 ["inputs","configurations","histories"],
 "all matrices (zero- or one-based, empty rows, one process or more processes than rows), partitions, and sequences of construct/copy/move/replace operations",
 "Tests cover submatrix extraction on one fixed matrix and never build or copy a distributed matrix.",
 [S+"matrix_types/dist_sparse_matrix.hpp",S+"util/submatrix.hpp"],
 [("row partition and tiles",S+"matrix_types/dist_sparse_matrix.hpp"),("extraction",S+"util/submatrix.hpp")],
 ["tiles, bounds and sizes on each rank"])
prop("C10","Parallel matrix export writes the global matrix, whatever the timing or fault",
 "When the parallel export of a distributed matrix returns, on any process, the file holds a header with the global dimensions and entry count followed by every entry of the global matrix exactly once in global numbering, for any order in which processes run and any short or interrupted write. If a write fails the export reports an error; if it failed or the job died half way, a later read of the file is rejected or yields the complete matrix, and never a matrix with entries missing.",
 ["schedules","inputs","fault_sequences","crash_points"],
 "all matrices, partitions, index bases, schedules and injected I/O faults and crash points",
 "Nothing in the test suite calls the parallel export; the token ring that orders the writers matters only under adverse timing.",
 [S+"io/write_dist_mm.hpp",S+"io/write_mm.hpp",S+"io/read_mm.hpp"],
 [("header by one rank, ring of appenders",S+"io/write_dist_mm.hpp:write_dist_mm")],
 ["file content"])
prop("C11","Threaded sparse kernels are race free and independent of the thread count",
 "The threaded sparse kernels (matrix-block product for row-compressed and triplet storage, row, column and combined permutation, expansion to dense, with matrices converted between the two storages and permutations taken from partitions) give the result of the sequential definition for every thread count and every interleaving of the threads. No two threads ever access the same memory in conflict without ordering.",
 ["schedules","inputs","configurations"],
 "all matrices, index bases, block widths, leading dimensions, thread counts and thread interleavings",
 "Tests run one product with the machine's own scheduling; a race shows only in rare interleavings.",
 [S+"spblas/spmbv.hpp",S+"util/permute.hpp",S+"matrix_types/dense_conversions.hpp"],
 [("parallel loops over rows",S+"spblas/spmbv.hpp:gespmbv"),("per-thread scratch indexed by thread number",S+"util/permute.hpp"),("parallel scatter",S+"matrix_types/dense_conversions.hpp:convert_to_dense")],
 ["output arrays; ordering of memory accesses"])
IOW="short and interrupted transfers, read and write errors, full disks, failed opens, memory allocations that fail during a read, and crashes that keep only a prefix of the written bytes"
IOT="Tests only read intact files on a healthy disk (if they touch the format at all); no test injects an I/O fault or a truncated file."
prop("C12","Wavefunction files: exact round trip, and no silent loss under faults",
 "A wavefunction written to a file and read back gives the same determinants in the same order with bit-identical coefficients, also when transfers are short or interrupted, and a new file replaces an older one completely. If a write cannot be completed the writer reports it, and a file that is missing, unreadable, or cut off at any point (other than inside the digits of its very last number) is rejected by the reader and never returned as a shorter or altered wavefunction.",
 ["inputs","fault_sequences","crash_points"],
 "all wavefunctions, widths and coefficient values; "+IOW,IOT,
 [M+"wavefunction_io.hpp",M+"sd_operations.hpp"],
 [("text reader and writer",M+"wavefunction_io.hpp")],["states, coefficients, exceptions, file content"])
prop("C13","Integral files: exact round trip, and I/O errors are never silent",
 "Integrals written to a file and read back give bit-identical one- and two-body values and core energy for any leading dimension, any number of times in one process, as soon as the writer returns, also when transfers are short or interrupted. A file that is missing or unreadable, or holds a five-field entry line with a malformed number, a negative index or an impossible combination of zero indices, is reported by the one- and two-body readers, as is an array too small for the orbitals in the file; a write that fails is reported by the writer. Lines that are not five fields and orbital-energy lines are skipped, and no reader touches memory outside the block it was given.",
 ["inputs","histories","fault_sequences"],
 "all orbital counts, values and leading dimensions, sequences of writes and reads, with "+IOW,IOT,
 ["src/macis/fcidump.cxx",M+"util/fcidump.hpp"],
 [("line parser and classification","src/macis/fcidump.cxx"),("writer","src/macis/fcidump.cxx:write_fcidump")],["arrays, return values, exceptions, file content"])
prop("C14","Density-matrix files: exact round trip, and no silent loss under faults",
 "One- and two-body density matrices written to a file and read back are bit-identical inside the requested block for any leading dimension, and memory outside that block is untouched, also when transfers are short or interrupted. A file that is missing, cut off at any point or made for another orbital count is rejected, a failing read is reported, and a failing write is reported by the writer.",
 ["inputs","fault_sequences","crash_points"],
 "all orbital counts, leading dimensions and values; "+IOW,IOT,
 ["src/macis/fcidump.cxx",M+"util/detail/rdm_files.hpp",M+"util/binary_rdms.hpp"],
 [("binary reader and writer","src/macis/fcidump.cxx:read_rdms_binary / write_rdms_binary")],["arrays, exceptions, file content"])
prop("C15","Matrix-market files: exact round trip, and no silent loss under faults",
 "A sparse matrix written in matrix-market form and read back into any storage format has the same dimensions, pattern and bit-identical values up to the requested index base, also with empty rows or columns and with short or interrupted transfers; a symmetric file is expanded to both triangles, the words of the banner may be in capital letters, and a file of a kind the reader does not support (skew-symmetric, Hermitian, complex, dense) is refused. If a write cannot be completed the writer reports it, and a file that is missing, unreadable, cut off (other than inside the digits of its very last number), lacks entries or fields, or holds an index outside its dimensions is rejected and never returned as a smaller or altered matrix.",
 ["inputs","fault_sequences","crash_points"],
 "all matrices, index bases and target formats; "+IOW,IOT,
 [S+"io/write_mm.hpp",S+"io/read_mm.hpp",S+"matrix_types/coo_matrix_ops.hpp",S+"matrix_types/coo_conversions.hpp"],
 [("text writer",S+"io/write_mm.hpp:write_mm"),("text reader and conversions",S+"io/read_mm.hpp")],["matrix content, exceptions, file content"])
prop("C16","Binary triplet files: exact round trip, and no silent loss under faults",
 "A sparse matrix written as binary triplets and read back into row-compressed or triplet storage has the same dimensions, pattern and bit-identical values; a symmetric matrix stored as one triangle comes back complete. This holds with short or interrupted transfers; a failing write is reported by the writer, and a file that is missing, unreadable, cut off at any point or holding an index outside its dimensions is rejected by the reader.",
 ["inputs","fault_sequences","crash_points"],
 "all matrices that are not purely triangular, and triangles of symmetric matrices, both index bases, both index widths; "+IOW,IOT,
 [S+"io/write_binary_triplets.hpp",S+"io/read_binary_triplets.hpp",S+"matrix_types/coo_matrix_ops.hpp"],
 [("binary writer",S+"io/write_binary_triplets.hpp"),("binary reader, triangle expansion, sort",S+"io/read_binary_triplets.hpp")],["matrix content, exceptions, file content"])
prop("C17","Rutherford-Boeing reader: exact content or an error, never a partial matrix",
 "Reading a well-formed Rutherford-Boeing file gives exactly the dimensions, pattern and values it contains, for any line layout and with short or interrupted reads. A file that is missing, unreadable, cut off before its last value, holds more numbers than its header announces, or an index or column start outside the matrix, is rejected without touching memory outside the matrix.",
 ["inputs","fault_sequences","crash_points"],
 "all matrices and line layouts; "+IOW,IOT,
 [S+"io/read_rb.hpp",S+"matrix_types/csc_matrix.hpp"],
 [("text reader",S+"io/read_rb.hpp:read_rb_as_csc")],["matrix content, exceptions"])
prop("C18","Complete-active-space workflow agrees with the serial result on every rank",
 "Complete-active-space energies and one- and two-body density matrices are the same on every process and equal to those of the exact ground state in the active space, for every number of processes and every schedule; contracting the density matrices with the integrals reproduces the energy and their traces reproduce the electron counts. When every process forms the contributions of its own determinants only, the parts add up to the same matrices, also when the one-body matrix alone is asked for. Orbital optimisation ends on every process with the same finite energy and density matrices, with the right traces, never below the exact energy, it reaches the optimum where that is a short, well-conditioned way from the start, and says that it converged only there; its steps do not depend on the number of processes; density matrices handed over with the right electron count are taken as the start, and integrals and density matrices stored with larger leading dimensions give the same as packed ones, without touching the storage in between.",
 ["inputs","schedules","configurations"],
 "all integrals, active-space partitions, leading dimensions, electron counts, process counts and schedules",
 "The orbital-optimisation test needs a data file and headers absent from the official build and compares energies for one molecule at one process count.",
 [M+"util/cas.hpp",M+"util/mcscf_impl.hpp","src/macis/casscf.cxx",M+"hamiltonian_generator/double_loop.hpp",M+"util/rdms.hpp"],
 [("diagonalise and form density matrices",M+"util/cas.hpp:compute_casci_rdms"),("optimisation loop",M+"util/mcscf_impl.hpp:mcscf_impl")],
 ["energy and density matrices on each rank"])
A="attic/src/cmz_ed/"; AI="attic/inc/cmz_ed/"
prop("C19","Legacy exact-diagonalisation library: threaded kernels are race-free and correct for any number of threads",
 "For every number of threads and every interleaving, the threaded kernels of the legacy library (Hamiltonian assembly over a set of determinants or a list of pairs, vector sums and inner products, block-Lanczos resolvents) complete without two threads touching the same data unordered and without touching memory outside their arrays, and give the same result. The assembled Hamiltonian holds each element of the second-quantised operator once, except those below 1e-9, for any determinants that fit the 64-bit representation; the resolvent is that of the operator in the Krylov space; the ground-state energy is not below the lowest eigenvalue, the one- and two-body density matrices reproduce that energy and the electron number, and the vector kernels leave their inputs unchanged.",
 ["inputs","schedules","configurations"],
 "all orbital and electron counts, integrals, sets of determinants, start vectors, frequencies, thread counts (also fewer threads than asked for) and interleavings",
 "One test of single determinants is built; the other legacy tests need data files, print numbers without comparing the density matrices, and run under whatever interleaving the machine happens to choose.",
 [A+"hamil.c++",A+"bandlan.c++",AI+"bandlan.h++",AI+"utils.h++",AI+"lanczos.h++",A+"rdms.c++",A+"slaterdet.c++",A+"ed.c++"],
 [("parallel loops over pairs and determinants, pruning",A+"hamil.c++:GetHmat / GetHmat_FromPairs"),("parallel vector kernels",AI+"utils.h++:MyInnProd / MyAdd"),("block Lanczos and continued fraction",A+"bandlan.c++:BandResolvent"),("ground state and density matrices",A+"ed.c++:RunED")],
 ["matrix, vectors, resolvent, energy and density matrices returned"])
prop("C20","Legacy integral, matrix, vector, density-matrix and parameter files: read completely or refused",
 "Integrals written by the legacy library and read back agree to the twelve digits the format carries; integral files of other programs, sparse-matrix, vector and density-matrix files are read back with exactly the values and sizes they contain, in any order of entries, and parameter files with every keyword bound to its own value. This holds with short or interrupted transfers. A failing write is reported by the writer; a file that is missing, unreadable, damaged in an entry, made for another number of orbitals, or (where the format announces a size) cut off is refused, without touching memory outside the result.",
 ["inputs","fault_sequences"],
 "all integrals, sparse matrices, vectors, density matrices and keyword lists; "+IOW,IOT,
 [AI+"integrals.h++",AI+"rdms.h++",A+"utils.c++",AI+"utils.h++"],
 [("integral reader and writer",AI+"integrals.h++:read_FCIdump / write_FCIdump"),("density-matrix reader",AI+"rdms.h++:read_RDMs"),("matrix, vector and parameter readers",A+"utils.c++:ReadMat / ReadVec / ReadInput")],["objects returned, exceptions and return values, file content"])
prop("C21","Whole calculations: exact results on any number of processes, through faults, interruption and restart",
 "A run of the calculation program (active-space CI, selected CI or orbital optimisation, with the integral, density-matrix and wavefunction files it reads and writes) that ends normally reports an energy that is right for the Hamiltonian in its integral file, inactive orbitals and perturbative start orbitals included: an eigenvalue of the active space for CI, the energy of exactly the wavefunction it leaves on disk (of the requested size, normalised, without repetitions) for selected CI, and never below the exact energy. This holds for every number of processes, schedule and clock. A run that meets an I/O failure ends with an error or with right results and complete files. After the job or the machine is stopped at any point, a restart on any number of processes continues from exactly the wavefunction stored on disk, or is refused if that file is incomplete; input files are never changed.",
 ["inputs","schedules","fault_sequences","crash_points","configurations"],
 "all integrals, active spaces, settings, process counts (also changed between runs), schedules, lasting and transient I/O faults, kill points and machine crashes",
 "The tests run single functions for one molecule; none runs the program, kills it or restarts it.",
 ["tests/standalone_driver.cxx",M+"wavefunction_io.hpp","src/macis/fcidump.cxx",M+"asci/grow.hpp",M+"asci/refine.hpp",M+"util/cas.hpp",M+"util/mcscf_impl.hpp","src/macis/fock_matrices.cxx","src/macis/transform.cxx","src/macis/moller_plesset.cxx"],
 [("the program","tests/standalone_driver.cxx:main"),("core potential and energy","src/macis/fock_matrices.cxx:active_hamiltonian / inactive_energy"),("start orbitals","src/macis/moller_plesset.cxx, src/macis/transform.cxx"),("restart file",M+"wavefunction_io.hpp")],
 ["lines the program logs on each process, exit by exception, files on disk at the end of each run"])
# --- not simulation targets -------------------------------------------------
prop("N01","Slater-Condon rules and fast diagonals agree with the operator definition",
 "Matrix elements, incremental diagonal elements and signs of substitutions between any two determinants equal those of the second-quantised Hamiltonian.",
 ["inputs"],"all determinants and integrals","Tests sample a few determinants of one molecule.",
 [M+"hamiltonian_generator/matrix_elements.hpp",M+"hamiltonian_generator/fast_diagonals.hpp",M+"sd_operations.hpp",M+"bitset_operations.hpp"],
 [("Slater-Condon rules",M+"hamiltonian_generator/matrix_elements.hpp")])
prop("N02","Integral transformations are exact basis changes",
 "Two- and four-index transformations give the integrals in the rotated basis for every rectangular coefficient matrix and leading dimension.",
 ["inputs"],"all matrices and leading dimensions","Tests use identity, permutation and sub-blocks only.",
 ["src/macis/transform.cxx",M+"util/transform.hpp"],[("GEMM sequences","src/macis/transform.cxx")])
prop("N03","Orbital gradients, Hessians and line searches match their definitions",
 "Orbital gradients and Hessians equal derivatives of the energy under orbital rotation, and the quasi-Newton minimiser returns a stationary point or an error.",
 ["inputs"],"all integrals, density matrices and partitions","One molecule is sampled.",
 ["src/macis/orbital_gradient.cxx","src/macis/orbital_hessian.cxx","src/macis/orbital_steps.cxx","src/macis/bfgs/bfgs.hpp","src/macis/bfgs/line_search.hpp"],[("analytic formulas","src/macis/orbital_gradient.cxx")])
prop("N04","Fock matrices and perturbation theory follow their definitions",
 "Inactive, active and generalised Fock matrices and second-order perturbation energies and densities equal their textbook sums.",
 ["inputs"],"all integrals and occupations","One data set is compared.",
 ["src/macis/fock_matrices.cxx","src/macis/moller_plesset.cxx","src/macis/orbital_energies.cxx",M+"util/fock_matrices.hpp"],[("loops and GEMMs","src/macis/fock_matrices.cxx")])
prop("N05","Convergence acceleration reproduces the optimal residual combination",
 "Extrapolation returns the combination of stored vectors that minimises the combined residual subject to unit total weight, over a bounded history.",
 ["inputs"],"all histories of vectors","No test.",
 [M+"util/diis.hpp"],[("history and linear solve",M+"util/diis.hpp")])
prop("N06","Block eigensolver returns converged extremal eigenpairs or reports failure",
 "The locally optimal block solver returns orthonormal vectors with residuals below tolerance for the lowest eigenvalues, or reports non-convergence.",
 ["inputs"],"all symmetric operators and block sizes","One example program.",
 ["src/lobpcgxx/include/lobpcgxx/driver.hpp","src/lobpcgxx/include/lobpcgxx/cholqr.hpp"],[("iteration","src/lobpcgxx/include/lobpcgxx/driver.hpp")])
prop("N07","Serial sparse utilities (submatrix, graph, reorder, factorisation) are exact",
 "Extraction of blocks, triangles, diagonals, traces, adjacency and orderings of serial sparse matrices equal their dense definitions.",
 ["inputs"],"all matrices","Fixed small matrices.",
 [S+"util/submatrix.hpp",S+"util/graph.hpp",S+"spsolve/bunch_kaufman.hpp"],[("index arithmetic",S+"util/submatrix.hpp")])
prop("N08","Legacy orbital rotations, active-space folding and Green's-function assembly are exact",
 "Rotating the legacy library's integrals and density matrices, folding inactive orbitals into an active-space Hamiltonian and combining resolvents into a Green's function agree with their definitions.",
 ["inputs"],"all inputs of the legacy drivers","Four fixed inputs; the Green's-function part does not compile here.",
 ["attic/inc/cmz_ed/integrals.h++","attic/inc/cmz_ed/rdms.h++","attic/src/dbwy/gf.c++"],[("legacy implementation","attic/inc/cmz_ed/integrals.h++")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))

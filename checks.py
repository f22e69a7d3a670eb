"""The checks: harness, repository sources, and what their evidence says."""
KNOWN_FILE = 'known-findings.txt'
SPX = ['-lspdlog', '-lfmt']
ATTIC = ['-std=c++20', '-include', 'memory', '-include', 'optional', '-I', '{REPO}/attic/inc', '-I', '{REPO}/attic/external/lobpcgxx/include',
         '-I', '{REPO}/attic/external/sparsexx/include']      # as in attic's own build
LA = ['-llapackpp', '-lblaspp', '-lopenblas']

CHECKS = {
 'C01': dict(
    harness=['c01.cpp'],
    rule='a seed draws element type, order relation, 1-20 ranks, 1-400 (rarely 5000) values in one of 3 layouts and 5 distributions, k in [1,n], communicator kind, schedule policy and message/collective timing; non-trivial: more than one rank',
    real=['macis/util/dist_quickselect.hpp', 'macis/util/mpi.hpp']),
 'C02': dict(
    harness=['c02.cpp'],
    rule='a seed draws 1-14 ranks, one or two matrices (three element/index types, seven sparsity patterns, up to 40, rarely 300 rows), default or caller-chosen row partitions (also with empty ranks), 1-4 products with drawn scalars, schedule policy and message timing; non-trivial: at least one message was sent',
    real=['sparsexx spblas/pspmbv.hpp, spblas/spmbv.hpp, matrix_types/*, util/submatrix.hpp, util/permute.hpp, util/mpi.hpp']),
 'C03': dict(quick=90,
    harness=['c03.cpp'], link=SPX + LA,
    rule='a seed draws 1-12 ranks, a symmetric diagonally dominated matrix of order 1-40 (dense, banded, sparse, decoupled blocks, diagonal) or determinants with integrals, a row partition (default or any, with empty ranks), start vector (none, dense, sparse, unit, an eigenvector, near one, tiny; normalised or scaled by up to 10^1.5 either way; passed by some ranks only), tolerance, subspace limit, entry point (selected-CI solver, Davidson, serial forms), sometimes a second solve of a changed matrix from the result, schedule, message timing and clock steps; non-trivial: more than one rank and row',
    real=['macis/solvers/davidson.hpp, selected_ci_diag.hpp, csr_hamiltonian.hpp', 'sparsexx spblas/pspmbv.hpp, spmbv.hpp, matrix_types/*, util/submatrix.hpp', 'lobpcgxx rayleigh_ritz.hpp', 'blaspp, lapackpp, OpenBLAS']),
 'C04': dict(
    harness=['c04.cpp'], link=SPX + LA,
    rule='a seed draws 1-6 (rarely 30-36) orbitals, electron counts per spin, up to 80 (rarely 400) distinct determinants in any order, integrals (continuous, discrete, sparse), threshold, determinant width 64/128, index width 32/64, 1-12 ranks (sometimes a second rank count for the same list), schedule and collective timing; non-trivial: more than one rank and determinant',
    real=['macis/csr_hamiltonian.hpp, hamiltonian_generator.hpp, hamiltonian_generator/*, sd_operations.hpp, bitset_operations.hpp', 'sparsexx matrix_types/dist_sparse_matrix.hpp']),
 'C05': dict(quick=90,
    harness=['c05.cpp'], link=SPX + LA,
    rule='a seed draws 1-8 (rarely 30-64) orbitals, electron counts per spin, integrals (continuous, discrete with many ties, exactly equal weights, sparse), 1-30 (rarely 150) core determinants with coefficients (also zero or equal ones), energy, target size (0, few, some, as many as or more than the candidates), just_singles, pruning size, division depth, 1-12 ranks, sometimes a second search, schedule, collective timing and clock steps; non-trivial: more than one rank and at least one candidate',
    real=['macis/asci/determinant_search.hpp, determinant_contributions.hpp, determinant_sort.hpp, mask_constraints.hpp, util/dist_quickselect.hpp, hamiltonian_generator/*', 'spdlog (null sink)']),
 'C06': dict(quick=90,
    harness=['c06.cpp'], link=SPX + LA,
    rule='a seed draws 1-8 (rarely 30-64) orbitals, electron counts per spin, integrals, 1-30 (rarely 150) core determinants with coefficients, energy, just_singles, pruning size, division depth 0-5 (sometimes two of them), 1-12 ranks, schedule and collective timing; non-trivial: more than one rank and at least one candidate',
    real=['macis/asci/determinant_search.hpp, determinant_contributions.hpp, determinant_sort.hpp, mask_constraints.hpp, util/dist_quickselect.hpp, hamiltonian_generator/*', 'spdlog (null sink)']),
 'C07': dict(quick=90,
    harness=['c07.cpp'], repo=['src/macis/transform.cxx'], link=SPX + LA,
    rule='a seed draws 1-5 (rarely 6) orbitals, electron counts per spin, integrals, a start list (one determinant or a small solved list), growth settings (target, minimum, factor, core size, with or without natural-orbital rotation), refinement settings, solver tolerance, determinant width 64/128, index width 32/64, 1-10 ranks, schedule, message timing and clock steps; non-trivial: more than one rank',
    real=['macis/asci/grow.hpp, refine.hpp, iteration.hpp, determinant_search.hpp, mask_constraints.hpp, determinant_sort.hpp', 'macis/solvers/*, csr_hamiltonian.hpp, hamiltonian_generator/*, util/rdms.hpp, src/macis/transform.cxx', 'sparsexx, lobpcgxx, blaspp, lapackpp, OpenBLAS']),
 'C08': dict(
    harness=['c08.cpp'],
    rule='a seed draws 1-14 ranks and a program of 1-6 wrapper calls (kind, element type, operation, count incl. 0 and beyond INT_MAX, root), communicator kind, schedule policy and message/collective timing; non-trivial: more than one rank',
    real=['macis/util/mpi.hpp', 'sparsexx/util/mpi.hpp']),
 'C09': dict(
    harness=['c09.cpp'],
    rule='a seed draws 1-14 ranks, a (rectangular) matrix in one of seven patterns, index base and width, default/custom/invalid partition, and copy/move sequence; non-trivial: more than one rank, or an invalid partition',
    real=['sparsexx matrix_types/dist_sparse_matrix.hpp, matrix_types/csr_matrix.hpp, util/submatrix.hpp']),
 'C10': dict(
    harness=['c10.cpp'],
    rule='a seed draws 1-14 ranks, a (rectangular) matrix in one of seven patterns, index width and base, forced base, row partition, an older file, schedule and message timing, and one of: transparent transfer faults, a lasting write fault on some rank, the job dying at any MPI or file call, the machine dying there with unsynced data partly lost; non-trivial: more than one rank',
    real=['sparsexx io/write_dist_mm.hpp, io/write_mm.hpp, io/read_mm.hpp, matrix_types/*', 'libstdc++ file streams']),
 'C11': dict(
    harness=['c11.cpp'], kind='omp',
    rule='a seed draws 1-3 kernel calls (product for rows and triplets, three permutations, expansion to dense), matrices up to 30x30, rarely 150x150 (six patterns, empty rows, shuffled columns or triplets), index base, block width 1-5, leading dimensions, four element/index types, 1-12 threads (sometimes fewer than asked for, sometimes changed between calls), a preemption distance and a schedule policy; non-trivial: at least one region with more than one thread touched memory',
    real=['sparsexx spblas/spmbv.hpp, util/permute.hpp, matrix_types/dense_conversions.hpp, csr_matrix.hpp, coo_matrix.hpp', 'code generated by the compiler for the OpenMP constructs'],
    stub=['OpenMP runtime (simomp: threads are fibers)', 'heap (red zones, quarantine)']),
 'C12': dict(
    harness=['c12.cpp'],
    rule='a seed draws determinant width, orbital count, 0-300 (rarely 3000) determinants with coefficients of any magnitude, an older file, one of: transparent transfer faults, a lasting write fault, a read fault or missing file, a crash during the write, a cut file; non-trivial: the library wrote or read a file',
    real=['macis/wavefunction_io.hpp', 'macis/sd_operations.hpp (string conversion)', 'libstdc++ file streams']),
 'C13': dict(quick=90,
    harness=['c13.cpp'], flags=['-O2'], repo=['src/macis/fcidump.cxx'], link=SPX,
    rule='a seed draws 1-5 (rarely 10-13) orbitals, symmetric integrals of any finite bit pattern, leading dimensions, an older file, reader interface (array or span) and one of: transparent transfer faults, a lasting write fault, a read fault or missing file; or a file of another program (header, unique entries in any order, zero ones left out or not, either column order, Fortran exponents, orbital energies) read intact, under a read fault, with a damaged entry, or into arrays that are too small',
    real=['src/macis/fcidump.cxx (readers and writer)', 'libstdc++ file streams']),
 'C14': dict(
    harness=['c14.cpp'], repo=['src/macis/fcidump.cxx'], link=SPX,
    rule='a seed draws 1-7 (rarely 10-16) orbitals, leading dimensions for writing and reading, values of any bit pattern, an older file, and one of: transparent transfer faults, a lasting write fault, a read fault or missing file, a crash during the write, a cut file, a file of another orbital count',
    real=['src/macis/fcidump.cxx (read_rdms_binary, write_rdms_binary)', 'libstdc++ file streams']),
 'C15': dict(
    harness=['c15.cpp'],
    rule='a seed draws a (rectangular) matrix in one of seven patterns, index base and width and forced base, written by the library and read into row-compressed, column-compressed or triplet storage under one of the five fault scenarios; or a file of another program (comments, padding, entry order, capital letters, symmetric, pattern, or of an unsupported kind) read intact, under a read fault, cut, with a lost entry or a lost field',
    real=['sparsexx io/write_mm.hpp, io/read_mm.hpp, matrix_types/coo_matrix_ops.hpp, conversions', 'libstdc++ file streams']),
 'C16': dict(
    harness=['c16.cpp'],
    rule='a seed draws a (rectangular) matrix in one of seven patterns or a stored triangle, index base and width, written from row-compressed or triplet storage and read into either, and one of the five fault scenarios or an index outside the matrix',
    real=['sparsexx io/write_binary_triplets.hpp, io/read_binary_triplets.hpp, matrix_types/coo_matrix_ops.hpp, conversions', 'libstdc++ file streams']),
 'C17': dict(
    harness=['c17.cpp'],
    rule='a seed draws a (rectangular or triangular) matrix, number format and line layout of a Rutherford-Boeing file and one of: transparent read faults, a read error or missing file, a block holding too many numbers, an index or column start outside the matrix, a cut file',
    real=['sparsexx io/read_rb.hpp, matrix_types/csc_matrix.hpp, conversions', 'libstdc++ file streams'], stub=['the file is generated by the harness']),
 'C19': dict(
    harness=['c19.cpp'], kind='omp', mpi=True, flags=ATTIC, link=['-lopenblas', '-llapackpp', '-lblaspp'],
    repo=[f'attic/src/cmz_ed/{x}.c++' for x in ('utils', 'slaterdet', 'combins', 'hamil', 'eigsolver', 'bandlan', 'rdms', 'ed')],
    rule='a seed draws the kernel (Hamiltonian of a complete or partial space of up to 5 orbitals, or of a walk of determinants in up to 31 orbitals; vector kernels; block-Lanczos resolvent; ground state with density matrices), its input, the number of threads asked for and delivered, and the preemption points; non-trivial: more than one thread ran',
    real=['attic cmz_ed/{utils,slaterdet,combins,hamil,eigsolver,bandlan,rdms,ed}, lanczos.h++, integrals.h++ and their copies of sparsexx and lobpcgxx', 'Eigen, OpenBLAS (serial, uninstrumented)'], stub=['OpenMP runtime (simulated: sim/simomp.cpp)', 'MPI library (one process, simulated)']),
 'C20': dict(
    harness=['c20.cpp'], repo=['attic/src/cmz_ed/utils.c++', 'attic/src/cmz_ed/slaterdet.c++', 'attic/src/cmz_ed/rdms.c++', 'attic/src/cmz_ed/combins.c++'], flags=ATTIC,
    rule='a seed draws a kind of file (integrals written by the library or by other programs, density matrices, sparse matrix, vectors, parameters), its content and layout and one of: transparent faults, a write or read error, a missing file, a damaged entry, a cut file; non-trivial: the file holds data',
    real=['attic cmz_ed/integrals.h++, rdms.h++, utils', 'libstdc++ file streams'], stub=['files the library cannot write are generated by the harness']),
 'C18': dict(quick=90,
    harness=['c18.cpp'], repo=['src/macis/casscf.cxx', 'src/macis/fock_matrices.cxx', 'src/macis/orbital_gradient.cxx', 'src/macis/orbital_hessian.cxx', 'src/macis/orbital_steps.cxx', 'src/macis/orbital_rotation_utilities.cxx', 'src/macis/transform.cxx', 'src/macis/fcidump.cxx'], link=SPX + LA,
    rule='a seed draws either an active-space diagonalisation (1-5, rarely 6 orbitals, electron counts per spin, integrals, 1-12 ranks, sometimes restarted from its result; density matrices also formed in parts over the ranks, or one-body only) or an orbital optimisation (1-5 orbitals split into inactive, active, virtual, weakly coupled integrals, leading dimensions, step and DIIS settings, own or passed start density matrices, 1-5 ranks and again on one, and against an optimisation of our own), schedule, message timing and clock steps; non-trivial: more than one rank',
    real=['macis/util/cas.hpp, mcscf_impl.hpp, diis.hpp, rdms.hpp, src/macis/casscf.cxx, fock_matrices.cxx, orbital_*.cxx, transform.cxx', 'macis/solvers/*, csr_hamiltonian.hpp, hamiltonian_generator/*, sparsexx, lobpcgxx', 'Eigen, blaspp, lapackpp, OpenBLAS']),
 'C21': dict(quick=90,
    harness=['c21.cpp'], flags=['-O2', '-I', '{HERE}/sim/logshim', '-I', '{REPO}/tests', '-include', '{HERE}/harness/c21_main.hpp', '-include', 'functional', '-include', 'algorithm', '-include', 'numeric'],
    repo=['tests/standalone_driver.cxx', 'tests/ini_input.cxx', 'src/macis/casscf.cxx', 'src/macis/fock_matrices.cxx', 'src/macis/orbital_gradient.cxx', 'src/macis/orbital_hessian.cxx', 'src/macis/orbital_steps.cxx', 'src/macis/orbital_rotation_utilities.cxx', 'src/macis/orbital_energies.cxx', 'src/macis/moller_plesset.cxx', 'src/macis/transform.cxx', 'src/macis/fcidump.cxx'], link=['-lfmt'] + LA,
    rule='a seed draws a small molecule-like problem (1-5 orbitals split into inactive, active, virtual; core energy), a job (active-space CI, selected CI, orbital optimisation; optionally perturbative start orbitals, orbital rotation, density matrices from a file, integral and wavefunction output), 1-8 processes, settings, and one of: transparent transfer faults, a lasting write or read fault on some process, the job killed at any MPI or file call, the machine going down there; then mostly a restart from what is on disk (other process count, larger target, killed again) and a third run; non-trivial: more than one process',
    real=['tests/standalone_driver.cxx (the program itself), tests/ini_input.cxx', 'all of macis below it: asci/*, solvers/*, hamiltonian_generator/*, util/*, wavefunction_io.hpp, src/macis/*.cxx', 'sparsexx, lobpcgxx, blaspp, lapackpp, OpenBLAS, libstdc++ file streams'],
    stub=['MPI (simmpi)', 'file system calls (simio)', 'clocks', 'spdlog (per-process registry that keeps the lines)']),
}

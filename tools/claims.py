CLAIM = {
 'C08': ('proof', 'every sequence of slopes, energies and line-search outcomes, every maxiter, tolerance and restart period; components by their contracts; the iteration by induction'),
 'C19': ('proof', 'every sequence of line-search results and restart requests, every restart period and iteration count; components by their contracts; the iteration by induction'),
 'C20': ('proof', 'every smearing value, every numeric parameter, all eight entry points of the CPU build; components by their contracts'),
 'C01': ('proof', 'any band count, energies, weights, temperature and occupancy; bounded: two k-points; real arithmetic for the accounting, IEEE comparisons for the acceptance tests'),
 'C02': ('proof', 'any band count, energies, weights, temperature and occupancy; bounded: two k-points; real arithmetic'),
 'C03': ('proof', 'all arguments and occupancies; doubles treated as reals, libm functions exact'),
 'C04': ('proof', 'all arguments and occupancies; doubles treated as reals, libm functions exact'),
 'C05': ('proof', 'all arguments and occupancies; doubles treated as reals, libm functions exact'),
 'C07': ('proof', 'every objective function, slope, step, tolerance and restart parameter; IEEE comparison semantics for acceptance'),
 'C14': ('proof', 'any values, lengths and keys; bounded: 15 distributions of up to four k-points over one to four ranks; MPI collectives by contract'),
 'C16': ('proof', 'any values, extents, strides and keys; bounded: collections of up to four k-points; deferred execution of futures'),
 'C06': ('proof', 'any extents, leading dimensions, occupations, energies, keys and one arbitrary earlier evaluation, all smearing types; bounded: two k-points; real arithmetic; host code by contract mock'),
 'C09': ('proof', 'any matrices, extents, Hermitian positive overlap and preconditioner; bounded: one and two k-points (any keys); BLAS/LAPACK by contract; real arithmetic'),
 'C10': ('proof', 'any matrices, occupations, weights; bounded: one and two k-points (any keys) on a rank, any rank count through the sum contract; BLAS/LAPACK by contract; real arithmetic'),
 'C18': ('proof', 'any matrices, rotations and Fletcher-Reeves numerators; bounded: one and two k-points (any keys); BLAS/LAPACK by contract; real arithmetic'),
 'C11': ('proof', 'any matrices, extents, step length, Hermitian positive overlap; bounded: one and two k-points (any keys); BLAS/LAPACK by contract; real arithmetic'),
 'C12': ('proof', 'any band count, energies, Hamiltonian matrices, weights, temperature and occupancy, all smearing types; bounded: two k-points; real arithmetic'),
 'C13': ('proof', 'any shape and leading dimension, any complex coefficients; BLAS and LAPACK by contract; real arithmetic'),
 'C15': ('proof', 'any extents and strides, both operators, bounded: two k-points; unsupported memory kinds enumerated'),
 'C17': ('proof', 'any kinetic energies, extents, strides and keys; bounded: two k-points; real arithmetic'),
}
NA = {
 'C21': 'the CUDA/ROCm sources are not compiled in this build (no GPU toolchain), so no verifier here accepts their text',
 'C22': 'thread interleavings of the logger: the sequential contract verifier has no concurrent semantics and no concurrent C++ contract verifier is installed',
}

from .. import front, driver, native as N
from ..check import parallel
ASSUMPTIONS = ['cblas_zgemm and LAPACKE_zheevd by contract (nlv/mat.py): A U = U diag(w), U unitary, or a non-zero info (which the code turns into an exception)',
               'the overlap matrix (X + tZ)^H S (X + tZ) is positive definite (X + tZ of full column rank, S positive); eta and Z_eta Hermitian; doubles treated as reals']
BOUNDS = ['1 and 2 k-points']
P = ['the energies and the rotation diagonalise eta + t Z_eta', 'the rotation is unitary', 'the new orbitals are S-orthonormal', 'the new orbitals span the range of X + t Z', 'the new orbitals are rotated by the eigenvectors of eta + t Z_eta', 'the orbitals are not modified']
def deduct(ctx):
    m = front.build('geo.cpp'); m2 = front.build('la.cpp')
    jobs = []
    def add(mod, f, args, expect=None, n=2):
        def job(ctx): driver.run(ctx, mod, f, list(args), label=' '.join([f] + [str(x) for x in args]), cfg={'comm_size': n, 'comm_rank': 0}, expect=expect)
        job.label = f; jobs.append(job)
    add(m, 'step', (2,), P); add(m, 'step', (1,), P); add(m, 'step_nc', ()); add(m, 'step_again', (1,), P); add(m, 'step_again', (2,), P)
    for w in (0, 1): add(m2, 't_loewdin', (w,), n=1)
    parallel(ctx, jobs)
def native(ctx, failed): return N.standin(ctx, 'geo.cpp', [], 'random problems up to 9 x 5, 1-3 k-points, any step length')

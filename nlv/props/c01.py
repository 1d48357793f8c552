from .smear import *
from .. import native as N, driver
from .c04 import SMTYPES
from ..check import parallel
ASSUMPTIONS = ['the accounting over k-points is verified over real arithmetic; the acceptance tests of the searches over IEEE comparisons with uninterpreted arithmetic', 'two k-points per rank in the harness, any number of bands; gathering over several ranks is C14', 'NLCGLIB_DISABLE_NEWTON_EFERMI unset, "0" or "1"', 'callers of newton_minimization_chemical_potential are checked against its contract (discharged separately on its body)']
def modules():
    return front.build('smearing_cls.cpp'), front.build('smearing_cls.cpp', {'dft/newton_minimization_smearing.hpp': 'newton_contract.hpp'})
def occ_jobs(m0, m1, what):
    def mk(k, S, env=None):
        lab = 'Smearing::fn<%s>' % S + (' with NLCGLIB_DISABLE_NEWTON_EFERMI=%s' % env if env else '')
        def setup(e):
            if env: e.env = {'NLCGLIB_DISABLE_NEWTON_EFERMI': env}
            return abstract_smearing(e)
        def job(ctx):
            fins, e = driver.run(ctx, m1 if k >= 3 else m0, 'occupations', [k, what, env != '1'], label=lab, cut_ok=True, setup=setup)
            if fins is not None:
                for c in ('returns', 'throws'): 
                    if c not in e.covers: ctx.limit('%s: reachability of %s' % (lab, c), 'not covered')
        job.label = lab
        return job
    # the variable selects the bisection search for the non-monotone types
    return [mk(k, S) for k, S in enumerate(SMTYPES)] + [mk(k, SMTYPES[k], v) for k, v in ((3, '1'), (4, '1'), (0, '1'), (3, '0'))]
def deduct(ctx):
    m0, m1 = modules()
    def mk(f):
        def job(ctx):
            fins, e = driver.run(ctx, m0, f, mode='F', cut_ok=True, label=f)
            for c in ('returns', 'throws'): 
                if c not in e.covers: ctx.limit('%s: reachability of %s' % (f, c), 'not covered')
        return job
    parallel(ctx, [mk('find_mu_contract'), mk('newton_contract')] + occ_jobs(m0, m1, 1))
def native(ctx, failed): return N.standin(ctx, 'smearcls.cpp', [ctx.prop], 'Smearing on random systems, 1 and 2 ranks', np=(1, 2))

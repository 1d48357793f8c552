from .. import front, driver, native as N
ASSUMPTIONS = ['comparisons of doubles are IEEE (NaN included), arithmetic and the energy along the curve are uninterpreted functions', 'for the choice of the quadratic step doubles are treated as reals and the trial step is positive', 'termination of the search loops is not claimed']
COVERS = ('slope error', 'descent error', 'invalid tau', 'returns', 'returns to start', 'accepts')
def deduct(ctx):
    m = front.build('linesearch.cpp')
    for after in (0, 1):
        label = 'line_search after an earlier search' if after else 'line_search'
        fins, e = driver.run(ctx, m, 'ls_contract', [after], mode='F', cut_ok=True, label=label)
        for c in COVERS + (('earlier search returns', 'earlier search throws') if after else ()):
            if fins is not None and c not in e.covers: ctx.limit(label + ': reachability of ' + c, 'not covered')
    fins, e = driver.run(ctx, m, 'ls_parabola', cut_ok=True, label='quadratic step', expect=['the quadratic step is the minimiser of the parabola through start value, slope and last trial value'])
    if fins is not None and 'quadratic step' not in e.covers: ctx.limit('quadratic step: reachability', 'not covered')
def native(ctx, failed): return N.standin(ctx, 'linesearch.cpp', [], 'line search on random, adversarial and NaN energy curves')

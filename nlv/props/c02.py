from .c01 import *
def deduct(ctx):
    m0, m1 = modules()
    parallel(ctx, occ_jobs(m0, m1, 2))

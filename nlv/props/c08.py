from . import drv
CONTRACT_HEADER = 'overlay/drv_contract.hpp'
ASSUMPTIONS = drv.ASSUMPTIONS
def deduct(ctx): drv.deduct(ctx, 'C08:', [(0, t) for t in range(5)])
def native(ctx, failed): return drv.standin(ctx, 'C08')

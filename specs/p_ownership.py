"""Two-step ownership, in every contract that has an owner"""
from vc import *
from registry import prop
from common import *

p = prop('C03')


def std(c, when): return getattr(c, when)('config').owner


EX = 'contract::execute'
ownership(p, 'astroport_vesting', EX, std, tag='vesting: ')
ownership(p, 'astroport_factory', EX, std, tag='factory: ')
ownership(p, 'astroport_incentives', 'execute::execute', std, tag='incentives: ')
ownership(p, 'astroport_maker', EX, std, tag='maker: ')
ownership(p, 'astroport_native_coin_registry', EX, std, tag='coin registry: ')
ownership(p, 'astroport_fee_granter', EX, std, tag='fee granter: ')


def pool(fa):
    """a pool's own owner if it has one, else the factory's"""
    def f(c, when):
        cfg = getattr(c, when)('config')
        if cfg.owner.some is not None:
            return cfg.owner.some
        return c.raw(fa(cfg), 'config').owner
    return f


ownership(p, 'astroport_pair_concentrated', EX, pool(lambda x: x.factory_addr), tag='concentrated pool: ')
ownership(p, 'astroport_pair_stable', EX, pool(lambda x: x.factory_addr), tag='stable pool: ')

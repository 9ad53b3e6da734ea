"""xASTRO staking: contracts/tokenomics/staking"""
from vc import *
from registry import prop

CR = 'astroport_staking'
p = prop('C13')


def paid(c):
    """the single coin sent along (spec: exactly one coin)"""
    f = c.info.funds.list
    c.ensure('exactly one coin is accepted', len(f) == 1)
    return f[0] if len(f) == 1 else None


def minted(c, effs):
    return [e for e in effs if e.kind == 'tf_mint']


def enter_post(hook):
    def post(c):
        cfg = c.pre('config')
        coin = paid(c)
        if coin is None:
            return
        a = coin.amount.n
        c.ensure('only the deposit denom is accepted', c.eq(coin.denom, cfg.astro_denom))
        dep = c.native_balance(c.self_addr, cfg.astro_denom.s) - a
        shares = c.supply(cfg.xastro_denom.s)
        effs = c.effects()
        m = minted(c, effs)
        total = 0
        for e in m:
            c.ensure('only the share denom is minted, by and to the contract',
                     And(c.eq(e.denom, cfg.xastro_denom), c.eq(e.to, c.self_addr), c.eq(e.sender, c.self_addr)))
            total = total + e.amount
        rec = c.msg.contract_address.s if hook else c.receiver(c.msg.receiver)
        if c.holds(Or(T.eq(shares, 0), T.eq(dep, 0))):
            c.cover('first stake')
            out = a - 1000
            c.ensure('the first stake locks the minimum liquidity in the contract', T.eq(total, a))
        else:
            c.cover('later stake')
            out = T.fdiv(a * shares, dep)
            c.ensure('exactly the paid-out shares are minted', T.eq(total, out))
            c.ensure('the deposit per share does not decrease', T.le(dep * (shares + total), (dep + a) * shares))
        c.ensure('a stake yields at least one share', T.lt(0, out))
        c.flows_are('payouts', c.payouts(effs), [('native', cfg.xastro_denom.s, rec, out)])
        c.ensure('nothing is burned', not [e for e in effs if e.kind == 'tf_burn'])
        c.only_written()
    return post


def leave_post(c):
    cfg = c.pre('config')
    coin = paid(c)
    if coin is None:
        return
    a = coin.amount.n
    c.ensure('only the share denom is accepted', c.eq(coin.denom, cfg.xastro_denom))
    dep = c.native_balance(c.self_addr, cfg.astro_denom.s)
    shares = c.supply(cfg.xastro_denom.s)
    effs = c.effects()
    out = T.fdiv(a * dep, shares)
    burnt = 0
    for e in effs:
        if e.kind == 'tf_burn':
            c.ensure('only the received shares are burned', And(c.eq(e.denom, cfg.xastro_denom), c.eq(e.sender, c.self_addr)))
            burnt = burnt + e.amount
    c.ensure('exactly the returned shares are burned', T.eq(burnt, a))
    c.ensure('nothing is minted', not minted(c, effs))
    c.ensure('the deposit per remaining share does not decrease', T.le(dep * (shares - a), (dep - out) * shares))
    rec = c.receiver(c.msg.receiver)
    # the contract's self-send of one share unit (supply snapshot) moves nothing
    c.flows_are('payouts', c.payouts(effs), [('native', cfg.astro_denom.s, rec, out)], but=c.self_addr)
    c.only_written()
    c.cover('leave')


p.add(Scenario('enter', CR, 'contract::execute', enter_post(False), fixed={'msg': 'Enter'}, covers=['first stake', 'later stake']),
      Scenario('enter with hook', CR, 'contract::execute', enter_post(True), fixed={'msg': 'EnterWithHook'}, covers=['first stake', 'later stake']),
      Scenario('leave', CR, 'contract::execute', leave_post, fixed={'msg': 'Leave'}, covers=['leave']))

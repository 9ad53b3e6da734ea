"""Transmuter pool: contracts/pair_transmuter"""
from vc import *
from registry import prop
from common import *
import xyk

CR = 'astroport_pair_transmuter'
EX, Q = 'contract::execute', 'queries::query'
P = prop('C25')
E18 = 10 ** 18


def inv(c):
    """stored configuration (established by instantiate): distinct native coins, each with a positive coefficient"""
    c.ex.lens['st:config.pair_info.asset_infos'] = ('exact', 2, 3, 4) if c.run.tier == 'thorough' else ('exact', 2, 3)
    c.ex.lens['msg.assets'] = (0, 1, 2, 3) if c.run.tier == 'thorough' else (0, 1, 2)
    c.ex.lens['norm_coeff'] = c.ex.lens['st:config.pair_info.asset_infos']

    def init(v):
        l = v.pair_info.asset_infos.list
        es = v.norm_coeff.entries
        x = [all(a.is_('NativeToken') for a in l), len(es) == len(l)]
        if len(es) == len(l):
            for a, (k, n) in zip(l, es):
                if a.is_('NativeToken'):
                    x += [v.c.eq(k, a.denom), T.lt(0, n.n), T.le(n.n, E18 * 10)]
        for i, a in enumerate(l):
            for b in l[i + 1:]:
                x.append(Not(v.c.eq(a, b)))
        return And(*x)
    c.assume_initial('config', init)


def coeff(c, cfg, info):
    """(index in the pool, normalization coefficient) of an asset; None if it is not in the pool"""
    k, a = c.asset_id(info)
    if k != 'native':
        return None
    for i, (x, e) in enumerate(zip(cfg.pair_info.asset_infos.list, cfg.norm_coeff.entries)):
        if c.same(c.asset_id(x)[1], a):
            return i, e[1].n
    return None


def bals(c, cfg):
    return xyk.balances(c, cfg)


def ask_of(c, cfg, i, ask):
    """index of the asset asked for when i is offered"""
    l = cfg.pair_info.asset_infos.list
    if len(l) == 2:
        return 1 - i
    c.ensure('with more than two assets the asked one is named', ask is not None)
    if ask is None:
        return None
    r = coeff(c, cfg, ask)
    c.ensure('the asked asset is in the pool', r is not None)
    return None if r is None else r[0]


def swap_post(c):
    cfg = c.pre('config')
    o = c.msg.offer_asset
    r = coeff(c, cfg, o.info)
    c.ensure('only assets of the pool are traded', r is not None)
    if r is None:
        return
    i, ci = r
    j = ask_of(c, cfg, i, c.msg.ask_asset_info.some)
    if j is None:
        return
    fl = c.info.funds.list
    c.ensure('exactly the offered coins are sent', len(fl) == 1 and And(c.eq(fl[0].denom, o.info.denom), T.eq(fl[0].amount.n, o.amount.n)))
    cj = cfg.norm_coeff.entries[j][1].n
    n = T.fdiv(o.amount.n * ci, cj)
    to = c.receiver(c.msg.to)
    ask = c.asset_id(cfg.pair_info.asset_infos.list[j])
    c.flows_are('the same value is paid in the other asset', c.payouts(), [ask + (to, n)])
    c.ensure('no more than the pool holds', T.le(n, bals(c, cfg)[j]))
    c.ensure('no value leaves the pool', T.le(n * cj, o.amount.n * ci))
    c.only_messages('send')
    c.only_written()
    c.cover('two assets' if len(cfg.pair_info.asset_infos.list) == 2 else 'more assets')


def provide_post(c):
    cfg = c.pre('config')
    l = c.msg.assets.list
    c.ensure('something is provided', len(l) > 0)
    total, ds = 0, []
    for x in l:
        r = coeff(c, cfg, x.info)
        c.ensure('only assets of the pool are provided', r is not None)
        if r is None:
            return
        ds.append(x.info.denom)
        c.ensure('each deposit is sent', T.eq(c.sent(x.info.denom), x.amount.n))
        total = total + x.amount.n * r[1]
    for i, d in enumerate(ds):
        for e in ds[i + 1:]:
            c.ensure('no asset is named twice', Not(c.eq(d, e)))
    for f in c.info.funds.list:
        c.ensure('every coin sent is credited', Or(T.eq(f.amount.n, 0), *[c.eq(f.denom, d) for d in ds]))
    au = c.msg.auto_stake.some
    c.ensure('staking is not supported', au is None or Not(au.b))
    effs = c.effects()
    lp = cfg.pair_info.liquidity_token.s
    ok = len(effs) == 1 and effs[0].kind == 'tf_mint'
    c.ensure('LP tokens are minted once', ok)
    if ok:
        e = effs[0]
        c.ensure('exactly the value provided is minted', T.eq(e.amount, total))
        c.ensure('to the receiver or the sender', c.eq(e.to, c.receiver(c.msg.receiver)))
        c.ensure('of the LP token of this pool', And(c.eq(e.denom, lp), c.eq(e.sender, c.self_addr)))
    c.only_written()
    c.cover('one' if len(l) == 1 else 'more')


def withdraw_post(c):
    cfg = c.pre('config')
    lp = cfg.pair_info.liquidity_token.s
    fl = c.info.funds.list
    c.ensure('only LP tokens of this pool are redeemed', len(fl) == 1 and And(c.eq(fl[0].denom, lp), T.lt(0, fl[0].amount.n)))
    if len(fl) != 1:
        return
    n = fl[0].amount.n
    l = c.msg.assets.list
    effs = c.effects()
    pays = [p for p in c.payouts(effs) if p[2].lit != '!burn']
    bal = bals(c, cfg)
    infos = cfg.pair_info.asset_infos.list
    if not l:
        total = c.supply(lp)
        ratio = T.fdiv(n * E18, total)
        out = [T.fdiv(b * ratio, E18) for b in bal]
        c.flows_are('each asset is paid pro rata', pays, [c.asset_id(y) + (c.sender, p) for y, p in zip(infos, out)])
        for p, b in zip(out, bal):
            c.ensure('no more than the pro rata share is paid', T.le(p * total, b * n))
        burned = n
        c.cover('balanced')
    else:
        burned, exp = 0, []
        for x in l:
            r = coeff(c, cfg, x.info)
            c.ensure('only assets of the pool are paid', r is not None)
            if r is None:
                return
            burned = burned + x.amount.n * r[1]
            c.ensure('no more than the pool holds', T.le(x.amount.n, bal[r[0]]))
            exp.append(c.asset_id(x.info) + (c.sender, x.amount.n))
        c.ensure('the LP tokens cover what is asked for', T.le(burned, n))
        c.flows_are('exactly what was asked for is paid, and the unused LP tokens are returned', pays, exp + [('native', lp, c.sender, n - burned)])
        c.cover('imbalanced')
    b = [e for e in effs if e.kind == 'tf_burn']
    c.ensure('exactly the value paid is burned', len(b) == 1 and And(c.eq(b[0].denom, lp), T.eq(b[0].amount, burned), c.eq(b[0].sender, c.self_addr)))
    c.only_messages('send', 'tf_burn')
    c.only_written()


def no_hook(c):
    c.ensure('no other operation is supported', False)


def value(c, n, top):
    """the value of a number, by cases"""
    for k in range(top):
        if c.holds(T.eq(n, k)):
            return k
    return None


def init_post(c):
    cfg = c.post('config')
    l = c.msg.asset_infos.list
    c.ensure('a pool has 2 to 5 assets', 2 <= len(l) <= 5)
    c.ensure('all are native coins', all(x.is_('NativeToken') for x in l))
    for i, x in enumerate(l):
        for y in l[i + 1:]:
            c.ensure('they are distinct', Not(c.eq(x, y)))
    p = cfg.pair_info
    c.ensure('the pool trades the given assets', c.eq(p.asset_infos, c.msg.asset_infos))
    c.ensure('the pool has its own address', c.eq(p.contract_addr, c.self_addr))
    c.ensure('there is no LP token yet', c.eq(p.liquidity_token, ''))
    c.ensure('the factory is the given one', c.eq(cfg.factory_addr, c.msg.factory_addr))
    ds = [asset_decimals(c, x, c.msg.factory_addr.s) for x in l]
    c.ensure('the decimals of every coin are asked', all(d is not None for d in ds))
    if not all(d is not None for d in ds):
        return
    ks = [value(c, d.n, 20) for d in ds]
    c.ensure('at most 19 decimals', None not in ks)
    if None in ks:
        return
    for i, x in enumerate(l):
        v = cfg.norm_coeff.at(x.denom)
        c.ensure('every coin has a coefficient', v is not None)
        if v is None:
            continue
        c.ensure('coefficients bring every coin to the same decimals', T.eq(v.n * 10 ** ks[i], 10 ** max(ks)))
        c.ensure('coefficients are positive', T.lt(0, v.n))
    effs = c.effects()
    c.ensure('exactly the LP denom is created', len(effs) == 1 and effs[0].kind == 'proto' and (effs[0].url.lit or '').endswith('MsgCreateDenom'))
    c.cover('created')


def reply_post(c):
    a, b = c.pre('config'), c.post('config')
    c.ensure('only the reply that was asked for', T.eq(c.msg.id.n, 1))
    d = c.msg.result.get('0').data.some
    c.ensure('the LP token is set only once', c.eq(a.pair_info.liquidity_token, ''))
    c.ensure('the LP token is the denom that was created', c.eq(b.pair_info.liquidity_token, d.created_denom()))
    c.ensure('nothing else changes', And(a.same_but(b, 'pair_info'), a.pair_info.same_but(b.pair_info, 'liquidity_token')))
    c.only_messages()
    c.only_written('config')
    c.cover('ok')


# ------------------------------------------------------------------ queries
def q_assets(c, name, l, infos, amounts):
    l = l.list
    c.ensure(f'{name}: every asset is answered', len(l) == len(infos))
    for x, i, n in zip(l, infos, amounts):
        c.ensure(f'{name}: the asset is the one of the pool', c.eq(x.info, i))
        c.ensure(f'{name}: the amount is right', T.eq(x.amount.n, n))


def q_pool_post(c):
    cfg = c.pre('config')
    r = c.ret.json()
    q_assets(c, 'pool', r.assets, cfg.pair_info.asset_infos.list, bals(c, cfg))
    c.ensure('the LP supply is answered', T.eq(r.total_share.n, c.supply(cfg.pair_info.liquidity_token.s)))
    c.cover('ok')


def q_share_post(c):
    cfg = c.pre('config')
    ratio = T.fdiv(c.msg.amount.n * E18, c.supply(cfg.pair_info.liquidity_token.s))
    q_assets(c, 'share', c.ret.json(), cfg.pair_info.asset_infos.list, [T.fdiv(b * ratio, E18) for b in bals(c, cfg)])
    c.cover('ok')


def q_sim_post(c):
    cfg = c.pre('config')
    o = c.msg.offer_asset
    r = coeff(c, cfg, o.info)
    c.ensure('only assets of the pool are simulated', r is not None)
    if r is None:
        return
    j = ask_of(c, cfg, r[0], c.msg.ask_asset_info.some)
    if j is None:
        return
    x = c.ret.json()
    n = T.fdiv(o.amount.n * r[1], cfg.norm_coeff.entries[j][1].n)
    c.ensure('the swap would pay this', T.eq(x.return_amount.n, n))
    c.ensure('without fee and spread', And(T.eq(x.spread_amount.n, 0), T.eq(x.commission_amount.n, 0)))
    c.ensure('the pool holds it', T.le(n, bals(c, cfg)[j]))
    c.cover('ok')


def reverse(c):
    cfg = c.pre('config')
    a = c.msg.ask_asset
    if cfg is None:
        return None, None, None, None
    r = coeff(c, cfg, a.info)
    o = c.msg.offer_asset_info.some
    return cfg, a, r, o


def q_rev_post(c):
    cfg, a, r, o = reverse(c)
    c.ensure('only assets of the pool are simulated', r is not None)
    if r is None:
        return
    if o is not None:
        q = coeff(c, cfg, o)
        c.ensure('the offered asset is in the pool', q is not None)
        if q is None:
            return
        ci = q[1]
        c.cover('named')
    else:
        k = 1 if r[0] == 0 else 0
        ci = cfg.norm_coeff.entries[k][1].n
        c.cover('not named')
    x = c.ret.json()
    c.ensure('the same value is to be offered', T.eq(x.offer_amount.n, T.fdiv(a.amount.n * r[1], ci)))
    c.ensure('without fee and spread', And(T.eq(x.spread_amount.n, 0), T.eq(x.commission_amount.n, 0)))
    c.ensure('the pool holds it', T.le(a.amount.n, bals(c, cfg)[r[0]]))


def q_rev_err(c):
    """what the pool can pay is answered"""
    cfg, a, r, o = reverse(c)
    if r is None or (o is not None and coeff(c, cfg, o) is None):
        return
    c.ensure('an amount the pool holds is answered', T.lt(bals(c, cfg)[r[0]], a.amount.n))


def answered(c):
    inv(c)
    c.ex.queries_succeed = True


OTHER = ['Receive', 'UpdateConfig', 'ProposeNewOwner', 'DropOwnershipProposal', 'ClaimOwnership', 'Custom']
P.add(*[Scenario('no ' + v, CR, EX, no_hook, setup=inv, fixed={'msg': v}) for v in OTHER])
P.add(Scenario('swap', CR, EX, swap_post, setup=inv, fixed={'msg': 'Swap'}, covers=['two assets', 'more assets']),
      Scenario('provide', CR, EX, provide_post, setup=inv, fixed={'msg': 'ProvideLiquidity'}, covers=['one', 'more']),
      Scenario('withdraw', CR, EX, withdraw_post, setup=inv, fixed={'msg': 'WithdrawLiquidity'}, covers=['balanced', 'imbalanced']),
      Scenario('reply', CR, 'contract::reply', reply_post, setup=inv, covers=['ok']),
      Scenario('pool', CR, Q, q_pool_post, setup=inv, fixed={'msg': 'Pool'}, covers=['ok']),
      Scenario('share', CR, Q, q_share_post, setup=inv, fixed={'msg': 'Share'}, covers=['ok']),
      Scenario('simulation', CR, Q, q_sim_post, setup=inv, fixed={'msg': 'Simulation'}, covers=['ok']),
      Scenario('reverse', CR, Q, q_rev_post, setup=inv, fixed={'msg': 'ReverseSimulation'}, covers=['named', 'not named']),
      Scenario('reverse is answered', CR, Q, q_rev_post, setup=answered, fixed={'msg': 'ReverseSimulation'}, err=q_rev_err, covers=['named', 'not named']),
      Scenario('instantiate', CR, 'contract::instantiate', init_post, covers=['created']))

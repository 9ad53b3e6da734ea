"""Contracts shared by the constant product pools (pair, pair_xyk_sale_tax): the functional specification of a swap, of
providing and of withdrawing liquidity, and of the price accumulators, as terms over what the contract is told."""
from vc import *
from common import *

E18 = 10 ** 18
WRAP = 2 ** 128
MIN_LIQ = 1000


def distinct_assets(crate):
    """invariant of the stored configuration (established by instantiate, C20): two distinct assets"""
    def f(c):
        c.ex.lens['st:config.pair_info.asset_infos'] = ('always', 2)
        c.ex.lens['st:config.tax_configs'] = ('always', 0, 1, 2)     # keys are distinct and denoms of the pair

        def init(v):
            a, b = [c2 for c2 in v.pair_info.asset_infos.list]
            x = Not(v.c.eq(v.c.asset_id(a)[1], v.c.asset_id(b)[1]))
            if crate == 'astroport_pair':       # established by update_config
                f = v.fee_share.some
                if f is not None:
                        x = And(x, T.lt(0, f.bps.n), T.le(f.bps.n, 1000))
            else:
                x = And(x, taxes_ok(v.c, v.tax_configs.get('0'), [a, b]))
            return x
        c.assume_initial('config', init)
    return f


def taxes_ok(c, taxes, infos):
    """sale taxes are on native coins of the pair and at most 50 %"""
    ds = [x.denom for x in infos if x.is_('NativeToken')]
    return And(*[And(T.le(t.tax_rate.n, 5 * 10 ** 17), Or(*[c.eq(k, d) for d in ds])) for k, t in taxes.entries])


def sale_tax(c, cfg, off, n):
    """(recipient, amount) of the tax on an offer, None if there is none"""
    if off[0] != 'native':
        return None
    t = cfg.tax_configs.get('0').at(off[1])
    if t is None:
        return None
    c.cover('taxed')
    return t.tax_recipient.s, T.fdiv(n * t.tax_rate.n, E18)


def offer(c):
    """(asset id, amount, trader, options) of a swap, direct or through the cw20 hook"""
    if c.msg.is_('Receive'):
        m = c.msg.get('0')
        return ('cw20', c.sender), m.amount.n, m.sender.s, m.msg.json('astroport::pair::Cw20HookMsg')
    o = c.msg.offer_asset
    return c.asset_id(o.info), o.amount.n, c.sender, c.msg


def side(c, cfg, off):
    """index of the pool that is offered to; None if the asset is not in the pool"""
    for i, x in enumerate(cfg.pair_info.asset_infos.list):
        k, a = c.asset_id(x)
        if k == off[0] and c.same(a, off[1]):
            return i
    return None


def balances(c, cfg):
    return [c.balance(x, cfg.pair_info.contract_addr.s) for x in cfg.pair_info.asset_infos.list]


class Fees:
    def __init__(self, c, cfg):
        r = c.smart(cfg.factory_addr, 'FeeInfo')
        c.ensure('the fees are those the factory names for this pair type', r is not None)
        if r is None:
            raise SpecError('no fees')
        c.ensure('the fees are those the factory names for this pair type',
                 c.eq(r.msg.json('astroport::factory::QueryMsg').pair_type, cfg.pair_info.pair_type))
        self.total = T.fdiv(r.answer.total_fee_bps.n * E18, 10000)
        self.maker = T.fdiv(r.answer.maker_fee_bps.n * E18, 10000)
        self.address = r.answer.fee_address.some


def out_amount(o, a, n):
    """what a constant product pool gives for n before fees: a - o*a/(o+n), the quotient cut to 18 decimals, rounded down"""
    return T.fdiv(a * E18 - T.fdiv(o * a * E18, o + n), E18)


def check_limits(c, opts, n, gross, o, a):
    """belief price and maximum spread"""
    ms = opts.max_spread.some
    ms = 5 * 10 ** 15 if ms is None else ms.n
    c.ensure('no more than half can be allowed as spread', T.le(ms, 5 * 10 ** 17))
    b = opts.belief_price.some
    if b is not None:
        exp = T.fdiv(n * T.fdiv(10 ** 36, b.n), E18)
        c.ensure('the result is within the spread allowed around the believed price',
                 Or(T.le(exp, gross), T.le(T.fdiv((exp - gross) * E18, exp), ms)))
        c.cover('belief')
    else:
        sp = T.fdiv(n * T.fdiv(a * E18, o), E18)
        sp = T.ite(T.le(gross, sp), sp - gross, 0)
        c.ensure('the spread is within the allowed one', T.le(T.fdiv(sp * E18, gross + sp), ms))
        c.cover('spread')


def accumulators(c, a, b, x, y, name='prices'):
    """the price accumulators advance by the time passed times the price before the operation; never twice for the same time"""
    now, last = c.now, a.block_time_last.n
    fresh = T.lt(last, now)
    dt = now - last
    priced = And(fresh, T.lt(0, x), T.lt(0, y))
    for i, (p, q) in enumerate(((y, x), (x, y))):
        o, v = a.get(f'price{i}_cumulative_last').n, b.get(f'price{i}_cumulative_last').n
        if c.holds(priced):
            c.ensure(f'{name}: accumulator {i} grows by time times price', T.eq(v, T.fmod(o + T.fdiv(dt * 10 ** 6 * p, q), WRAP)))
            c.cover('accumulated')
        else:
            c.ensure(f'{name}: accumulator {i} is kept when there is no price or no time passed', T.eq(v, o))
    c.ensure(f'{name}: the time of the accumulators is the latest operation', T.eq(b.block_time_last.n, T.ite(fresh, now, last)))
    c.ensure('the rest of the configuration is kept', a.same_but(b, 'price0_cumulative_last', 'price1_cumulative_last', 'block_time_last'))


def tracked(c, cfg, amounts):
    """recorded balances are those after the operation, when the pool tracks them"""
    if c.holds(cfg.track_asset_balances.b):
        keys = []
        for x, n in zip(cfg.pair_info.asset_infos.list, amounts):
            v = c.post('balances', x, 'cosmwasm_std::Uint128')
            c.ensure('the recorded balance is the one after the operation', v is not None and T.eq(v.n, n))
            c.ensure('balances are recorded under the block', c.snapped('balances', x, c.env.block.height.n))
            keys.append(x)
        c.only_keys('balances', keys)
        c.only_written("config", "balances")
        c.cover('tracked')
    else:
        c.only_written('config')


def swap_common(c, tax=None):
    off, n0, trader, opts = offer(c)
    cfg = c.pre('config')
    i = side(c, cfg, off)
    c.ensure('only assets of the pool are traded', i is not None)
    if i is None:
        return
    bal = balances(c, cfg)
    bal[i] = bal[i] - n0
    o, a = bal[i], bal[1 - i]
    infos = cfg.pair_info.asset_infos.list
    return cfg, off, n0, trader, opts, i, bal, o, a, c.asset_id(infos[1 - i])


def swap_pay_post(tax=None):
    """what is paid to whom"""
    def post(c):
        r = swap_common(c)
        if r is None:
            return
        cfg, off, n0, trader, opts, i, bal, o, a, ask = r
        f = Fees(c, cfg)
        want = []
        n = n0
        if tax:
            t = tax(c, cfg, off, n0)
            if t is not None:
                n = n0 - t[1]
                want.append(('native', off[1], t[0], t[1]))
        c.ensure('empty pools do not trade', And(T.lt(0, o), T.lt(0, a)))
        gross = out_amount(o, a, n)
        com = T.fdiv(gross * f.total, E18)
        c.fact_mul(gross, f.total, E18)
        ret = gross - com
        to = opts.to.some
        want.append(ask + (trader if to is None else to.s, ret))
        left, fs = com, None
        if not tax:
            fs = cfg.fee_share.some
        out = ret
        if fs is not None:
            x = T.fdiv(com * T.fdiv(fs.bps.n * E18, 10000), E18)
            c.fact_mul(com, fs.bps.n, 1000)
            x = c.nz(x)
            want.append(ask + (fs.recipient.s, x))
            left = com - x
            out = out + x
            c.cover('fee share')
        if f.address is not None:
            x = T.fdiv(left * f.maker, E18)
            c.fact_mul(left, f.maker, E18)
            x = c.nz(x)
            want.append(ask + (f.address.s, x))
            out = out + x
            c.cover('maker fee')
        effs = c.effects()
        c.flows_are('payouts', c.payouts(effs), want)
        c.only_messages('send', 'transfer')
        if off[0] == 'native':
            c.ensure('exactly the offered coins were sent', T.eq(c.sent(off[1]), n0))
        else:
            c.cover('cw20 offered')
        c.cover(ask[0])
        end = list(bal)
        end[i] = o + n
        end[1 - i] = a - out
        c.ensure('the pool pays no more than it has', Or(T.lt(E18, f.total), T.lt(E18, f.maker), T.le(out, a)))
        tracked(c, cfg, end)
    return post


def swap_limits_post(tax=None):
    def post(c):
        r = swap_common(c)
        if r is None:
            return
        cfg, off, n0, trader, opts, i, bal, o, a, ask = r
        n = n0
        if tax:
            t = tax(c, cfg, off, n0)
            if t is not None:
                n = n0 - t[1]
        c.ensure('only a cw20 token of the pool may call the hook', off[0] == 'native' or c.msg.is_('Receive'))
        c.ensure('something is offered', T.lt(0, n))
        check_limits(c, opts, n, out_amount(o, a, n), o, a)
    return post


def swap_twap_post(c):
    r = swap_common(c)
    if r is None:
        return
    cfg, off, n0, trader, opts, i, bal, o, a, ask = r
    accumulators(c, cfg, c.post('config'), bal[0], bal[1])


# ------------------------------------------------------------------ liquidity
def deposits(c, cfg):
    """what is deposited of each asset of the pool"""
    out = []
    l = c.msg.assets.list
    c.ensure('both assets of the pool are named', len(l) == 2)
    for x in cfg.pair_info.asset_infos.list:
        k, a = c.asset_id(x)
        for d in l:
            k2, a2 = c.asset_id(d.info)
            if k == k2 and c.same(a, a2):
                out.append(d.amount.n)
                break
        else:
            c.ensure('both assets of the pool are deposited', False)
            return None
    return out


def exact_funds(c, cfg, dep):
    """the native deposits came with the message and no other coin did"""
    known = []
    for x, d in zip(cfg.pair_info.asset_infos.list, dep):
        k, a = c.asset_id(x)
        if k == 'native':
            c.ensure('exactly the native deposits are sent', T.eq(c.sent(a), d))
            known.append(a)
    for f in c.info.funds.list:
        c.ensure('no coin of another kind is sent', Or(T.eq(f.amount.n, 0), *[c.eq(f.denom, a) for a in known]))


def provide_state(c):
    cfg = c.pre('config')
    dep = deposits(c, cfg)
    if dep is None:
        return None
    bal = balances(c, cfg)
    for i, x in enumerate(cfg.pair_info.asset_infos.list):
        if x.is_('NativeToken'):
            bal[i] = bal[i] - dep[i]
    return cfg, dep, bal


def shares(c, dep, bal, total):
    """LP tokens for a deposit"""
    if c.holds(T.eq(total, 0)):
        s = T.isqrt(dep[0] * dep[1])
        c.ensure('the first deposit is worth more than the minimum', T.lt(MIN_LIQ, s))
        c.cover('first')
        return s - MIN_LIQ
    c.ensure('an issued pool has both assets', And(T.lt(0, bal[0]), T.lt(0, bal[1])))
    c.cover('later')
    return T.imin(T.fdiv(dep[0] * total, bal[0]), T.fdiv(dep[1] * total, bal[1]))


def provide_post(min_lp=True):
    """deposits taken, LP tokens issued"""
    def post(c):
        r = provide_state(c)
        if r is None:
            return
        cfg, dep, bal = r
        exact_funds(c, cfg, dep)
        c.ensure('both deposits are positive', And(T.lt(0, dep[0]), T.lt(0, dep[1])))
        lp = cfg.pair_info.liquidity_token.s
        total = c.supply(lp)
        share = shares(c, dep, bal, total)
        first = c.holds(T.eq(total, 0))
        if not first:
            for d, b in zip(dep, bal):
                c.ensure('nobody is diluted: LP tokens are issued for at most the share deposited', T.le(share * b, d * total))
        if min_lp:
            m = c.msg.min_lp_to_receive.some
            if m is not None:
                c.ensure('at least the asked LP tokens are issued', T.le(m.n, share))
                c.cover('minimum')
        to = c.receiver(c.msg.receiver)
        au = c.msg.auto_stake.some
        stake = au is not None and c.holds(au.b)
        want = [('tf_mint', c.self_addr, MIN_LIQ)] if first else []
        if stake:
            want.append(('tf_mint', c.self_addr, share))
            f = factory_config(c, cfg.factory_addr)
            g = None if f is None else f.generator_address.some
            c.ensure('the incentives contract is the one the factory names', g is not None)
            c.cover('auto stake')
        else:
            want.append(('tf_mint', to, share))
        effs = c.effects()
        mints = [e for e in effs if e.kind == 'tf_mint']
        c.ensure('LP tokens are minted', len(mints) == len(want))
        if len(mints) == len(want):
            for e, (k, a, n) in zip(sorted(mints, key=lambda e: 0), want):
                c.ensure('LP tokens are issued to the right account', c.eq(e.to, a))
                c.ensure('exactly the LP tokens due are issued', T.eq(e.amount, n))
                c.ensure('LP tokens are of this pool', And(c.eq(e.denom, lp), c.eq(e.sender, c.self_addr)))
        takes = [e for e in effs if e.kind == 'transfer_from']
        cw = [(x, d) for x, d in zip(cfg.pair_info.asset_infos.list, dep) if x.is_('Token')]
        c.ensure('exactly the cw20 deposits are pulled', len(takes) == len(cw))
        for x, d in cw:
            t = 0
            for e in takes:
                t = t + T.ite(And(c.eq(e.token, x.contract_addr), c.eq(e.owner, c.sender), c.eq(e.to, c.self_addr)), e.amount, 0)
            c.ensure('exactly the cw20 deposits are pulled', T.eq(t, d))
            c.cover('cw20')
        stakes = [e for e in effs if e.kind == 'execute']
        c.ensure('staking only when asked for', len(stakes) == (1 if stake else 0))
        if stake and len(stakes) == 1 and g is not None:
            e = stakes[0]
            m = e.msg.json('astroport::incentives::ExecuteMsg')
            c.ensure('LP tokens are staked with the incentives contract', c.eq(e.contract, g))
            c.ensure('they are staked for the receiver', m.is_('Deposit') and m.recipient.some is not None and c.eq(m.recipient.some, to))
            c.ensure('exactly the LP tokens issued are staked', len(e.funds) == 1 and And(c.eq(e.funds[0][0], lp), T.eq(e.funds[0][1], share)))
            c.ensure('they are staked after they were minted', effs.index(e) > max(effs.index(x) for x in mints))
        c.only_messages('tf_mint', 'transfer_from', 'execute')
        tracked(c, cfg, [b + d for b, d in zip(bal, dep)])
    return post


def provide_slippage_post(c):
    r = provide_state(c)
    if r is None:
        return
    cfg, dep, bal = r
    total = c.supply(cfg.pair_info.liquidity_token.s)
    if c.holds(T.eq(total, 0)):
        return
    t = c.msg.slippage_tolerance.some
    t = 5 * 10 ** 15 if t is None else t.n
    c.ensure('no more than half can be tolerated', T.le(t, 5 * 10 ** 17))
    for i in (0, 1):
        j = 1 - i
        c.ensure('the deposit is close enough to the pool price',
                 T.le(T.fdiv(T.fdiv(dep[i] * E18, dep[j]) * (E18 - t), E18), T.fdiv(bal[i] * E18, bal[j])))
    c.cover('checked')


def provide_twap_post(c):
    r = provide_state(c)
    if r is None:
        return
    cfg, dep, bal = r
    accumulators(c, cfg, c.post('config'), bal[0], bal[1])


def withdraw_post(min_assets=True):
    def post(c):
        cfg = c.pre('config')
        lp = cfg.pair_info.liquidity_token.s
        fl = c.info.funds.list
        c.ensure('only LP tokens of this pool are redeemed', len(fl) == 1 and And(c.eq(fl[0].denom, lp), T.lt(0, fl[0].amount.n)))
        if len(fl) != 1:
            return
        n = fl[0].amount.n
        bal = balances(c, cfg)
        total = c.supply(lp)
        if c.holds(T.eq(total, 0)):
            ratio = 0
        else:
            ratio = T.fdiv(n * E18, total)
        pay = [T.fdiv(b * ratio, E18) for b in bal]
        infos = cfg.pair_info.asset_infos.list
        c.ensure('no imbalanced withdrawal', len(c.msg.assets.list) == 0)
        if min_assets:
            m = c.msg.min_assets_to_receive.some
            if m is not None:
                l = m.list
                c.ensure('a minimum is given for both assets', len(l) == 2)
                if len(l) == 2 and not c.holds(c.eq(l[0].info, l[1].info)):
                    for x in l:
                        k, a = c.asset_id(x.info)
                        for y, p in zip(infos, pay):
                            k2, a2 = c.asset_id(y)
                            if k == k2:
                                c.ensure('no less than asked for is paid', Or(Not(c.eq(a, a2)), T.le(x.amount.n, p)))
                    c.cover('minimum')
        effs = c.effects()
        c.flows_are('pays', [p for p in c.payouts(effs) if p[2].lit != '!burn'], [c.asset_id(y) + (c.sender, p) for y, p in zip(infos, pay)])
        b = [e for e in effs if e.kind == 'tf_burn']
        c.ensure('exactly the redeemed LP tokens are burned', len(b) == 1 and And(c.eq(b[0].denom, lp), T.eq(b[0].amount, n),
                                                                          c.eq(b[0].sender, c.self_addr)))
        c.only_messages('send', 'transfer', 'tf_burn')
        for p, q in zip(pay, bal):
            c.ensure('no more than the pro rata share is paid', T.le(p * total, q * n))
        tracked(c, cfg, [x - p for x, p in zip(bal, pay)])
        c.cover('withdrawn')
    return post


def withdraw_twap_post(c):
    cfg = c.pre('config')
    bal = balances(c, cfg)
    accumulators(c, cfg, c.post('config'), bal[0], bal[1])


# ------------------------------------------------------------------ creation and administration
def created(c, cfg, msg, kind):
    """configuration of a new pool; kind: the pair type it is given (None: the one asked for)"""
    infos = msg.asset_infos.list
    c.ensure('a pool has exactly two assets', len(infos) == 2)
    if len(infos) != 2:
        return False
    c.ensure('they are distinct', Not(c.eq(infos[0], infos[1])))
    p = cfg.pair_info
    c.ensure('the pool trades the given assets', c.eq(p.asset_infos, msg.asset_infos))
    c.ensure('the pool has its own address', c.eq(p.contract_addr, c.self_addr))
    c.ensure('there is no LP token yet', c.eq(p.liquidity_token, ''))
    if kind is None:
        c.ensure('the pool has the given type', c.eq(p.pair_type, msg.pair_type))
    else:
        c.ensure('the pool has its own type', p.pair_type.is_('Custom') and c.eq(p.pair_type.get('0'), kind))
    c.ensure('the factory is the given one', c.eq(cfg.factory_addr, msg.factory_addr))
    c.ensure('accumulators start at zero', And(T.eq(cfg.price0_cumulative_last.n, 0), T.eq(cfg.price1_cumulative_last.n, 0),
                                            T.eq(cfg.block_time_last.n, 0)))
    c.ensure('there is no LP token tracker yet', cfg.tracker_addr.some is None)
    effs = c.effects()
    c.ensure('exactly the LP denom is created', len(effs) == 1 and effs[0].kind == 'proto' and (effs[0].url.lit or '').endswith('MsgCreateDenom'))
    if len(effs) == 1 and effs[0].kind == 'proto':
        e = effs[0]
        sender, sub = (e.p.sender, e.p.subdenom) if not isinstance(e.p, dict) else (e.p.get(1, b'').decode(), e.p.get(2, b'').decode())
        c.ensure('by the pool itself', c.eq(sender, c.self_addr))
        c.ensure('named as LP denoms are', c.eq(sub, 'astroport/share'))
        c.ensure('and the pool is told which', And(T.eq(e.sub.id.n, 1), e.sub.reply_on.is_('Success')))
    return True


def track_start(c, cfg, track):
    """the balance history of a tracking pool starts at zero"""
    c.ensure('balances are tracked as asked', c.eq(cfg.track_asset_balances, track) if isinstance(track, V) else c.holds(cfg.track_asset_balances.b) == track)
    if c.holds(cfg.track_asset_balances.b):
        for x in cfg.pair_info.asset_infos.list:
            v = c.post('balances', x, 'cosmwasm_std::Uint128')
            c.ensure('recorded balances start at zero', v is not None and T.eq(v.n, 0))
            c.ensure('recorded under the block', c.snapped('balances', x, c.env.block.height.n))
        c.only_keys('balances', cfg.pair_info.asset_infos.list)
        c.only_written('config', 'balances')
        c.cover('tracking')
    else:
        c.only_written('config')
        c.cover('not tracking')


def reply_denom_post(track_factory=True):
    """the LP denom is taken over once"""
    def post(c):
        if not c.holds(T.eq(c.msg.id.n, 1)):
            return
        a, b = c.pre('config'), c.post('config')
        d = c.msg.result.get('0').data.some
        c.ensure('the LP token is set only once', c.eq(a.pair_info.liquidity_token, ''))
        nd = d.created_denom()
        c.ensure('the LP token is the denom that was created', c.eq(b.pair_info.liquidity_token, nd))
        c.ensure('nothing else in the configuration changes', And(a.same_but(b, 'pair_info'), a.pair_info.same_but(b.pair_info, 'liquidity_token')))
        c.only_written('config')
        effs = c.effects()
        if not c.holds(a.track_asset_balances.b):
            c.ensure('no message when nothing is tracked', not effs)
            c.cover('plain')
            return
        c.ensure('one tracker is instantiated', len(effs) == 1 and effs[0].kind == 'instantiate')
        if len(effs) != 1 or effs[0].kind != 'instantiate':
            return
        e = effs[0]
        f = factory_config(c, a.factory_addr)
        r = c.raw(a.factory_addr, 'tracker_config')
        if r is None:
            q = c.smart(a.factory_addr, 'TrackerConfig')
            r = None if q is None else q.answer
        c.ensure('the factory is asked', f is not None and r is not None)
        if f is None or r is None:
            return
        m = e.msg.json()
        c.ensure('the owner of the factory administers it', e.admin.some is not None and c.eq(e.admin.some, f.owner))
        c.ensure('with the configured code', T.eq(e.code_id.n, r.code_id.n))
        c.ensure('for the LP denom', And(c.eq(m.tracked_denom, nd), c.eq(m.tokenfactory_module_address, r.token_factory_addr)))
        c.ensure('over blocks', Not(m.track_over_seconds.b))
        c.ensure('without funds', len(e.funds.list) == 0)
        c.ensure('and the pool is told its address', And(T.eq(e.sub.id.n, 2), e.sub.reply_on.is_('Success')))
        c.cover('tracker')
    return post


def reply_tracker_post(c):
    if c.holds(T.eq(c.msg.id.n, 1)):
        return
    c.ensure('only replies that were asked for', T.eq(c.msg.id.n, 2))
    a, b = c.pre('config'), c.post('config')
    t = c.msg.result.get('0').data.some.instantiated()
    c.ensure('the tracker is the instantiated contract', b.tracker_addr.some is not None and c.eq(b.tracker_addr.some, t))
    c.ensure('nothing else in the configuration changes', a.same_but(b, 'tracker_addr'))
    c.only_written('config')
    effs = c.effects()
    c.ensure('one message', len(effs) == 1 and effs[0].kind == 'proto' and (effs[0].url.lit or '').endswith('MsgSetBeforeSendHook'))
    if len(effs) == 1 and effs[0].kind == 'proto':
        p = effs[0].p
        s, d, h = (p.sender, p.denom, p.cosmwasm_address) if not isinstance(p, dict) else [p.get(i, b'').decode() for i in (1, 2, 3)]
        c.ensure('LP transfers are reported to the tracker', And(c.eq(s, c.self_addr), c.eq(d, a.pair_info.liquidity_token), c.eq(h, t)))
    c.cover('hooked')


# ------------------------------------------------------------------ queries
def q_pools(c):
    cfg = c.pre('config')
    return cfg, balances(c, cfg), c.supply(cfg.pair_info.liquidity_token.s)


def assets_are(c, name, l, infos, amounts):
    l = l.list
    c.ensure(f'{name}: both assets are answered', len(l) == 2)
    if len(l) == 2:
        for x, i, n in zip(l, infos, amounts):
            c.ensure(f'{name}: the asset is the one of the pool', c.eq(x.info, i))
            c.ensure(f'{name}: the amount is right', T.eq(x.amount.n, n))


def q_pool_post(c):
    cfg, bal, total = q_pools(c)
    r = c.ret.json()
    assets_are(c, 'pool', r.assets, cfg.pair_info.asset_infos.list, bal)
    c.ensure('the LP supply is answered', T.eq(r.total_share.n, total))
    c.cover('pool')


def q_share_post(c):
    cfg, bal, total = q_pools(c)
    n = (c.msg.amount if c.msg.is_('Share') else c.msg.lp_amount).n
    ratio = 0 if c.holds(T.eq(total, 0)) else T.fdiv(n * E18, total)
    assets_are(c, 'share', c.ret.json(), cfg.pair_info.asset_infos.list, [T.fdiv(b * ratio, E18) for b in bal])
    c.cover('share')


def q_sim_post(tax=None):
    def post(c):
        cfg = c.pre('config')
        off = c.msg.offer_asset
        k, a0 = c.asset_id(off.info)
        i = side(c, cfg, (k, a0))
        c.ensure('only assets of the pool are simulated', i is not None)
        if i is None:
            return
        bal = balances(c, cfg)
        f = Fees(c, cfg)
        n = off.amount.n
        if tax:
            t = tax(c, cfg, (k, a0), n)
            if t is not None:
                n = n - t[1]
        o, a = bal[i], bal[1 - i]
        gross = out_amount(o, a, n)
        com = T.fdiv(gross * f.total, E18)
        r = c.ret.json()
        c.ensure('the swap would pay this', T.eq(r.return_amount.n, gross - com))
        c.ensure('the fee is this', T.eq(r.commission_amount.n, com))
        sp = T.fdiv(n * T.fdiv(a * E18, o), E18)
        c.ensure('the spread is this', T.eq(r.spread_amount.n, T.ite(T.le(gross, sp), sp - gross, 0)))
        c.cover('simulated')
    return post


def q_reverse_post(tax=None):
    def post(c):
        cfg = c.pre('config')
        ask = c.msg.ask_asset
        i = side(c, cfg, c.asset_id(ask.info))
        c.ensure('only assets of the pool are simulated', i is not None)
        if i is None:
            return
        bal = balances(c, cfg)
        f = Fees(c, cfg)
        a, o = bal[i], bal[1 - i]
        before = T.fdiv(ask.amount.n * T.fdiv(10 ** 36, E18 - f.total), E18)
        r = c.ret.json()
        x = T.fdiv(o * a, a - before) - o
        sp = T.fdiv(x * T.fdiv(a * E18, o), E18)
        if tax:
            oi = cfg.pair_info.asset_infos.list[1 - i]
            k, d = c.asset_id(oi)
            t = cfg.tax_configs.get('0').at(d) if k == 'native' else None
            if t is not None:
                q = T.fdiv(10 ** 36, E18 - t.tax_rate.n)
                x = T.fdiv(x * q + E18 - 1, E18)
                c.cover('taxed')
        c.ensure('the amount to offer is what the formula asks for', T.eq(r.offer_amount.n, x))
        c.ensure('the fee is this', T.eq(r.commission_amount.n, T.fdiv(before * f.total, E18)))
        c.ensure('the spread is this', T.eq(r.spread_amount.n, T.ite(T.le(before, sp), sp - before, 0)))
        c.cover('simulated')
    return post


def q_prices_post(c):
    cfg, bal, total = q_pools(c)
    r = c.ret.json()
    infos = cfg.pair_info.asset_infos.list
    assets_are(c, 'prices', r.assets, infos, bal)
    c.ensure('the LP supply is answered', T.eq(r.total_share.n, total))
    now, last = c.now, cfg.block_time_last.n
    priced = And(T.lt(last, now), T.lt(0, bal[0]), T.lt(0, bal[1]))
    l = r.cumulative_prices.list
    c.ensure('both prices are answered', len(l) == 2)
    if len(l) == 2:
        for i, x in enumerate(l):
            c.ensure('from one asset to the other', And(c.eq(x.get('0'), infos[i]), c.eq(x.get('1'), infos[1 - i])))
            o = cfg.get(f'price{i}_cumulative_last').n
            if c.holds(priced):
                c.ensure('the integral up to now is answered', T.eq(x.get('2').n, T.fmod(o + T.fdiv((now - last) * 10 ** 6 * bal[1 - i], bal[i]), WRAP)))
                c.cover('integrated')
            else:
                c.ensure('without a price the integral stands still', T.eq(x.get('2').n, o))


def q_provide_post(c):
    cfg, bal, total = q_pools(c)
    dep = deposits(c, cfg)
    if dep is None:
        return
    c.ensure('both deposits are positive', And(T.lt(0, dep[0]), T.lt(0, dep[1])))
    c.ensure('the LP tokens a deposit would get', T.eq(c.ret.json().n, shares(c, dep, bal, total)))


def q_balance_at_post(c):
    v = c.at('balances', c.msg.asset_info, c.msg.block_height.n)
    r = c.ret.json().some
    c.ensure('the history answers the balance recorded', (v is None) == (r is None))
    if v is not None and r is not None:
        c.ensure('the history answers the balance recorded', T.eq(v.n, r.n))
        c.cover('recorded')
    else:
        c.cover('not recorded')

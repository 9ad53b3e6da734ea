"""Periphery: native coin registry, token factory tracker, fee granter, whitelist, oracle"""
from vc import *
from registry import prop
from common import *

EX = 'contract::execute'

# ------------------------------------------------------------------ native coin registry
p = prop('C06')
CR = 'astroport_native_coin_registry'


def add_post(free):
    def post(c):
        l = [(x.get('0').s, x.get('1').n) for x in c.msg.native_coins.list]
        if not free:
            c.ensure('only the owner sets decimals', c.eq(c.sender, c.pre('config').owner))
        for i, (d, n) in enumerate(l):
            c.ensure('at most 18 decimals', T.le(n, 18))
            for e, _ in l[:i]:
                c.ensure('a coin is listed once', Not(c.eq(d, e)))
            v = c.post('coins_info', d, 'u8')
            c.ensure('the decimals are stored', v is not None and T.eq(v.n, n))
            if free:
                c.ensure('only a new coin can be registered by anyone', c.pre('coins_info', d, 'u8') is None)
                c.ensure('the coin was sent along', Or(*[c.eq(f.denom, d) for f in c.info.funds.list]))
        c.only_keys('coins_info', [d for d, _ in l])
        c.only_written('coins_info')
        if free:
            c.flows_are('refund', c.payouts(), [('native', f.denom.s, c.sender, f.amount.n) for f in c.info.funds.list])
            c.only_messages('send')
            c.cover('registered')
        else:
            c.only_messages()
            c.cover('added')
    return post


def remove_post(c):
    c.ensure('only the owner removes coins', c.eq(c.sender, c.pre('config').owner))
    l = [x.s for x in c.msg.native_coins.list]
    for d in l:
        c.ensure('only known coins are removed', c.pre('coins_info', d, 'u8') is not None)
        c.ensure('the coin is gone', c.post('coins_info', d, 'u8') is None)
    c.only_keys('coins_info', l)
    c.only_written('coins_info')
    c.only_messages()
    c.cover('removed')


def coin_post(c):
    v = c.pre('coins_info', c.msg.denom.s, 'u8')
    c.ensure('only known coins have decimals', v is not None)
    if v is not None:
        c.ensure('the stored decimals are answered', T.eq(c.ret.json().n, v.n))
        c.cover('known')


def lens3(c):
    c.ex.lens['native_coins'] = (0, 1, 2, 3) if c.run.tier == 'thorough' else (0, 1, 2)


p.add(Scenario('register coins', CR, EX, add_post(True), setup=lens3, fixed={'msg': 'Register'}, covers=['registered']),
      Scenario('set coins', CR, EX, add_post(False), setup=lens3, fixed={'msg': 'Add'}, covers=['added']),
      Scenario('remove coins', CR, EX, remove_post, setup=lens3, fixed={'msg': 'Remove'}, covers=['removed']),
      Scenario('query decimals', CR, 'contract::query', coin_post, fixed={'msg': 'NativeToken'}, covers=['known']))

# ------------------------------------------------------------------ token factory tracker
t = prop('C07')
TR = 'astroport_tokenfactory_tracker'


def unit(c, cfg):
    return T.ite(cfg.t.b, c.now, c.env.block.height.n)


def track_post(c):
    cfg = c.pre('c')
    c.ensure('only the tracked denom is accepted', c.eq(c.msg.amount.denom, cfg.d))
    u = unit(c, cfg)
    n = c.msg.amount.amount.n
    frm, to = c.msg.get('from').s, c.msg.to.s
    keys = []
    if not c.same(frm, to):
        if not c.same(frm, cfg.m):
            b = c.native_balance(frm, cfg.d.s)
            v = c.post('b', frm)
            c.ensure('the sender is recorded with what is left', v is not None and T.eq(v.n, b - n))
            c.ensure('under the current block', c.snapped('b', frm, u))
            keys.append(frm)
            c.cover('sender')
        if not c.same(to, cfg.m):
            b = c.native_balance(to, cfg.d.s)
            v = c.post('b', to)
            c.ensure('the recipient is recorded with what it got', v is not None and T.eq(v.n, b + n))
            c.ensure('under the current block', c.snapped('b', to, u))
            keys.append(to)
            c.cover('recipient')
    else:
        c.cover('self')
    s = c.post('t')
    c.ensure('the total supply is recorded', s is not None and And(T.eq(s.n, c.supply(cfg.d.s)), c.snapped('t', (), u)))
    c.only_keys('b', keys)
    c.only_written('b', 't')
    c.only_messages()


def after_post(c):
    c.only_written()
    c.only_messages()
    c.cover('ignored')


def hist_post(ns, key):
    def post(c):
        cfg = c.pre('c')
        u = c.msg.unit.some
        now = unit(c, cfg)
        k = key(c)
        if u is None or c.holds(T.eq(u.n, now)):
            v = c.pre(ns, k, 'cosmwasm_std::Uint128')
            c.cover('now')
        else:
            v = c.at(ns, k, u.n)
            c.cover('past')
        c.ensure('the recorded value of that time is answered', T.eq(c.ret.json().n, 0 if v is None else v.n))
    return post


def no_key(c): return ()


t.add(Scenario('track', TR, 'contract::sudo', track_post, fixed={'msg': 'BlockBeforeSend'}, covers=['sender', 'recipient', 'self']),
      Scenario('second hook', TR, 'contract::sudo', after_post, fixed={'msg': 'TrackBeforeSend'}, covers=['ignored']),
      Scenario('balance at', TR, 'query::query', hist_post('b', lambda c: c.msg.address.s), fixed={'msg': 'BalanceAt'}, covers=['now', 'past']),
      Scenario('supply at', TR, 'query::query', hist_post('t', no_key), fixed={'msg': 'TotalSupplyAt'}, covers=['now', 'past']))

# ------------------------------------------------------------------ fee granter
g = prop('C08')
FG = 'astroport_fee_granter'


def admin(c, cfg):
    return Or(c.eq(c.sender, cfg.owner), *[c.eq(c.sender, a) for a in cfg.admins.list])


def grant_post(c):
    cfg = c.pre('config')
    c.ensure('only the owner and the admins grant', admin(c, cfg))
    k, n = c.msg.grantee_contract, c.msg.amount.n
    c.ensure('one grant at a time', c.pre('grants', k) is None)
    v = c.post('grants', k)
    c.ensure('the grant is recorded', v is not None and T.eq(v.n, n))
    if c.holds(Not(c.msg.bypass_amount_check.b)):
        f = c.info.funds.list
        c.ensure('the granted amount is paid in', len(f) == 1 and And(c.eq(f[0].denom, cfg.gas_denom), T.eq(f[0].amount.n, n)))
        c.cover('paid')
    else:
        c.cover('bypass')
    c.only_keys('grants', [k])
    c.only_written('grants')
    effs = c.effects()
    c.ensure('one message', len(effs) == 1 and effs[0].kind == 'proto')
    if not c.concrete and len(effs) == 1 and effs[0].kind == 'proto':
        q = effs[0].p
        c.ensure('the contract grants to the grantee', And(c.eq(q.granter, c.self_addr), c.eq(q.grantee, k)))
        a = q.allowance.some
        c.ensure('with an allowance', a is not None)
        if a is not None:
            b = a.value.proto()
            l = b.spend_limit.list
            c.ensure('of exactly the amount', len(l) == 1 and And(c.eq(l[0].denom, cfg.gas_denom), T.eq(c.prost_amount(l[0].amount), n)))


def revoke_post(c):
    cfg = c.pre('config')
    c.ensure('only the owner and the admins revoke', admin(c, cfg))
    k = c.msg.grantee_contract
    c.ensure('the grant is gone', c.post('grants', k, 'cosmwasm_std::Uint128') is None)
    c.only_keys('grants', [k])
    c.only_written('grants')
    effs = c.effects()
    c.ensure('one message', len(effs) == 1 and effs[0].kind == 'proto')
    if not c.concrete and len(effs) == 1 and effs[0].kind == 'proto':
        q = effs[0].p
        c.ensure('the grant to the grantee is revoked', And(c.eq(q.granter, c.self_addr), c.eq(q.grantee, k)))
    c.cover('revoked')


def coins_post(c):
    cfg = c.pre('config')
    c.ensure('only the owner and the admins move coins', admin(c, cfg))
    n = c.msg.amount.n
    c.ensure('something is moved', T.lt(0, n))
    c.flows_are('payouts', c.payouts(), [('native', cfg.gas_denom.s, c.receiver(c.msg.receiver), n)])
    c.only_messages('send')
    c.only_written()
    c.cover('moved')


def admins_post(c):
    a, b = c.pre('config'), c.post('config')
    c.ensure('only the owner changes admins', c.eq(c.sender, a.owner))
    c.ensure('owner and denom stay', And(c.eq(a.owner, b.owner), c.eq(a.gas_denom, b.gas_denom)))
    add, rem, old, new = c.msg.add.list, c.msg.remove.list, a.admins.list, b.admins.list
    c.ensure('at most two admins', len(new) <= 2)
    for x in new:
        c.ensure('every admin was one or is added', Or(*[c.eq(x, y) for y in old + add]))
        c.ensure('nobody stays who is removed', Not(Or(*[c.eq(x, y) for y in rem])))
    for x in old + add:
        c.ensure('nobody is lost who is not removed', Or(*[c.eq(x, y) for y in new + rem]))
    c.only_written('config')
    c.only_messages()
    c.cover('admins')


def lens_admin(c):
    c.ex.lens['admins'] = (0, 1, 2)
    c.ex.lens['add'] = (0, 1, 2) if c.run.tier == 'thorough' else (0, 1)
    c.ex.lens['remove'] = (0, 1, 2) if c.run.tier == 'thorough' else (0, 1)


g.add(Scenario('grant', FG, EX, grant_post, setup=lens_admin, fixed={'msg': 'Grant'}, covers=['paid', 'bypass']),
      Scenario('revoke', FG, EX, revoke_post, setup=lens_admin, fixed={'msg': 'Revoke'}, covers=['revoked']),
      Scenario('transfer coins', FG, EX, coins_post, setup=lens_admin, fixed={'msg': 'TransferCoins'}, covers=['moved']),
      Scenario('update admins', FG, EX, admins_post, setup=lens_admin, fixed={'msg': 'UpdateAdmins'}, covers=['admins']))

# ------------------------------------------------------------------ whitelist
w = prop('C09')
WL = 'astroport_whitelist'


def is_admin(c):
    return Or(*[c.eq(c.sender, a) for a in c.pre('admin_list').admins.list])


def exec_post(c):
    c.ensure('only admins execute', is_admin(c))
    l, m = c.msg.msgs.list, c.submsgs()
    c.ensure('exactly the given messages', len(l) == len(m))
    for x, y in zip(l, m):
        c.ensure('the messages are passed on unchanged', c.eq(x, y.msg))
        c.ensure('without a reply', y.reply_on.is_('Never'))
    c.only_written()
    c.cover('executed')


def freeze_post(c):
    a, b = c.pre('admin_list'), c.post('admin_list')
    c.ensure('only admins freeze', is_admin(c))
    c.ensure('only while it can be changed', a.mutable.b)
    c.ensure('nothing can be changed afterwards', Not(b.mutable.b))
    c.ensure('the admins stay', c.eq(a.admins, b.admins))
    c.only_written('admin_list')
    c.only_messages()
    c.cover('frozen')


def upd_post(c):
    a, b = c.pre('admin_list'), c.post('admin_list')
    c.ensure('only admins change the admins', is_admin(c))
    c.ensure('a frozen list stays', a.mutable.b)
    l, m = c.msg.admins.list, b.admins.list
    c.ensure('the new list is the given one', len(l) == len(m) and And(*[c.eq(x, y) for x, y in zip(l, m)]))
    c.ensure('freezing is a separate step', b.mutable.b)
    c.only_written('admin_list')
    c.only_messages()
    c.cover('updated')


def lens_w(c):
    c.ex.lens['msg.UpdateAdmins'] = (0, 1, 2)
    c.ex.lens['admins'] = (0, 1, 2, 3)
    c.ex.lens['msgs'] = (0, 1, 2)


w.add(Scenario('execute', WL, EX, exec_post, setup=lens_w, fixed={'msg': 'Execute'}, covers=['executed']),
      Scenario('freeze', WL, EX, freeze_post, setup=lens_w, fixed={'msg': 'Freeze'}, covers=['frozen']),
      Scenario('update admins', WL, EX, upd_post, setup=lens_w, fixed={'msg': 'UpdateAdmins'}, covers=['updated']))

# ------------------------------------------------------------------ oracle
o = prop('C11')
OR = 'astroport_oracle'
DAY = 86400


def same_prices(c, name, l, m):
    c.ensure(name, len(l) == len(m))
    if len(l) == len(m):
        for x, y in zip(l, m):
            c.ensure(name, And(c.eq(x.get('0'), y.get('0')), c.eq(x.get('1'), y.get('1')), T.eq(x.get('2').n, y.get('2').n)))


def cumulative(c, pair):
    r = c.smart(pair, 'CumulativePrices')
    c.ensure('the pair is asked for its price integrals', r is not None)
    return None if r is None or r.answer is None else r.answer.cumulative_prices.list


def oracle_init_post(c):
    cfg, infos = c.post('config'), c.msg.asset_infos.list
    fac = c.msg.factory_contract
    c.ensure('the creator owns the oracle', c.eq(cfg.owner, c.sender))
    c.ensure('the factory is the given one', c.eq(cfg.factory, fac))
    c.ensure('the assets are the given ones', c.eq(cfg.asset_infos, c.msg.asset_infos))
    r = c.smart(fac, 'Pair')
    c.ensure('the pair is the one the factory names', r is not None and r.answer is not None)
    if r is None or r.answer is None:
        return
    c.ensure('the pair is the one the factory names', c.eq(cfg.pair, r.answer))
    c.ensure('for the given assets', c.eq(r.msg.json('astroport::factory::QueryMsg').asset_infos, c.msg.asset_infos))
    l = cumulative(c, cfg.pair.contract_addr)
    p = c.post('price_last')
    if l is None:
        return
    same_prices(c, 'the first observation is the current price integral', p.cumulative_prices.list, l)
    a = p.average_prices.list
    c.ensure('there is no average yet', len(a) == len(l) and And(*[T.eq(x.get('2').n, 0) for x in a]))
    if len(a) == len(l):
        for x, y in zip(a, l):
            c.ensure('averages are kept for the same pairs of assets', And(c.eq(x.get('0'), y.get('0')), c.eq(x.get('1'), y.get('1'))))
    c.ensure('the first period starts now', T.eq(p.block_timestamp_last.n, c.now))
    for i, x in enumerate(infos):
        if any(c.same(c.asset_id(y)[1], c.asset_id(x)[1]) for y in infos[i + 1:]):
            continue
        d = asset_decimals(c, x, fac)
        v = c.post('precisions', c.asset_id(x)[1], 'u8')
        c.ensure('the decimals of the assets are kept', v is not None and d is not None and T.eq(v.n, d.n))
    c.only_messages()
    c.only_written('config', 'price_last', 'precisions', 'contract_info')
    c.cover('created')


def oracle_update_post(c):
    cfg, a, b = c.pre('config'), c.pre('price_last'), c.post('price_last')
    l = cumulative(c, cfg.pair.contract_addr)
    if l is None:
        return
    dt = c.now - a.block_timestamp_last.n
    c.ensure('a full day has passed since the last observation', T.le(DAY, dt))
    c.nz(dt)
    same_prices(c, 'the new observation is the current price integral', b.cumulative_prices.list, l)
    c.ensure('the new period starts now', T.eq(b.block_timestamp_last.n, c.now))
    exp = []
    for x in a.cumulative_prices.list:
        for y in l:
            if c.holds(And(c.eq(x.get('0'), y.get('0')), c.eq(x.get('1'), y.get('1')))):
                exp.append((x, T.fdiv(T.fmod(y.get('2').n - x.get('2').n, 2 ** 128) * 10 ** 18, dt)))
    got = b.average_prices.list
    c.ensure('one average for each pair of assets observed twice', len(got) == len(exp))
    if len(got) == len(exp):
        for g, (x, v) in zip(got, exp):
            c.ensure('averages belong to the pair of assets', And(c.eq(g.get('0'), x.get('0')), c.eq(g.get('1'), x.get('1'))))
            c.ensure('the average is the growth of the integral over the time passed', T.eq(g.get('2').n, v))
            c.cover('averaged')
    c.only_written('price_last')
    c.only_messages()


def consult_post(c):
    cfg, p = c.pre('config'), c.pre('price_last')
    n = c.msg.amount.n
    l = [x for x in p.average_prices.list if c.same(x.get('0'), c.msg.token)]
    c.ensure('only assets of the pair have a price', len(l) > 0)
    d = c.pre('precisions', c.asset_id(c.msg.token)[1], 'u8')
    c.ensure('the asset has known decimals', d is not None)
    if d is None:
        return
    one = None
    for k in range(39):
        if c.holds(T.eq(d.n, k)):
            one = 10 ** k
            break
    c.ensure('a unit is 10^decimals', one is not None)
    got = c.ret.json().list
    c.ensure('one answer for each counter asset', len(got) == len(l))
    if len(got) != len(l) or one is None:
        return
    for g, x in zip(got, l):
        c.ensure('the answer names the counter asset', c.eq(g.get('0'), x.get('1')))
        if c.holds(T.eq(x.get('2').n, 0)):
            def asks(r):
                m = r.msg.json('astroport::pair::QueryMsg')
                k = m.ask_asset_info.some
                return And(c.eq(m.offer_asset.info, c.msg.token), T.eq(m.offer_asset.amount.n, one), k is not None and c.eq(k, x.get('1')))
            r = c.smart(cfg.pair.contract_addr, 'Simulation', asks)
            c.ensure('without an average the pair is asked what one unit gives', r is not None and r.answer is not None)
            if r is None or r.answer is None:
                return
            c.ensure('and the answer is scaled to the amount', T.eq(g.get('1').n, T.fdiv(r.answer.return_amount.n * n, one)))
            c.cover('spot')
        else:
            c.ensure('the amount times the average price', T.eq(g.get('1').n, T.fdiv(T.fdiv(n * x.get('2').n, 10 ** 18), 10 ** 6)))
            c.cover('average')


def lens_o(c):
    c.ex.lens['asset_infos'] = (0, 1, 2, 3) if c.run.tier == 'thorough' else (0, 1, 2)
    c.ex.lens['cumulative_prices'] = (0, 1, 2)
    c.ex.lens['average_prices'] = (0, 1, 2)


o.add(Scenario('create', OR, 'contract::instantiate', oracle_init_post, setup=lens_o, covers=['created']),
      Scenario('update', OR, EX, oracle_update_post, setup=lens_o, fixed={'msg': 'Update'}, covers=['averaged']),
      Scenario('consult', OR, 'contract::query', consult_post, setup=lens_o, fixed={'msg': 'Consult'}, covers=['spot', 'average']))

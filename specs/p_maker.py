"""Fee collector: contracts/tokenomics/maker"""
from vc import *
from registry import prop
from common import *

CR = 'astroport_maker'
EX = 'contract::execute'
D = prop('C23')      # distribution
M = prop('C24')      # swapping, seizing, configuration
ONE = 10 ** 18


def pool(c, cfg, a, b):
    """the pool the factory names for two assets, or None"""
    def names(r):
        l = r.msg.json('astroport::factory::QueryMsg').asset_infos.list
        return len(l) == 2 and And(c.eq(l[0], a), c.eq(l[1], b))
    r = c.smart(cfg.factory_contract, 'Pair', names)
    c.ensure('the factory is asked for the pool', r is not None)
    return None if r is None or r.answer is None else r.answer


def swap_flow(c, p, a, n):
    """offering n of an asset to a pool"""
    k, x = c.asset_id(a)
    return (k, x, p.contract_addr.s, n)


def swap_msg(c, cfg, e, p, a, b, n):
    """a message that swaps exactly n of a for b in the pool, for the contract itself, with the spread limit"""
    if a.is_('NativeToken'):
        ok = e.kind == 'execute' and len(e.funds) == 1
        c.ensure('the pool is called with the coins', ok)
        if not ok:
            return
        c.ensure('exactly the amount is offered to the pool', And(c.eq(e.contract, p.contract_addr), c.eq(e.funds[0][0], a.denom), T.eq(e.funds[0][1], n)))
        j = e.msg.json('astroport::pair::ExecuteMsg')
        if j.is_('Swap'):
            c.ensure('the pool is told what is offered', And(c.eq(j.offer_asset.info, a), T.eq(j.offer_asset.amount.n, n)))
    else:
        c.ensure('the tokens are sent to the pool', e.kind == 'cw20_send')
        if e.kind != 'cw20_send':
            return
        c.ensure('exactly the amount is offered to the pool', And(c.eq(e.to, p.contract_addr), c.eq(e.token, a.contract_addr), T.eq(e.amount, n)))
        j = e.msg.json('astroport::pair::Cw20HookMsg')
    c.ensure('the pool is asked to swap', j.is_('Swap'))
    if not j.is_('Swap'):
        return
    k, s = j.ask_asset_info.some, j.max_spread.some
    c.ensure('for the asset of the route', k is not None and c.eq(k, b))
    c.ensure('the result comes back to the contract', j.to.some is None)
    c.ensure('within the spread limit', s is not None and T.eq(s.n, cfg.max_spread.n) and j.belief_price.some is None)


def distribution(c, effs):
    """the messages and the configuration after distributing"""
    cfg, new = c.pre('config'), c.post('config')
    amt = c.nz(c.balance(cfg.astro_token, c.self_addr))
    k, a = c.asset_id(cfg.astro_token)

    def nothing(why):
        c.ensure('nothing is distributed ' + why, not effs)
    if c.holds(T.eq(amt, 0)):
        nothing('when there is nothing')
        c.ensure('the configuration is kept', c.eq(cfg, new))
        return
    if c.holds(Not(cfg.rewards_enabled.b)):
        nothing('before it is enabled')
        c.ensure('what accrued before distribution is enabled is set aside', And(T.eq(new.pre_upgrade_astro_amount.n, amt), T.eq(new.remainder_reward.n, amt)))
        c.ensure('nothing else changes', cfg.same_but(new, 'pre_upgrade_astro_amount', 'remainder_reward'))
        c.cover('disabled')
        return
    rem = c.nz(cfg.remainder_reward.n)
    if not c.holds(T.eq(rem, 0)):
        blocks = c.env.block.height.n - cfg.last_distribution_block.n
        if c.holds(T.eq(blocks, 0)):
            nothing('twice in one block')
            c.ensure('the configuration is kept', c.eq(cfg, new))
            return
        drip = T.imin(blocks * T.fdiv(cfg.pre_upgrade_astro_amount.n, cfg.pre_upgrade_blocks.n), rem)
        c.ensure('what was set aside is never overdrawn', T.le(rem, amt))
        c.ensure('what was set aside shrinks by what is released', And(T.eq(new.remainder_reward.n, rem - drip), T.eq(new.last_distribution_block.n, c.env.block.height.n)))
        c.ensure('nothing else changes', cfg.same_but(new, 'remainder_reward', 'last_distribution_block'))
        amt = amt - rem + drip
        c.cover('release')
    else:
        c.ensure('the configuration is kept', c.eq(cfg, new))
    exp = []
    left = amt
    s = cfg.second_receiver_cfg.some
    second = 0
    if s is not None:
        second = T.fdiv(amt * s.second_receiver_cut.n, 100)
        exp.append((k, a, s.second_fee_receiver.s, second))
        c.cover('second')
    g = cfg.governance_contract.some
    gov = 0
    if g is not None:
        gov = T.fdiv((amt - second) * cfg.governance_percent.n, 100)
        exp.append((k, a, g.s, gov))
        c.cover('governance')
    d = cfg.dev_fund_conf.some
    dev = 0
    if d is not None:
        dev = c.nz(T.fdiv(amt * d.share.n, ONE))
        swaps = [e for e in effs if e.sub.id.n == 1 and e.sub.reply_on.is_('Success')]
        others = [e for e in effs if not (e.sub.id.n == 1 and e.sub.reply_on.is_('Success'))]
        if not c.holds(T.eq(dev, 0)):
            p = pool(c, cfg, cfg.astro_token, d.asset_info)
            c.ensure('there is a pool for the dev fund asset', p is not None)
            if p is None:
                return
            exp.append(swap_flow(c, p, cfg.astro_token, dev))
            c.ensure('the share of the dev fund is swapped once, and its reply asked for', len(swaps) == 1)
            if len(swaps) == 1:
                swap_msg(c, cfg, swaps[0], p, cfg.astro_token, d.asset_info, dev)
            c.cover('dev')
        else:
            c.ensure('nothing is swapped', not swaps)
    else:
        others = effs
    for e in others:
        c.ensure('no other reply is asked for', e.sub.reply_on.is_('Never'))
    t = cfg.staking_contract.some
    if t is not None:
        rest = amt - gov - second - dev
        c.ensure('the shares do not exceed what is distributed', T.le(0, rest))
        exp.append((k, a, t.s, rest))
        c.cover('staking')
    c.flows_are('every receiver gets exactly its share', c.payouts(effs), exp)
    kinds = ('send', 'transfer', 'cw20_send', 'execute')
    bad = [e.kind for e in effs if e.kind not in kinds]
    c.ensure('nothing else is done', not bad, note=str(bad))


def cfg_inv(c):
    """invariants of the stored configuration (established by instantiate and update_config, C24)"""
    def inv(v):
        l = [T.le(v.governance_percent.n, 100)]
        s = v.second_receiver_cfg.some
        if s is not None:
            l += [T.le(s.second_receiver_cut.n, 50), T.lt(0, s.second_receiver_cut.n)]
        d = v.dev_fund_conf.some
        if d is not None:
            l += [T.lt(0, d.share.n), T.le(d.share.n, ONE)]
        return And(*l)
    c.assume_initial('config', inv)


def distribute_post(c):
    c.ensure('only the contract itself distributes', c.eq(c.sender, c.self_addr))
    distribution(c, c.effects())
    c.only_written('config')


def dev_reply_post(c):
    d = c.pre('config').dev_fund_conf.some
    c.ensure('there is a dev fund', d is not None)
    if d is None:
        return
    c.ensure('only the reply to the swap for the dev fund is handled', T.eq(c.msg.id.n, 1))
    k, a = c.asset_id(d.asset_info)
    c.flows_are('the dev fund gets what is held of its asset', c.payouts(), [(k, a, d.address.s, c.balance(d.asset_info, c.self_addr))])
    c.only_messages('send', 'transfer')
    c.only_written()
    c.cover('ok')


def swaps(c, cfg, assets, effs):
    """checks the swap messages for (asset, limit) pairs; returns the bridge assets they lead to and the messages that follow"""
    n, br = 0, []
    for a, lim in assets:
        b = c.balance(a, c.self_addr)
        if lim is not None:
            b = T.ite(And(T.lt(0, lim), T.lt(lim, b)), lim, b)
        b = c.nz(b)
        if c.holds(T.eq(b, 0)):
            continue
        v = c.pre('bridges', c.asset_id(a)[1], 'astroport::asset::AssetInfo')
        direct = False
        if v is not None:
            to, p = v, pool(c, cfg, a, v)
            direct = c.holds(c.eq(to, cfg.astro_token))
            c.cover('bridge')
        else:
            to = p = None
            db = cfg.default_bridge.some
            if db is not None and not c.holds(c.eq(a, db)):
                to, p = db, pool(c, cfg, a, db)
                if p is not None:
                    c.cover('default bridge')
            if p is None:
                to, p, direct = cfg.astro_token, pool(c, cfg, a, cfg.astro_token), True
                c.cover('direct')
        c.ensure('an asset is swapped only where there is a pool on its route', p is not None)
        c.ensure('every asset held is swapped', len(effs) > n)
        if p is None or len(effs) <= n:
            return None, []
        swap_msg(c, cfg, effs[n], p, a, to, b)
        c.ensure('no reply is asked for', effs[n].sub.reply_on.is_('Never'))
        n += 1
        if not direct and not any(c.same(c.asset_id(x)[1], c.asset_id(to)[1]) for x in br):
            br.append(to)
    return br, effs[n:]


def next_step(c, e, br, depth):
    """the message to itself that goes on with the bridge assets, or distributes"""
    c.ensure('the contract calls itself', e.kind == 'execute' and c.eq(e.contract, c.self_addr) and not e.funds)
    if e.kind != 'execute':
        return
    j = e.msg.json('astroport::maker::ExecuteMsg')
    if br:
        c.ensure('bridge assets are swapped next', j.is_('SwapBridgeAssets'))
        if j.is_('SwapBridgeAssets'):
            l = j.assets.list
            c.ensure('each bridge asset once', len(l) == len(br) and And(*[Or(*[c.eq(c.asset_id(x)[1], c.asset_id(y)[1]) for y in l]) for x in br]))
            c.ensure('the depth is counted', T.eq(j.depth.n, depth))
        c.cover('goes on')
    else:
        c.ensure('then everything is distributed', j.is_('DistributeAstro'))
        c.cover('distributes')


def collect_post(c):
    cfg = c.pre('config')
    cd, last = cfg.collect_cooldown.some, c.pre('last_collect_ts').n
    if cd is not None:
        c.ensure('fees are collected once per cooldown period', T.le(last + cd.n, c.now))
        c.cover('cooldown')
    c.ensure('the time of collection is recorded', T.eq(c.post('last_collect_ts').n, c.now))
    l = c.msg.assets.list
    for i, x in enumerate(l):
        for y in l[i + 1:]:
            c.ensure('no asset is named twice', Not(c.eq(c.asset_id(x.info)[1], c.asset_id(y.info)[1])))
    eff = c.effects()
    todo = [(x.info, None if x.limit.some is None else x.limit.some.n) for x in l if not c.holds(c.eq(x.info, cfg.astro_token))]
    br, rest = swaps(c, cfg, todo, eff)
    if br is None:
        return
    if len(rest) == len(eff):
        distribution(c, eff)
        c.cover('nothing to swap')
    else:
        c.ensure('one message follows the swaps', len(rest) == 1)
        if len(rest) == 1:
            next_step(c, rest[0], br, 0)
        c.ensure('the configuration is kept', c.eq(cfg, c.post('config')))
    c.only_written('config', 'last_collect_ts')


def bridge_post(c):
    cfg = c.pre('config')
    c.ensure('only the contract itself swaps bridge assets', c.eq(c.sender, c.self_addr))
    eff = c.effects()
    l = c.msg.assets.list
    if not l:
        c.ensure('nothing to do', not eff)
        return
    c.ensure('the chain of swaps ends', T.lt(c.msg.depth.n, 5))
    br, rest = swaps(c, cfg, [(x, None) for x in l], eff)
    if br is None:
        return
    c.ensure('something is swapped', len(rest) < len(eff))
    c.ensure('one message follows the swaps', len(rest) == 1)
    if len(rest) == 1:
        next_step(c, rest[0], br, c.msg.depth.n + 1)
    c.only_written()


def seize_post(c):
    s = c.pre('seize_config')
    l, ok = c.msg.assets.list, s.seizable_assets.list
    c.ensure('something is seized', len(l) > 0)
    exp = []
    for x in l:
        c.ensure('only seizable assets are seized', Or(*[c.eq(c.asset_id(x.info)[1], c.asset_id(y)[1]) for y in ok]))
        def bal():
            k, a = c.asset_id(x.info)
            r = c.asked(lambda r: r.kind == 'bank' and And(c.eq(r.address, c.self_addr), c.eq(r.denom, a))) if k == 'native' else None
            if k == 'native' and (r is None or r.answer is None):
                return 0
            return c.balance(x.info, c.self_addr)
        b = bal()
        lim = x.limit.some
        exp.append(c.asset_id(x.info) + (s.receiver.s, b if lim is None else T.imin(lim.n, b)))
        c.cover('limited' if lim is not None else 'all')
    c.flows_are('the receiver gets the balance, or the limit if that is less', c.payouts(), exp)
    c.only_messages('send', 'transfer')
    c.only_written()


def seize_cfg_post(c):
    a, b = c.pre('seize_config'), c.post('seize_config')
    c.ensure('only the owner decides what can be seized', c.eq(c.sender, c.pre('config').owner))
    r = c.msg.receiver.some
    c.ensure('the receiver changes only if asked for', c.eq(b.receiver, a.receiver if r is None else r))
    c.ensure('the seizable assets are the given ones', c.eq(b.seizable_assets, c.msg.seizable_assets))
    c.only_messages()
    c.only_written('seize_config')
    c.cover('ok')


def enable_post(c):
    a, b = c.pre('config'), c.post('config')
    c.ensure('only the owner enables distribution', c.eq(c.sender, a.owner))
    c.ensure('only once', Not(a.rewards_enabled.b))
    c.ensure('over a number of blocks', T.lt(0, c.msg.blocks.n))
    c.ensure('distribution starts now', And(b.rewards_enabled.b, T.eq(b.pre_upgrade_blocks.n, c.msg.blocks.n), T.eq(b.last_distribution_block.n, c.env.block.height.n)))
    c.ensure('nothing else changes', a.same_but(b, 'rewards_enabled', 'pre_upgrade_blocks', 'last_distribution_block'))
    c.only_messages()
    c.only_written('config')
    c.cover('ok')


def limits(c, v, given=None):
    """what every configuration satisfies; with given: checked for what changes only (the rest is as before)"""
    def on(f):
        return given is None or getattr(given, f).some is not None
    if on('governance_percent'):
        c.ensure('the governance share is at most 100 percent', T.le(v.governance_percent.n, 100))
        c.ensure('without staking everything goes to governance', v.staking_contract.some is not None or T.eq(v.governance_percent.n, 100))
    if on('max_spread'):
        c.ensure('the spread limit is positive and at most 50 percent', And(T.lt(0, v.max_spread.n), T.le(v.max_spread.n, ONE // 2)))
    s = v.second_receiver_cfg.some if on('second_receiver_params') else None
    if s is not None:
        c.ensure('the second receiver gets at most half', And(T.lt(0, s.second_receiver_cut.n), T.le(s.second_receiver_cut.n, 50)))
    d = None
    if given is not None and on('dev_fund_config'):
        d = v.dev_fund_conf.some
    if d is not None:
        c.ensure('the dev fund gets at most everything', And(T.lt(0, d.share.n), T.le(d.share.n, ONE)))
    k = v.collect_cooldown.some if on('collect_cooldown') else None
    if k is not None:
        c.ensure('the cooldown is 30 to 600 seconds', And(T.le(30, k.n), T.le(k.n, 600)))
    if given is None or (given.governance_contract.some is not None and given.governance_contract.some.is_('Remove')):
        c.ensure('staking or governance gets the fees', v.staking_contract.some is not None or v.governance_contract.some is not None)


def all_inv(c):
    def inv(v):
        l = [T.le(v.governance_percent.n, 100), T.lt(0, v.max_spread.n), T.le(v.max_spread.n, ONE // 2)]
        s, d, k = v.second_receiver_cfg.some, v.dev_fund_conf.some, v.collect_cooldown.some
        if s is not None:
            l += [T.le(s.second_receiver_cut.n, 50), T.lt(0, s.second_receiver_cut.n)]
        if d is not None:
            l += [T.lt(0, d.share.n), T.le(d.share.n, ONE)]
        if k is not None:
            l += [T.le(30, k.n), T.le(k.n, 600)]
        l.append(v.staking_contract.some is not None or v.governance_contract.some is not None)
        return And(*l)
    c.assume_initial('config', inv)


def update_limits_post(c):
    limits(c, c.post('config'), c.msg)
    c.ensure('only the owner configures', c.eq(c.sender, c.pre('config').owner))
    c.only_messages()
    c.only_written('config')
    c.cover('ok')


def update_plain_post(c):
    a, b, m = c.pre('config'), c.post('config'), c.msg
    for f in ('factory_contract', 'governance_percent', 'max_spread'):
        x = getattr(m, f).some
        c.ensure(f'{f} is what was asked for', c.eq(getattr(b, f), getattr(a, f) if x is None else x))
    c.ensure('nothing else changes', a.same_but(b, 'factory_contract', 'governance_percent', 'max_spread', 'astro_token', 'staking_contract', 'default_bridge',
                                                'collect_cooldown', 'governance_contract', 'second_receiver_cfg', 'dev_fund_conf'))


def update_opt_post(f, g):
    def post(c):
        a, b, m = c.pre('config'), c.post('config'), c.msg
        x = getattr(m, f).some
        if x is None:
            c.ensure(f'{g} is kept', c.eq(getattr(a, g), getattr(b, g)))
        else:
            y = getattr(b, g)
            if f != 'astro_token':
                y = y.some
            c.ensure(f'{g} is what was asked for', y is not None and c.eq(x, y))
    return post


def update_gov_post(c):
    a, b, m = c.pre('config'), c.post('config'), c.msg
    g = m.governance_contract.some
    if g is None:
        c.ensure('the governance contract is kept', c.eq(a.governance_contract, b.governance_contract))
    elif g.is_('Set'):
        y = b.governance_contract.some
        c.ensure('the governance contract is the given one', y is not None and c.eq(y, g.get('0')))
    else:
        c.ensure('the governance contract is removed', b.governance_contract.some is None)


def update_second_post(c):
    a, b, m = c.pre('config'), c.post('config'), c.msg
    s = m.second_receiver_params.some
    if s is None:
        c.ensure('the second receiver is kept', c.eq(a.second_receiver_cfg, b.second_receiver_cfg))
    else:
        y = b.second_receiver_cfg.some
        c.ensure('the second receiver is the given one', y is not None and And(c.eq(y.second_fee_receiver, s.second_fee_receiver), T.eq(y.second_receiver_cut.n, s.second_receiver_cut.n)))


def update_dev_post(c):
    a, b, m = c.pre('config'), c.post('config'), c.msg
    d = m.dev_fund_config.some
    c.ensure('the dev fund is the one asked for', c.eq(b.dev_fund_conf, a.dev_fund_conf if d is None else d.set))


update_post = [update_limits_post, update_plain_post, update_gov_post, update_second_post, update_dev_post] + [
    update_opt_post(f, g) for f, g in (('astro_token', 'astro_token'), ('staking_contract', 'staking_contract'), ('basic_asset', 'default_bridge'),
                                       ('collect_cooldown', 'collect_cooldown'))]


def init_post(c):
    b, m = c.post('config'), c.msg
    limits(c, b)
    c.ensure('the owner is the given one', c.eq(b.owner, m.owner))
    c.ensure('distribution is not enabled yet', And(Not(b.rewards_enabled.b), T.eq(b.remainder_reward.n, 0)))
    c.ensure('there is no dev fund yet', b.dev_fund_conf.some is None)
    c.ensure('the first cooldown starts now', T.eq(c.post('last_collect_ts').n, c.now))
    c.ensure('nothing can be seized yet', len(c.post('seize_config').seizable_assets.list) == 0)
    c.cover('ok')


def bridges_post(c):
    cfg = c.pre('config')
    c.ensure('only the owner changes the routes', c.eq(c.sender, cfg.owner))
    add, rem = c.msg.add.some, c.msg.remove.some
    add, rem = [] if add is None else add.list, [] if rem is None else rem.list
    keys = [c.asset_id(x.get('0'))[1] for x in add] + [c.asset_id(x)[1] for x in rem]
    c.only_keys('bridges', keys)
    AI = 'astroport::asset::AssetInfo'
    for i, x in enumerate(add):
        c.ensure('an asset is no bridge for itself', Not(c.eq(x.get('0'), x.get('1'))))
        if any(c.same(c.asset_id(y.get('0'))[1], c.asset_id(x.get('0'))[1]) for y in add[i + 1:]):
            continue
        v = c.post('bridges', c.asset_id(x.get('0'))[1], AI)
        c.ensure('the route is the given one', v is not None and c.eq(v, x.get('1')))
        c.ensure('there is a pool for the route', pool(c, cfg, x.get('0'), x.get('1')) is not None)
        c.cover('added')
    for x in rem:
        if any(c.same(c.asset_id(y.get('0'))[1], c.asset_id(x)[1]) for y in add):
            continue
        c.ensure('the route is gone', c.post('bridges', c.asset_id(x)[1], AI) is None)
        c.cover('removed')
    c.only_messages()
    c.only_written('bridges')


def lens(c):
    all_inv(c)
    t = c.run.tier == 'thorough'
    c.ex.lens['assets'] = (0, 1)
    c.ex.lens['seizable_assets'] = (0, 1, 2, 3) if t else (0, 1, 2)
    c.ex.lens['add'] = (1, 2) if t else (1,)
    c.ex.lens['remove'] = (1, 2) if t else (1,)


KIND = ['NativeToken', 'Token']
KINDS = {'st:config.astro_token': KIND, 'st:config.default_bridge.Some.0': KIND}


def two(c):
    all_inv(c)
    c.ex.lens['assets'] = ('exact', 2)
    c.ex.queries_succeed = True


D.add(Scenario('distribute', CR, EX, distribute_post, setup=all_inv, fixed={'msg': 'DistributeAstro'},
               covers=['disabled', 'release', 'second', 'governance', 'dev', 'staking']),
      Scenario('enable', CR, EX, enable_post, setup=all_inv, fixed={'msg': 'EnableRewards'}, covers=['ok']),
      Scenario('dev fund reply', CR, 'reply::reply', dev_reply_post, setup=all_inv, covers=['ok']))
M.add(Scenario('collect', CR, EX, collect_post, setup=lens, fixed={'msg': 'Collect'}, split=dict(KINDS, **{'msg.Collect.assets[0].info': KIND}),
               covers=['cooldown', 'bridge', 'default bridge', 'direct', 'goes on', 'distributes', 'nothing to swap']),
      Scenario('bridge assets', CR, EX, bridge_post, setup=lens, fixed={'msg': 'SwapBridgeAssets'}, split=dict(KINDS, **{'msg.SwapBridgeAssets.assets[0]': KIND}), covers=['goes on', 'distributes']),
      Scenario('two bridge assets', CR, EX, bridge_post, setup=two, fixed={'msg': 'SwapBridgeAssets', 'st:config.default_bridge': 'None',
               'st:config.astro_token': 'NativeToken', 'msg.SwapBridgeAssets.assets[0]': 'NativeToken', 'msg.SwapBridgeAssets.assets[1]': 'NativeToken',
               'has:bridges': (1,)}, covers=['goes on', 'distributes']),
      Scenario('seize', CR, EX, seize_post, setup=lens, fixed={'msg': 'Seize'}, covers=['limited', 'all']),
      Scenario('seize config', CR, EX, seize_cfg_post, setup=all_inv, fixed={'msg': 'UpdateSeizeConfig'}, covers=['ok']),
      Scenario('config', CR, EX, update_post, fixed={'msg': 'UpdateConfig'}, split={'msg.UpdateConfig.' + f: ['None', 'Some'] for f in
               ('factory_contract', 'staking_contract', 'basic_asset', 'second_receiver_params', 'dev_fund_config', 'astro_token')}, covers=['ok']),
      Scenario('instantiate', CR, 'contract::instantiate', init_post, covers=['ok']),
      Scenario('bridges', CR, EX, bridges_post, setup=lens, fixed={'msg': 'UpdateBridges'}, split={'st:config.astro_token': KIND, 'msg.UpdateBridges.add.Some.0[0].0': KIND, 'msg.UpdateBridges.add.Some.0[0].1': KIND}, covers=['added', 'removed']))


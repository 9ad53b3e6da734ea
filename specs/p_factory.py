"""The factory: contracts/factory"""
from vc import *
from registry import prop
from common import *

CR, EX = 'astroport_factory', 'contract::execute'
p = prop('C04')


def type_name(c, t):
    """the key a pair type is stored under"""
    if t.is_('Xyk'):
        return 'xyk'
    if t.is_('Stable'):
        return 'stable'
    return c.concat('custom-', t.get('0').s)


def pair_key(c, infos):
    """the identifiers of the assets, in increasing order: the same for every order of the assets"""
    return c.concat(*c.sorted_texts([c.asset_id(a)[1] for a in infos]))


def create_post(c):
    cfg = c.pre('config')
    infos = c.msg.asset_infos.list
    for i, a in enumerate(infos):
        for b in infos[:i]:
            c.ensure('the assets are distinct', Not(c.eq(a, b)))
    t = c.msg.pair_type
    pc = c.pre('pair_configs', type_name(c, t), 'astroport::factory::PairConfig')
    c.ensure('the pair type is configured', pc is not None)
    if pc is None:
        return
    c.ensure('a disabled pair type makes no pairs', Not(pc.is_disabled.b))
    c.ensure('a permissioned pair type is for the owner only', Or(Not(pc.permissioned.b), c.eq(c.sender, cfg.owner)))
    key = pair_key(c, infos)
    c.ensure('no such pair is registered yet', c.pre('pair_info', key, 'cosmwasm_std::Addr') is None)
    tmp = c.post('tmp_pair_info')
    c.ensure('the reply will register the pair under its assets', c.eq(tmp.pair_key, key))
    effs = c.effects()
    c.ensure('exactly one contract is instantiated', len(effs) == 1 and effs[0].kind == 'instantiate')
    if len(effs) != 1 or effs[0].kind != 'instantiate':
        return
    e = effs[0]
    c.ensure('with the code of the pair type', T.eq(e.code_id.n, pc.code_id.n))
    c.ensure('administered by the owner', e.admin.some is not None and c.eq(e.admin.some, cfg.owner))
    m = e.msg.json()
    c.ensure('the pair is told its assets', c.eq(m.asset_infos, c.msg.asset_infos))
    c.ensure('the pair is told its type', c.eq(m.pair_type, t))
    c.ensure('the pair is told its factory', c.eq(m.factory_addr, c.self_addr))
    c.ensure('the pair is told the token code', T.eq(m.token_code_id.n, cfg.token_code_id.n))
    c.ensure('the pair gets its parameters', c.eq(m.init_params, c.msg.init_params))
    c.ensure('the pair gets the funds', c.eq(e.funds, c.info.funds))
    c.ensure('a reply is asked for on success', And(T.eq(e.sub.id.n, 1), e.sub.reply_on.is_('Success')))
    c.only_written('tmp_pair_info')
    c.cover('created')


def setup(c):
    c.ex.lens['msg.CreatePair.asset_infos'] = (1, 2, 3)


p.add(Scenario('create pair', CR, EX, create_post, setup=setup, fixed={'msg': 'CreatePair'}, covers=['created']))


def reply_post(c):
    tmp = c.pre('tmp_pair_info')
    c.ensure('no pair is overwritten', c.pre('pair_info', raw(tmp.pair_key), 'cosmwasm_std::Addr') is None)
    v = c.post('pair_info', raw(tmp.pair_key))
    c.ensure('the instantiated contract is registered for the assets of the request', v is not None and c.eq(v, c.msg.result.get('0').data.some.instantiated()))
    c.only_keys('pair_info', [raw(tmp.pair_key)])
    c.only_written('pair_info')
    c.only_messages()
    c.cover('registered')


def dereg_post(c):
    cfg = c.pre('config')
    c.ensure('only the owner deregisters', c.eq(c.sender, cfg.owner))
    key = pair_key(c, c.msg.asset_infos.list)
    a = c.pre('pair_info', key, 'cosmwasm_std::Addr')
    c.ensure('the pair was registered', a is not None)
    c.ensure('the pair is gone', c.post('pair_info', key) is None)
    c.only_keys('pair_info', [key])
    c.only_written('pair_info')
    g = cfg.generator_address.some
    effs = c.effects()
    if g is None:
        c.ensure('no incentives contract, no message', not effs)
        c.cover('plain')
        return
    c.ensure('one message', len(effs) == 1 and effs[0].kind == 'execute' and not effs[0].funds)
    r = c.smart(a, 'Pair')
    c.ensure('the pair is asked for its LP token', r is not None)
    if len(effs) == 1 and effs[0].kind == 'execute' and r is not None:
        c.ensure('the incentives contract is told', c.eq(effs[0].contract, g))
        m = effs[0].msg.json()
        c.ensure('to deactivate the LP token of that pair', m.is_('DeactivatePool') and c.eq(m.lp_token, r.answer.liquidity_token))
    c.cover('deactivated')



def config_post(c):
    a, b = c.pre('config'), c.post('config')
    m = c.msg
    c.ensure('only the owner configures', c.eq(c.sender, a.owner))
    c.ensure('the owner stays', c.eq(a.owner, b.owner))
    for n in ('fee_address', 'generator_address'):
        x = m.get(n).some
        if x is None:
            c.ensure(f'{n} is kept', c.eq(b.get(n), a.get(n)))
        else:
            c.ensure(f'{n} is set', b.get(n).some is not None and c.eq(b.get(n).some, x))
    for n in ('token_code_id', 'whitelist_code_id', 'coin_registry_address'):
        x = m.get(n).some
        c.ensure(f'{n} is kept unless given', c.eq(b.get(n), a.get(n) if x is None else x))
    c.only_written('config')
    c.only_messages()
    c.cover('configured')


def pair_config_post(c):
    a = c.pre('config')
    q = c.msg.config
    c.ensure('only the owner configures pair types', c.eq(c.sender, a.owner))
    c.ensure('fees stay within 100 %', And(T.le(q.total_fee_bps.n, 10000), T.le(q.maker_fee_bps.n, 10000)))
    k = type_name(c, q.pair_type)
    v = c.post('pair_configs', k, 'astroport::factory::PairConfig')
    c.ensure('the configuration is stored under its type', v is not None and c.eq(v, q))
    c.only_keys('pair_configs', [k])
    c.only_written('pair_configs')
    c.only_messages()
    c.cover('set')


def tracker_post(c):
    cfg = c.pre('config')
    c.ensure('only the owner configures the tracker', c.eq(c.sender, cfg.owner))
    t0, t1 = c.pre('tracker_config'), c.post('tracker_config')
    c.ensure('the code is set', T.eq(t1.code_id.n, c.msg.tracker_code_id.n))
    if t0 is None:
        a = c.msg.token_factory_addr.some
        c.ensure('the first configuration names the token factory', a is not None and c.eq(t1.token_factory_addr, a))
        c.cover('first')
    else:
        c.ensure('the token factory stays', c.eq(t0.token_factory_addr, t1.token_factory_addr))
        c.cover('again')
    c.only_written('tracker_config')
    c.only_messages()


def init_post(c):
    m, b = c.msg, c.post('config')
    c.ensure('the owner is the one asked for', c.eq(b.owner, m.owner))
    c.ensure('codes', And(T.eq(b.token_code_id.n, m.token_code_id.n), T.eq(b.whitelist_code_id.n, m.whitelist_code_id.n)))
    pcs = m.pair_configs.list
    for q in pcs:
        c.ensure('fees stay within 100 %', And(T.le(q.total_fee_bps.n, 10000), T.le(q.maker_fee_bps.n, 10000)))
        v = c.post('pair_configs', type_name(c, q.pair_type), 'astroport::factory::PairConfig')
        c.ensure('every pair type is stored', v is not None and c.eq(v, q))
    c.only_written('config', 'pair_configs', 'tracker_config', 'contract_info')
    c.only_messages()
    c.cover('init')


def qpair_post(c):
    key = pair_key(c, c.msg.asset_infos.list)
    a = c.pre('pair_info', key, 'cosmwasm_std::Addr')
    c.ensure('an unregistered pair is not found', a is not None)
    if a is None:
        return
    r = c.smart(a, 'Pair')
    c.ensure('the answer is what the registered pair says', r is not None and c.eq(c.ret.json(), r.answer))
    c.cover('found')


def qfee_post(c):
    cfg = c.pre('config')
    q = c.pre('pair_configs', type_name(c, c.msg.pair_type), 'astroport::factory::PairConfig')
    r = c.ret.json()
    c.ensure('the fees are those of the pair type', q is not None and And(T.eq(r.total_fee_bps.n, q.total_fee_bps.n), T.eq(r.maker_fee_bps.n, q.maker_fee_bps.n)))
    c.ensure('the fee address is the configured one', c.eq(r.fee_address, cfg.fee_address))
    c.cover('fee')


def setup2(c):
    c.ex.lens['asset_infos'] = (1, 2, 3)


def setup3(c):
    c.ex.lens['pair_configs'] = (0, 1, 2)


p.add(Scenario('register pair', CR, 'contract::reply', reply_post, covers=['registered']),
      Scenario('deregister pair', CR, EX, dereg_post, setup=setup2, fixed={'msg': 'Deregister'}, covers=['plain', 'deactivated']),
      Scenario('query pair', CR, 'contract::query', qpair_post, setup=setup2, fixed={'msg': 'Pair'}, covers=['found']))
F = prop('C05')
F.add(Scenario('update config', CR, EX, config_post, fixed={'msg': 'UpdateConfig'}, covers=['configured']),
      Scenario('update pair config', CR, EX, pair_config_post, fixed={'msg': 'UpdatePairConfig'}, covers=['set']),
      Scenario('update tracker config', CR, EX, tracker_post, fixed={'msg': 'UpdateTrackerConfig'}, covers=['first', 'again']),
      Scenario('factory instantiation', CR, 'contract::instantiate', init_post, setup=setup3, covers=['init']),
      Scenario('query fees', CR, 'contract::query', qfee_post, fixed={'msg': 'FeeInfo'}, covers=['fee']))

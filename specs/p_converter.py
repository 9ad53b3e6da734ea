"""ASTRO converters: contracts/periphery/astro_converter, astro_converter_neutron, pair_astro_converter, pair_xastro"""
from vc import *
from registry import prop

p = prop('C14')


def convert_post(c):
    cfg = c.pre('config')
    c.ensure('conversion needs a native old token', cfg.old_astro_asset_info.is_('NativeToken'))
    if not cfg.old_astro_asset_info.is_('NativeToken'):
        return
    f = c.info.funds.list
    c.ensure('exactly one coin is accepted', len(f) == 1)
    c.ensure('only the old token is accepted', c.eq(f[0].denom, cfg.old_astro_asset_info.denom))
    c.flows_are('payouts', c.payouts(), [('native', cfg.new_astro_denom.s, c.receiver(c.msg.receiver), f[0].amount.n)])
    c.only_messages('send')
    c.only_written()
    c.cover('native')


def receive_post(c):
    cfg = c.pre('config')
    m = c.msg.get('0')
    c.ensure('conversion needs a cw20 old token', cfg.old_astro_asset_info.is_('Token'))
    if not cfg.old_astro_asset_info.is_('Token'):
        return
    c.ensure('only the old token contract may call the hook', c.eq(c.sender, cfg.old_astro_asset_info.contract_addr))
    r = m.msg.json().receiver.some
    c.flows_are('payouts', c.payouts(), [('native', cfg.new_astro_denom.s, m.sender.s if r is None else r.s, m.amount.n)])
    c.only_messages('send')
    c.only_written()
    c.cover('cw20')


def burn_post(c):
    cfg = c.pre('config')
    old = cfg.old_astro_asset_info
    c.ensure('burning needs a cw20 old token', old.is_('Token'))
    if not old.is_('Token'):
        return
    bal = c.cw20_balance(old.contract_addr.s, c.self_addr)
    c.flows_are('burn', c.payouts(), [('cw20', old.contract_addr.s, StrV(lit='!burn'), bal)])
    c.only_messages('burn')
    c.ensure('no funds are accepted', len(c.info.funds.list) == 0)
    c.only_written()
    c.cover('burn')


def ibc_post(c):
    cfg = c.pre('config')
    old = cfg.old_astro_asset_info
    c.ensure('the transfer needs a native old token', old.is_('NativeToken'))
    if not old.is_('NativeToken'):
        return
    par = cfg.outpost_burn_params.some
    c.ensure('burn parameters are set', par is not None)
    bal = c.native_balance(c.self_addr, old.denom.s)
    effs = c.effects()
    c.ensure('exactly one transfer', len(effs) == 1 and effs[0].kind == 'ibc')
    if par is None or len(effs) != 1 or effs[0].kind != 'ibc':
        return
    e = effs[0]
    c.ensure('the whole balance of the old token goes to the configured burn address',
             And(c.eq(e.to, par.terra_burn_addr), c.eq(e.channel, par.old_astro_transfer_channel), c.eq(e.denom, old.denom), T.eq(e.amount, bal)))
    to = c.msg.timeout.some
    to = 300 if to is None else to.n
    c.ensure('the timeout is between two and ten minutes', And(T.le(120, to), T.le(to, 600)))
    c.ensure('the packet expires after the timeout', T.eq(e.timeout, c.env.block.time.n + to * 10 ** 9))
    c.only_written()
    c.cover('ibc')


for cr, nm in (('astro_token_converter', ''), ('astro_token_converter_neutron', 'neutron ')):
    p.add(Scenario(nm + 'convert', cr, 'contract::execute', convert_post, fixed={'msg': 'Convert'}, covers=['native']),
          Scenario(nm + 'receive', cr, 'contract::execute', receive_post, fixed={'msg': 'Receive'}, covers=['cw20']),
          Scenario(nm + 'transfer for burning', cr, 'contract::execute', ibc_post, fixed={'msg': 'TransferForBurning'}, covers=['ibc']))
p.add(Scenario('burn', 'astro_token_converter', 'contract::execute', burn_post, fixed={'msg': 'Burn'}, covers=['burn']))


# the pairs that only forward to the converter or to staking
def sent_asset(c, m):
    """(offer asset, trader, recipient option) of a swap message, direct or through the cw20 hook"""
    return m.offer_asset.info, m.offer_asset.amount.n, c.sender, m.to.some


def fwd_post(c):
    cfg = c.pre('config')
    if c.msg.is_('Receive'):
        m = c.msg.get('0')
        h = m.msg.json()
        c.ensure('only the swap hook is accepted', h.is_('Swap'))
        frm = cfg.get('from')
        c.ensure('only the old token contract may call the hook', frm.is_('Token') and c.eq(c.sender, frm.contract_addr))
        amt, trader, to = m.amount.n, m.sender.s, h.to.some
    else:
        c.ensure('only swaps are accepted', c.msg.is_('Swap'))
        frm = cfg.get('from')
        o = c.msg.offer_asset
        c.ensure('only the old native token is accepted', frm.is_('NativeToken') and o.info.is_('NativeToken') and c.eq(o.info.denom, frm.denom))
        amt, trader, to = o.amount.n, c.sender, c.msg.to.some
        c.ensure('the offered amount was sent', T.eq(c.sent(o.info.denom), amt))
    to = trader if to is None else to.s
    k = frm.variant
    effs = c.effects()
    c.ensure('exactly one message', len(effs) == 1)
    e = effs[0]
    if k == 'Token':
        c.ensure('exactly the offered tokens go to the converter',
                 e.kind == 'cw20_send' and And(c.eq(e.token, frm.contract_addr), c.eq(e.to, cfg.converter_contract), T.eq(e.amount, amt)))
        if e.kind == 'cw20_send':
            r = e.msg.json().receiver.some
            c.ensure('the converter is told the recipient', r is not None and c.eq(r, to))
        c.cover('cw20')
    else:
        c.ensure('exactly the offered coins go to the converter', e.kind == 'execute' and c.eq(e.contract, cfg.converter_contract))
        if e.kind == 'execute':
            c.ensure('one coin is forwarded', len(e.funds) == 1 and And(c.eq(e.funds[0][0], frm.denom), T.eq(e.funds[0][1], amt)))
            m = e.msg.json()
            ok = m.is_('Convert') and m.receiver.some is not None
            c.ensure('the converter is told the recipient', ok and c.eq(m.receiver.some, to))
        c.cover('native')
    c.only_written()


p.add(Scenario('converter pair swap', 'astroport_pair_converter', 'contract::execute', fwd_post, covers=['cw20', 'native']))

X = prop('C15')


def xastro_post(c):
    cfg = c.pre('config')
    c.ensure('only swaps are accepted', c.msg.is_('Swap'))
    if not c.msg.is_('Swap'):
        return
    o = c.msg.offer_asset
    c.ensure('a native asset is offered', o.info.is_('NativeToken'))
    d, amt = o.info.denom, o.amount.n
    c.ensure('the offered amount was sent', T.eq(c.sent(d), amt))
    effs = c.effects()
    c.ensure('exactly one message', len(effs) == 1)
    e = effs[0]
    c.ensure('it goes to staking', e.kind == 'execute' and c.eq(e.contract, cfg.staking))
    if e.kind != 'execute':
        return
    c.ensure('exactly the offered coins are forwarded', len(e.funds) == 1 and And(c.eq(e.funds[0][0], d), T.eq(e.funds[0][1], amt)))
    m = e.msg.json()
    if c.same(d, cfg.astro_denom):
        c.cover('stake')
        c.ensure('ASTRO is staked', m.is_('Enter'))
    else:
        c.cover('unstake')
        c.ensure('anything else than ASTRO is xASTRO', c.eq(d, cfg.xastro_denom))
        c.ensure('xASTRO is unstaked', m.is_('Leave'))
    to = c.receiver(c.msg.to)
    r = m.receiver.some
    c.ensure('staking pays the recipient', r is not None and c.eq(r, to))
    c.only_written()


def xsim_post(c):
    cfg = c.pre('config')
    a = c.msg.offer_asset
    r = c.ret.json()
    dep = c.native_balance(cfg.staking.s, cfg.astro_denom.s)
    sh = c.supply(cfg.xastro_denom.s)
    n = a.amount.n
    if c.same(a.info.denom, cfg.astro_denom):
        # the formula of the staking contract
        want = T.ite(Or(T.eq(dep, 0), T.eq(sh, 0)), n - 1000, T.fdiv(n * sh, dep))
        c.cover('stake')
    else:
        want = T.fdiv(n * dep, sh)
        c.cover('unstake')
    c.ensure('the simulation is the amount staking pays', T.eq(r.return_amount.n, want))
    c.ensure('no commission', And(T.eq(r.commission_amount.n, 0), T.eq(r.spread_amount.n, 0)))


X.add(Scenario('xASTRO pair swap', 'astroport_pair_xastro', 'contract::execute', xastro_post, covers=['stake', 'unstake']),
      Scenario('xASTRO pair simulation', 'astroport_pair_xastro', 'queries::query', xsim_post, fixed={'msg': 'Simulation'}, covers=['stake', 'unstake']))

"""XYK pair: contracts/pair"""
from vc import *
from registry import prop
from xyk import *

CR = 'astroport_pair'
EX = 'contract::execute'
SPL = {'st:config.track_asset_balances': [True, False], 'st:config.fee_share': ['None', 'Some']}
p = prop('C01')
st = distinct_assets(CR)
BOTH = ['native', 'cw20', 'fee share', 'maker fee', 'tracked']
p.add(Scenario('swap (cw20)', CR, EX, swap_pay_post(), setup=st, fixed={'msg': 'Receive'}, split=SPL, covers=BOTH + ['cw20 offered']),
      Scenario('swap (native)', CR, EX, swap_pay_post(), setup=st, fixed={'msg': 'Swap'}, split=SPL, covers=BOTH))
l = prop('C02')
l.add(Scenario('limits (cw20)', CR, EX, swap_limits_post(), setup=st, fixed={'msg': 'Receive'}, split=SPL, covers=['belief', 'spread']),
      Scenario('limits (native)', CR, EX, swap_limits_post(), setup=st, fixed={'msg': 'Swap'}, split=SPL, covers=['belief', 'spread']))
LQ = {'st:config.track_asset_balances': [True, False]}


def liq(crate, min_lp=True, min_assets=True):
    st = distinct_assets(crate)
    pv, wd, tw = prop('C17'), prop('C18'), prop('C19')
    n = '' if crate == CR else ' (sale tax)'
    LP = {**LQ, 'st:config.pair_info.asset_infos[0]': ['NativeToken', 'Token'], 'st:config.pair_info.asset_infos[1]': ['NativeToken', 'Token']}
    P, W = {'msg': 'ProvideLiquidity'}, {'msg': 'WithdrawLiquidity'}
    pv.add(Scenario('provide' + n, crate, EX, provide_post(min_lp), setup=st, fixed=P, split=LP,
                    covers=['first', 'later', 'auto stake', 'cw20'] + ['minimum'] * min_lp),
           Scenario('slippage' + n, crate, EX, provide_slippage_post, setup=st, fixed=P, split=LP, covers=['checked']))
    wd.add(Scenario('withdraw' + n, crate, EX, withdraw_post(min_assets), setup=st, fixed=W, split=LQ,
                    covers=['withdrawn'] + ['minimum'] * min_assets))
    tw.add(Scenario('prices: provide' + n, crate, EX, provide_twap_post, setup=st, fixed=P, split=LP, covers=['accumulated']),
           Scenario('prices: withdraw' + n, crate, EX, withdraw_twap_post, setup=st, fixed=W, split=LQ, covers=['accumulated']),
           Scenario('prices: swap (cw20)' + n, crate, EX, swap_twap_post, setup=st, fixed={'msg': 'Receive'}, split=LQ, covers=['accumulated']),
           Scenario('prices: swap (native)' + n, crate, EX, swap_twap_post, setup=st, fixed={'msg': 'Swap'}, split=LQ, covers=['accumulated']))


liq(CR)
liq('astroport_pair_xyk_sale_tax', False, False)
SX = 'astroport_pair_xyk_sale_tax'
sx = distinct_assets(SX)
STR = {'st:config.track_asset_balances': [True, False]}
q = prop('C10')
q.add(Scenario('taxed swap (cw20)', SX, EX, swap_pay_post(sale_tax), setup=sx, fixed={'msg': 'Receive'}, split=STR, covers=BOTH[:2] + ['cw20 offered']),
      Scenario('taxed swap (native)', SX, EX, swap_pay_post(sale_tax), setup=sx, fixed={'msg': 'Swap'}, split=STR, covers=BOTH[:2] + ['taxed']))
l.add(Scenario('limits (cw20, sale tax)', SX, EX, swap_limits_post(sale_tax), setup=sx, fixed={'msg': 'Receive'}, split=STR, covers=['belief', 'spread']),
      Scenario('limits (native, sale tax)', SX, EX, swap_limits_post(sale_tax), setup=sx, fixed={'msg': 'Swap'}, split=STR, covers=['belief', 'spread', 'taxed']))

# ------------------------------------------------------------------ creation, administration
IN, RP, QU = 'contract::instantiate', 'contract::reply', 'contract::query'


def init_post(c):
    cfg = c.post('config')
    if created(c, cfg, c.msg, None):
        c.ensure('no fee share', cfg.fee_share.some is None)
        p = c.msg.init_params.some
        t = None if p is None else p.json('astroport::pair::XYKPoolParams').track_asset_balances.some
        track_start(c, cfg, False if t is None else t)


def init_tax_post(c):
    cfg = c.post('config')
    if created(c, cfg, c.msg, 'astroport-pair-xyk-sale-tax'):
        p = c.msg.init_params.some
        c.ensure('parameters are given', p is not None)
        if p is not None:
            p = p.json('astroport::pair_xyk_sale_tax::SaleTaxInitParams')
            taxes_set(c, cfg, p.tax_configs)
            c.ensure('the tax admin is the given one', c.eq(cfg.tax_config_admin, p.tax_config_admin))
            track_start(c, cfg, p.track_asset_balances)


def taxes_set(c, cfg, given):
    new, old = cfg.tax_configs.get('0'), given.get('0')
    c.ensure('taxes are on native coins of the pair and at most half', taxes_ok(c, new, cfg.pair_info.asset_infos.list))
    c.ensure('exactly the given taxes are stored', len(new.list) == len(old.list))
    for k, v in old.entries:
        c.ensure('exactly the given taxes are stored',
                 Or(*[And(c.eq(k, k2), T.eq(v.tax_rate.n, v2.tax_rate.n), c.eq(v.tax_recipient, v2.tax_recipient)) for k2, v2 in new.entries]))
        c.cover('taxes')


def config_post(c):
    a, b = c.pre('config'), c.post('config')
    f = factory_config(c, a.factory_addr)
    c.ensure('only the owner of the factory', f is not None and c.eq(c.sender, f.owner))
    m = c.msg.params.json('astroport::pair::XYKPoolUpdateParams')
    s = b.fee_share.some
    if m.is_('EnableFeeShare'):
        c.ensure('the share is set as asked', s is not None and And(T.eq(s.bps.n, m.fee_share_bps.n), c.eq(s.recipient, m.fee_share_address)))
        c.ensure('between 1 and 1000 basis points', s is not None and And(T.lt(0, s.bps.n), T.le(s.bps.n, 1000)))
        c.cover('enabled')
    else:
        c.ensure('no share is left', s is None)
        c.cover('disabled')
    c.ensure('nothing else in the configuration changes', a.same_but(b, 'fee_share'))
    c.only_written('config')
    c.only_messages()


def config_tax_post(c):
    a, b = c.pre('config'), c.post('config')
    m = c.msg.params.json('astroport::pair_xyk_sale_tax::SaleTaxConfigUpdates')
    f = factory_config(c, a.factory_addr)
    isadm = c.eq(c.sender, a.tax_config_admin)
    t, adm = m.tax_configs.some, m.tax_config_admin.some
    c.ensure('only the tax admin (or, changing nothing, the owner of the factory)',
             Or(isadm, And(t is None, adm is None, f is not None and c.eq(c.sender, f.owner))))
    if t is None:
        c.ensure('taxes are kept', c.eq(a.tax_configs, b.tax_configs))
    else:
        taxes_set(c, b, t)
        c.cover('taxes')
    c.ensure('the tax admin is the given one', c.eq(b.tax_config_admin, a.tax_config_admin if adm is None else adm))
    c.ensure('nothing else in the configuration changes', a.same_but(b, 'tax_configs', 'tax_config_admin'))
    c.only_written('config')
    c.only_messages()


def any_assets(c):
    c.ex.lens['msg.asset_infos'] = (1, 2, 3)
    c.ex.lens['tax_configs'] = (0, 1, 2)


A = prop('C20')
for crate, n, st0, ini, cf in ((CR, '', st, init_post, config_post), (SX, ' (sale tax)', sx, init_tax_post, config_tax_post)):
    A.add(Scenario('instantiate' + n, crate, IN, ini, setup=any_assets, covers=['tracking', 'not tracking'] + ['taxes'] * (crate == SX)),
          Scenario('configure' + n, crate, EX, cf, setup=st0, fixed={'msg': 'UpdateConfig'}, covers=['enabled', 'disabled'] if crate == CR else ['taxes']),
          Scenario('LP denom' + n, crate, RP, reply_denom_post(), covers=['plain', 'tracker']),
          Scenario('tracker' + n, crate, RP, reply_tracker_post, covers=['hooked']))
Q = prop('C21')
for crate, n, st0, tx in ((CR, '', st, None), (SX, ' (sale tax)', sx, sale_tax)):
    for m, po, cv in (('Pool', q_pool_post, ['pool']), ('Share', q_share_post, ['share']), ('SimulateWithdraw', q_share_post, ['share']),
                      ('Simulation', q_sim_post(tx), ['simulated']), ('ReverseSimulation', q_reverse_post(tx), ['simulated'] + ['taxed'] * bool(tx)),
                      ('CumulativePrices', q_prices_post, ['integrated']), ('SimulateProvide', q_provide_post, ['first', 'later']),
                      ('AssetBalanceAt', q_balance_at_post, ['recorded', 'not recorded'])):
        Q.add(Scenario('query ' + m + n, crate, QU, po, setup=st0, fixed={'msg': m}, covers=cv))

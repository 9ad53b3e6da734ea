"""Vesting: contracts/tokenomics/vesting"""
from vc import *
from registry import prop
from common import *

CR = 'astroport_vesting'
EX = 'contract::execute'
p = prop('C16')


def unlocked(c, s, now):
    """what a schedule has unlocked at a time (a schedule that has not started has unlocked nothing)"""
    t0, a0 = s.start_point.time.n, s.start_point.amount.n
    e = s.end_point.some
    if e is None:
        u = a0
    else:
        t1, a1 = e.time.n, e.amount.n
        u = a0 + T.fdiv((T.imin(now, t1) - t0) * (a1 - a0), t1 - t0)
    return T.ite(T.le(t0, now), u, 0)


def total(s):
    e = s.end_point.some
    return s.start_point.amount.n if e is None else e.amount.n


def claim_post(c):
    cfg = c.pre('config')
    vi, vo = c.pre('vesting_info', c.sender), c.post('vesting_info', c.sender)
    free = 0
    for s in vi.schedules:
        free = free + unlocked(c, s, c.now)
    avail = free - vi.released_amount.n
    a = c.msg.amount.some
    want = avail if a is None else a.n
    c.ensure('no more than the unlocked and unclaimed amount is claimed', T.le(want, avail))
    c.flows_are('payouts', c.payouts(), [c.asset_id(cfg.vesting_token) + (c.receiver(c.msg.recipient), want)])
    c.only_messages('send', 'transfer')
    c.ensure('the claimed amount is recorded', T.eq(vo.released_amount.n, vi.released_amount.n + want))
    c.ensure('the schedules are untouched', c.eq(vo.schedules, vi.schedules))
    c.only_keys('vesting_info', [c.sender])
    c.only_written('vesting_info')
    c.cover('claim')


def withdraw_post(c):
    cfg = c.pre('config')
    c.ensure('only the owner withdraws', c.eq(c.sender, cfg.owner))
    k = c.msg.account
    amt = c.msg.withdraw_amount.n
    vi, vo = c.pre('vesting_info', k), c.post('vesting_info', k)
    a, b = vi.schedules.list, vo.schedules.list
    c.ensure('no schedule is added or removed', len(a) == len(b))
    active, moved = 0, 0
    for s, t in zip(a, b):
        e, e2 = s.end_point.some, t.end_point.some
        act = False if e is None else And(T.le(s.start_point.time.n, c.now), T.lt(c.now, e.time.n))
        if c.holds(act):
            active += 1
            c.ensure('an active schedule keeps its end', e2 is not None and T.eq(e2.time.n, e.time.n))
            if e2 is None:
                continue
            c.ensure('the schedule loses exactly the withdrawn amount', T.eq(e2.amount.n, e.amount.n - amt))
            c.ensure('what is already unlocked stays unlocked', T.eq(t.start_point.amount.n, unlocked(c, s, c.now)))
            c.ensure('the schedule restarts now', T.eq(t.start_point.time.n, c.now))
            c.ensure('something is left to unlock', T.lt(t.start_point.amount.n, e2.amount.n))
        else:
            c.ensure('an inactive schedule is untouched', c.eq(s, t))
    c.ensure('exactly one schedule is active', active == 1)
    c.ensure('claims are untouched', T.eq(vo.released_amount.n, vi.released_amount.n))
    c.ensure('a withdrawal is positive', T.lt(0, amt))
    c.flows_are('payouts', c.payouts(), [c.asset_id(cfg.vesting_token) + (c.receiver(c.msg.recipient), amt)])
    c.only_messages('send', 'transfer')
    c.only_keys('vesting_info', [k])
    c.only_written('vesting_info')
    c.cover('withdraw')


def register_post(c):
    cfg = c.pre('config')
    if c.msg.is_('Receive'):
        m = c.msg.get('0')
        accs = m.msg.json().vesting_accounts.list
        c.ensure('only the owner registers', c.eq(m.sender, cfg.owner))
        c.ensure('only the vesting token is accepted', cfg.vesting_token.is_('Token') and c.eq(c.sender, cfg.vesting_token.contract_addr))
        dep = m.amount.n
        c.cover('cw20')
    else:
        accs = c.msg.vesting_accounts.list
        c.ensure('only the owner registers', c.eq(c.sender, cfg.owner))
        f = c.info.funds.list
        c.ensure('only the vesting token is accepted', cfg.vesting_token.is_('NativeToken') and len(f) == 1 and c.eq(f[0].denom, cfg.vesting_token.denom))
        dep = f[0].amount.n
        c.cover('native')
    tot = 0
    for i, a in enumerate(accs):
        for s in a.schedules:
            tot = tot + total(s)
            e = s.end_point.some
            if e is not None:
                c.ensure('schedules run forward and end in the future',
                         And(T.lt(s.start_point.time.n, e.time.n), T.lt(c.now, e.time.n), T.lt(s.start_point.amount.n, e.amount.n)))
    c.ensure('the deposit is exactly the total of the schedules', T.eq(tot, dep))
    keys = [a.address for a in accs]
    c.only_keys('vesting_info', keys)
    c.only_written('vesting_info')
    c.ensure('nothing is paid out', not c.effects())
    # accounts named once: the new schedules come in addition to the old ones
    if len(accs) == 1 or (len(accs) == 2 and not c.same(keys[0], keys[1])):
        for a in accs:
            vi, vo = c.pre('vesting_info', a.address), c.post('vesting_info', a.address)
            old = [] if vi is None else vi.schedules.list
            c.ensure('claims are kept', T.eq(vo.released_amount.n, 0 if vi is None else vi.released_amount.n))
            new = a.schedules.list
            got = vo.schedules.list
            c.ensure('old and new schedules are all kept', len(got) == len(old) + len(new))
            for x in new + old:
                c.ensure('every schedule is kept unchanged', Or(*[c.eq(x, y) for y in got]))
            # same total entitlement, whatever the order
            c.ensure('the entitlement grows by the deposit', T.eq(sum_([total(x) for x in got]), sum_([total(x) for x in old + new])))
        c.cover('fresh account')
    elif len(accs) == 2:
        vi, vo = c.pre('vesting_info', keys[0]), c.post('vesting_info', keys[0])
        old = [] if vi is None else vi.schedules.list
        c.ensure('the entitlement grows by the deposit (account named twice)',
                 T.eq(sum_([total(x) for x in vo.schedules.list]), sum_([total(x) for x in old]) + dep))


def avail_post(c):
    vi = c.pre('vesting_info', c.msg.address)
    free = 0
    for s in vi.schedules:
        free = free + unlocked(c, s, c.now)
    c.ensure('the query reports what a claim would pay', T.eq(c.ret.json().n, free - vi.released_amount.n))
    c.cover('query')


def vest_lens(c):
    c.ex.lens['schedules'] = (0, 1, 2, 3) if c.run.tier == 'thorough' else (0, 1, 2)
    c.ex.lens['vesting_accounts'] = (0, 1, 2)


def reg_lens(c):
    c.ex.lens['vesting_info'] = (0, 1, 2)
    c.ex.lens['schedules'] = (1, 2)
    c.ex.lens['vesting_accounts'] = (1, 2)


p.add(Scenario('claim', CR, EX, claim_post, setup=vest_lens, fixed={'msg': 'Claim'}, covers=['claim']),
      Scenario('withdraw', CR, EX, withdraw_post, setup=vest_lens, fixed={'msg': 'WithdrawFromActiveSchedule'}, covers=['withdraw']),
      Scenario('register native', CR, EX, register_post, setup=reg_lens, fixed={'msg': 'RegisterVestingAccounts'}, covers=['native', 'fresh account']),
      Scenario('register cw20', CR, EX, register_post, setup=reg_lens, fixed={'msg': 'Receive'}, covers=['cw20', 'fresh account']),
      Scenario('available', CR, 'contract::query', avail_post, setup=vest_lens, fixed={'msg': 'AvailableAmount'}, covers=['query']))

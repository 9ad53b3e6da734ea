"""Incentives: contracts/tokenomics/incentives"""
from vc import *
from registry import prop
from common import *

CR = 'astroport_incentives'
EX = 'execute::execute'
E18 = 10 ** 18
WEEK = 604800
U128 = 'cosmwasm_std::math::uint128::Uint128'
p = prop('C26')


class R:
    """what a reward of a pool becomes when it is brought up to date"""
    def __init__(s, **k): s.__dict__.update(k)


def kind(v):
    """(external?, asset info, end of the current schedule)"""
    if v.is_('Int'):
        return False, v.get('0'), None
    return True, v.info, v.next_update_ts.n


def text(info):
    return info.denom.s if info.is_('NativeToken') else info.contract_addr.s


def same_info(c, a, b):
    return False if a.variant != b.variant else c.eq(text(a), text(b))


def settle_pool(c, lp, pool, uid='s'):
    """each reward of a pool up to now: schedules one after the other, each for its own time"""
    now, last, total = c.now, pool.last_update_ts.n, pool.total_lp.n
    out = []
    still = c.holds(T.eq(now, last))
    for i, r in enumerate(pool.rewards.list):
        ext, info, end = kind(r.reward)
        x = R(ext=ext, info=info, v=r, end=end, rps=r.rps.n, done=False, index=r.index.n, orphaned=r.orphaned.n)
        out.append(x)
        if still:
            continue
        got = 0
        if not ext or c.holds(T.lt(now, end)):
            got = x.rps * (now - last)
        else:
            got = x.rps * (end - last)
            at = end
            x.done = True
            for (k,), e in c.scan('reward_schedules', (text_key(lp), text(info)), lo=(False, end), uid=f'{uid}{i}'):
                if c.holds(T.lt(now, k)):
                    got = got + e.n * (now - at)
                    x.done, x.rps, x.end = False, e.n, k
                    break
                got = got + e.n * (k - at)
                at = k
        if c.holds(T.eq(total, 0)):
            x.index, x.orphaned = r.index.n, r.orphaned.n + got
        else:
            x.index, x.orphaned = r.index.n + T.fdiv((r.orphaned.n + got), total), 0
    return out


def text_key(lp):
    return lp


def finished(c, lp, since, rs, uid='f'):
    """(asset, index) of the rewards of a pool that ended after a time, in order"""
    l = []
    for k, es in c.scan('fin_rew_inds', (lp,), lo=(False, since), uid=uid):
        l += [(e.get('0'), e.get('1').n) for e in es.list]
    return l + [(x.info, x.index) for x in rs if x.done]


def user_index(c, user, ext, info):
    for e in user.last_rewards_index.list:
        x, i, _ = kind(e.get('0'))
        if x == ext and (not ext or c.holds(same_info(c, i, info))):
            return e.get('1').n
    return None


def rewards_of(c, user, fin, rs):
    """what a position has earned: [(external?, asset, amount)]"""
    out = []
    if user is None:
        return out
    a = user.amount.n
    seen = []
    for info, idx in fin:
        u = None
        if not any(c.holds(same_info(c, info, s)) for s in seen):
            u = user_index(c, user, True, info)
        seen.append(info)
        n = idx if u is None or c.holds(T.lt(idx, u)) else idx - u
        out.append((True, info, T.fdiv(n * a, E18)))
    for x in rs:
        if x.done:
            continue
        u = user_index(c, user, x.ext, x.info)
        if u is not None and x.ext and any(c.holds(same_info(c, x.info, s)) for s in seen):
            u = None
        n = x.index if u is None or c.holds(T.lt(x.index, u)) else x.index - u
        out.append((x.ext, x.info, T.fdiv(n * a, E18)))
    return out


def registered(c, cfg, lp, native):
    """the LP token is the one of a pool that the factory has registered"""
    if native:
        m = c.part(lp, '/', 1)
    else:
        r = c.smart(lp, 'Minter')
        if r is None or r.answer is None:
            return False
        m = r.answer.minter
    q = c.smart(m, 'Pair')
    if q is None or q.answer is None:
        return False
    def about(r):
        try:
            return c.eq(r.msg.json('astroport::factory::QueryMsg').asset_infos, q.answer.asset_infos)
        except (SpecError, Unsupported):
            return False
    f = c.smart(cfg.factory, 'Pair', about)
    return f is not None and f.answer is not None and c.eq(f.answer.liquidity_token, lp)


def check_pool(c, lp, rs, now, pool1, tag=''):
    """the stored pool after it was brought up to date"""
    left = [x for x in rs if not x.done]
    l = pool1.rewards.list
    c.ensure(tag + 'exactly the finished rewards are removed', len(l) == len(left))
    if len(l) != len(left):
        return
    for x, y in zip(left, l):
        ext, info, end = kind(y.reward)
        c.ensure(tag + 'rewards keep their asset', ext == x.ext and same_info(c, info, x.info))
        if ext and x.ext:
            c.ensure(tag + 'the schedule of now is the current one', And(T.eq(end, x.end), T.lt(now, end)))
        c.ensure(tag + 'the rate is that of the current schedule', T.eq(y.rps.n, x.rps))
        c.ensure(tag + 'the index grows by the rewards per LP token', T.eq(y.index.n, x.index))
        c.ensure(tag + 'rewards nobody earned are kept aside', T.eq(y.orphaned.n, x.orphaned))
    c.ensure(tag + 'the pool is up to date', T.eq(pool1.last_update_ts.n, now))


def set_aside(c, fin):
    """what nobody earned of rewards that ended is kept aside"""
    for x in fin:
        k = okey(c, x.info)
        o0, o1 = c.pre('orphaned_rewards', k, U128), c.post('orphaned_rewards', k, U128)
        a0, a1 = 0 if o0 is None else o0.n, 0 if o1 is None else o1.n
        c.ensure('what nobody earned is set aside', T.eq(a1, a0 + sum_([T.ite(same_info(c, x.info, y.info), T.fdiv(y.orphaned, E18), 0) for y in fin])))


def check_finished(c, lp, rs, now, aside=True):
    """indexes of rewards that ended are kept for those who earned them; what nobody earned is set aside"""
    fin = [x for x in rs if x.done]
    if aside:
        set_aside(c, fin)
    for x in fin:
        if c.holds(T.eq(x.orphaned, 0)):
            l = c.post('fin_rew_inds', (lp, now))
            c.ensure('the index of an ended reward is kept', l is not None and
                     Or(*[And(same_info(c, e.get('0'), x.info), T.eq(e.get('1').n, x.index)) for e in l.list]))
    old = c.pre('fin_rew_inds', (lp, now)) if fin else None
    if old is not None and fin:
        new = c.post('fin_rew_inds', (lp, now))
        for e in old.list:
            c.ensure('indexes of rewards that ended before are kept', new is not None and Or(*[c.eq(e, y) for y in new.list]))


def okey(c, info):
    return c.concat('\x00' if info.is_('NativeToken') else '\x01', text(info))


def base(c):
    cfg = c.pre('config')
    return cfg


def setup(assets=None, lens={}, epochs=False, still=False):
    def f(c):
        big = c.run.tier == 'thorough'
        d = {'asset_infos': ('always', 2), 'rewards_to_remove': ('always', 0), 'range:fin_rew_inds': ('exact', 0), 'range:reward_schedules': ('exact', 0),
             'fin_rew_inds': ('exact', 0, 1), '.rewards': ('exact', 0, 1), 'last_rewards_index': ('exact', 0, 1)}
        d.update(lens)
        for k, v in d.items():
            c.ex.lens[k] = v
        c.ex.queries_succeed = True
        if assets and not big:
            c.ex.variants_policy['astroport::asset::AssetInfo'] = (assets,)

        def pool(v):
            l = v.rewards.list
            x = [T.eq(v.last_update_ts.n, v.c.now) if still else T.le(v.last_update_ts.n, v.c.now)]
            for i, r in enumerate(l):
                e, info, end = kind(r.reward)
                if e:
                    x.append(T.lt(v.last_update_ts.n, end))
                    if epochs:
                        x.append(aligned(end))
                for s in l[:i]:
                    e2, info2, _ = kind(s.reward)
                    x.append(e != e2 or (e and Not(same_info(v.c, info, info2))))
            return And(*x)
        c.assume_initial('pools', pool)
    return f


def position(c, lp, user, op, amount, uid='', ended=None):
    """one position is brought up to date; what it has earned is returned"""
    now = c.now
    pool, u0 = c.pre('pools', lp), c.pre('user_info', (lp, user))
    rs = [] if pool is None else settle_pool(c, lp, pool, uid='s' + uid)
    fin = [] if u0 is None else finished(c, lp, u0.last_claim_time.n, rs, uid='f' + uid)
    due = rewards_of(c, u0, fin, rs)
    p1, u1 = c.post('pools', lp), c.post('user_info', (lp, user))
    c.ensure('the pool is stored', p1 is not None)
    d = {'add': amount, 'sub': -amount, None: 0}[op]
    t0, a0 = 0 if pool is None else pool.total_lp.n, 0 if u0 is None else u0.amount.n
    c.ensure('the total changes by exactly the amount', T.eq(p1.total_lp.n, t0 + d))
    check_pool(c, lp, rs, now, p1)
    check_finished(c, lp, rs, now, aside=ended is None)
    if ended is not None:
        ended += [x for x in rs if x.done]
    if rs:
        c.cover('ended' if any(x.done for x in rs) else 'running')
    if fin and any(not c.same(text(i), text(x.info)) for i, _ in fin for x in rs):
        c.cover('ended before')
    if op == 'sub' and c.holds(T.eq(a0, amount)):
        c.ensure('an empty position is removed', u1 is None)
        c.cover('emptied')
    else:
        c.ensure('the position is stored', u1 is not None)
        if u1 is not None:
            c.ensure('the position changes by exactly the amount', T.eq(u1.amount.n, a0 + d))
            c.ensure('the position has claimed up to now', T.eq(u1.last_claim_time.n, now))
            l, m = u1.last_rewards_index.list, p1.rewards.list
            c.ensure('the position follows the indexes of the pool', len(l) == len(m) and
                     And(*[And(c.eq(x.get('0'), y.reward), T.eq(x.get('1').n, y.index.n)) for x, y in zip(l, m)]))
    if op is not None:
        c.ensure('only own stakes are withdrawn', T.le(0, a0 + d))
    return due


def paid(c, user, due, back=()):
    """everything earned is paid to the user, nothing else (but the LP tokens given back)"""
    cfg = c.pre('config')
    effs = c.effects()
    want = [c.asset_id(i) + (user, n) for e, i, n in due if e] + list(back)
    out = [e for e in effs if e.kind in ('send', 'transfer')]
    c.flows_are('exactly what was earned is paid' + (', and the LP tokens returned' if back else ''), c.payouts(out), want)
    prot = sum_([n for e, i, n in due if not e])
    v = [e for e in effs if e.kind == 'execute']
    c.ensure('ASTRO is claimed at most once', len(v) <= 1)
    for e in v:
        m = e.msg.json('astroport::vesting::ExecuteMsg')
        c.ensure('earned ASTRO is claimed for the position', c.eq(e.contract, cfg.vesting_contract) and not e.funds and m.is_('Claim')
                 and And(m.recipient.some is not None and c.eq(m.recipient.some, user), m.amount.some is not None and T.eq(m.amount.some.n, prot)))
    if not v:
        c.ensure('earned ASTRO is claimed', T.eq(prot, 0))
    c.only_messages('send', 'transfer', 'execute')
    plain = [e for e in out if not e.sub.reply_on.is_('Error')]
    c.ensure('a failing reward transfer does not stop the rest', len(plain) == len(back))
    for e in out:
        if e.sub.reply_on.is_('Error'):
            c.ensure('reward transfers are limited as configured', And(T.eq(e.sub.id.n, 1), c.eq(e.sub.gas_limit, cfg.token_transfer_gas_limit)))
            c.ensure('nothing empty is sent', T.lt(0, e.amount))
    c.only_written('pools', 'user_info', 'fin_rew_inds', 'orphaned_rewards')


def deposit_post(c):
    cfg = c.pre('config')
    if c.msg.is_('Receive'):
        h = c.msg.get('0')
        j = h.msg.json('astroport::incentives::Cw20Msg')
        lp, native, amount, by = c.sender, False, h.amount.n, h.sender.s
        r = j.recipient.some if j.is_('Deposit') else j.get('0')
    else:
        fl = c.info.funds.list
        c.ensure('exactly one coin is sent', len(fl) == 1)
        if len(fl) != 1:
            return
        lp, native, amount, by = fl[0].denom.s, True, fl[0].amount.n, c.sender
        r = c.msg.recipient.some
    user = by if r is None else r.s
    c.ensure('only LP tokens of registered pools are staked', registered(c, cfg, lp, native))
    paid(c, user, position(c, lp, user, 'add', amount))
    c.only_keys('pools', [lp])
    c.only_keys('user_info', [(lp, user)])
    c.cover('for someone else' if r is not None else 'own')


def lp_native(c, lp):
    """texts that are no valid address name a coin"""
    return not c.holds(c.is_addr(lp))


def withdraw_post(c):
    lp, n = c.msg.lp_token.s, c.msg.amount.n
    native = lp_native(c, lp)
    paid(c, c.sender, position(c, lp, c.sender, 'sub', n), [('native' if native else 'cw20', lp, c.sender, n)])
    c.only_keys('pools', [lp])
    c.only_keys('user_info', [(lp, c.sender)])
    c.cover('withdraw')


def claim_post(c):
    l = [x.s for x in c.msg.lp_tokens]
    due, ended = [], []
    for i, lp in enumerate(l):
        for x in l[:i]:
            c.ensure('no pool is named twice', Not(c.eq(lp, x)))
        due += position(c, lp, c.sender, None, 0, uid=str(i), ended=ended)
    set_aside(c, ended)
    paid(c, c.sender, due)
    c.only_keys('pools', l)
    c.only_keys('user_info', [(lp, c.sender) for lp in l])
    c.cover(f'{len(l)}')


FULL = {'range:fin_rew_inds': ('exact', 0, 1), 'range:reward_schedules': ('exact', 0, 1), 'msg.ClaimRewards.lp_tokens': ('exact', 0, 1)}
TWO = {'range:fin_rew_inds': ('exact', 0), 'range:reward_schedules': ('exact', 0), 'msg.ClaimRewards.lp_tokens': ('exact', 2),
       '.rewards': ('exact', 1), 'last_rewards_index': ('exact', 0)}
for tag, a in (('', 'NativeToken'), (', cw20 rewards', 'Token')):
    p.add(Scenario('deposit' + tag, CR, EX, deposit_post, fixed={'msg': 'Deposit'}, covers=['own', 'for someone else', 'ended', 'running', 'ended before'], setup=setup(a, FULL)),
          Scenario('withdraw' + tag, CR, EX, withdraw_post, fixed={'msg': 'Withdraw'}, covers=['withdraw', 'emptied', 'ended', 'running', 'ended before'], setup=setup(a, FULL)),
          Scenario('claim' + tag, CR, EX, claim_post, fixed={'msg': 'ClaimRewards'}, covers=['1', 'ended', 'running', 'ended before'], setup=setup(a, FULL)))
p.add(Scenario('deposit of cw20 LP tokens', CR, EX, deposit_post, fixed={'msg': 'Receive'}, covers=['own', 'for someone else'], setup=setup('NativeToken', FULL)))
p.add(Scenario('claim in two pools', CR, EX, claim_post, fixed={'msg': 'ClaimRewards'}, covers=['2'], setup=setup('NativeToken', TWO)))


def pending_q(c):
    """the query reports what a claim at this moment would pay"""
    lp, user = c.msg.lp_token.s, c.msg.user.s
    pool, u0 = c.pre('pools', lp), c.pre('user_info', (lp, user))
    c.ensure('there is such a position', pool is not None and u0 is not None)
    rs = settle_pool(c, lp, pool)
    due = rewards_of(c, u0, finished(c, lp, u0.last_claim_time.n, rs), rs)
    got = [c.asset_id(x.info) + (user, x.amount.n) for x in c.ret.json().list]
    c.flows_are('a claim would pay what is reported', got, [c.asset_id(i) + (user, n) for e, i, n in due])
    c.cover('ok')


def deposit_q(c):
    u = c.pre('user_info', (c.msg.lp_token.s, c.msg.user.s))
    c.ensure('the stake is reported', T.eq(c.ret.json().n, 0 if u is None else u.amount.n))
    c.cover('none' if u is None else 'some')


def stakers_q(c):
    lim, after = c.msg.limit.some, c.msg.start_after.some
    want = []
    for e in c.scan('user_info', (c.msg.lp_token.s,), lo=None if after is None else (False, after), limit=50):
        if lim is not None and c.holds(T.le(lim.n, len(want))):
            break
        want.append(e)
    got = c.ret.json().list
    c.ensure('one page of stakers is listed', len(got) == len(want))
    c.ensure('stakers and stakes are listed in order', And(*[And(c.eq(x.get('0'), k), T.eq(x.get('1').n, u.amount.n)) for x, ((k,), u) in zip(got, want)]))
    c.cover('ok')


def page_q(c):
    c.ensure('a page has at most 50 entries', len(c.ret.json().list) <= 50)
    c.cover('more')


def stakers_setup(*n):
    return setup('NativeToken', {'range:user_info': ('exact',) + n, '.rewards': ('exact', 0), 'last_rewards_index': ('exact', 0)})


def reply_post(c):
    c.ensure('only failed reward transfers are ignored', And(T.eq(c.msg.id.n, 1), c.msg.result.is_('Err')))
    c.only_messages()
    c.only_written()
    c.cover('ok')


QU = 'query::query'
p.add(Scenario('failed transfer', CR, 'reply::reply', reply_post, covers=['ok']),
      Scenario('pending rewards', CR, QU, pending_q, fixed={'msg': 'PendingRewards'}, covers=['ok'], setup=setup('NativeToken', FULL)),
      Scenario('stake', CR, QU, deposit_q, fixed={'msg': 'Deposit'}, covers=['none', 'some'], setup=setup()),
      Scenario('stakers', CR, QU, stakers_q, fixed={'msg': 'PoolStakers'}, covers=['ok'], setup=stakers_setup(0, 1, 2)),
      Scenario('page of stakers', CR, QU, page_q, fixed={'msg': 'PoolStakers', 'msg.PoolStakers.limit': 'Some', 'msg.PoolStakers.start_after': 'None'}, covers=['more'], setup=stakers_setup(51)))


# -- C27: schedules of external rewards
p = prop('C27', 'stored schedules end at the start of an epoch (every schedule that is added does); a running reward has no stored schedule that ends '
         'after now and before its current one, and a reward that is not running has none that ends after now (kept by every operation, except that '
         'RemoveRewardFromPool with bypass_upcoming_schedules leaves such schedules behind)',
         'block times are between the first epoch and twice that time (2023 to 2077)')
EPOCH0 = 1696809600


def next_epoch(now):
    """weeks count from the first epoch (the remainder is the time since then: block times are less than twice that time)"""
    return EPOCH0 + (T.fdiv(T.fmod(now, EPOCH0), WEEK) + 1) * WEEK


def sched_setup(lens={}, kind='NativeToken'):
    def f(c):
        setup(kind, lens, True)(c)
        c.st.assume(And(T.le(EPOCH0, c.now), T.lt(c.now, 2 * EPOCH0)))
        c.assume_initial('reward_schedules', lambda v, k: aligned(k[2]), bykey=True)
    return f


def aligned(t):
    return And(T.le(EPOCH0, t), T.eq(T.fmod(t - EPOCH0, WEEK), 0))


class Plan:
    """rate of an external reward over time: a current rate up to an end, and stored schedules (end, rate) after it"""
    def __init__(s, rps, end, later): s.rps, s.end, s.later = rps, end, later


def rate(c, plan, t):
    """the rate at a time (from now on)"""
    if plan is None:
        return 0
    if c.holds(T.lt(t, plan.end)):
        return plan.rps
    best = None
    for k, n in plan.later:
        if c.holds(And(T.lt(t, k), T.lt(plan.end, k))) and (best is None or c.holds(T.lt(k, best[0]))):
            best = (k, n)
    return 0 if best is None else best[1]


def upcoming(c, lp, info, uid='up'):
    """stored schedules of a reward that end after now: [(end, rate)]"""
    return [(k, e.n) for (k,), e in c.scan('reward_schedules', (lp, text(info)), lo=(False, c.now), uid=uid)]


def incentivize_post(c):
    cfg, now = c.pre('config'), c.now
    lp, s = c.msg.lp_token.s, c.msg.schedule
    info, amount, periods = s.reward.info, s.reward.amount.n, s.duration_periods.n
    native = lp_native(c, lp)
    c.ensure('a schedule lasts 1 to 25 weeks', And(T.le(1, periods), T.le(periods, 25)))
    end = next_epoch(now) + periods * WEEK
    rps = T.fdiv(amount * E18, end - now)
    c.ensure('at least one unit per second', T.le(E18, rps))
    c.ensure('blocked tokens are no rewards', c.pre('blocked_tokens', okey(c, info)) is None)
    c.ensure('only pools registered in the factory get rewards', registered(c, cfg, lp, native))
    pool, p1 = c.pre('pools', lp), c.post('pools', lp)
    rs = [] if pool is None else settle_pool(c, lp, pool)
    left = [x for x in rs if not x.done]
    cur = [x for x in left if x.ext and c.holds(same_info(c, x.info, info))]
    old = upcoming(c, lp, info)
    # the state before was well formed
    for k, _ in old:
        if not c.holds(T.le(cur[0].end, k) if cur else False):
            return
    before = Plan(cur[0].rps, cur[0].end, old) if cur else None
    check_finished(c, lp, rs, now)
    l = p1.rewards.list
    c.ensure('a reward is added if it is new', len(l) == len(left) + (0 if cur else 1))
    if len(l) != len(left) + (0 if cur else 1):
        return
    mine = None
    for i, y in enumerate(l):
        e, inf, en = kind(y.reward)
        if i < len(left) and not (cur and left[i] is cur[0]):
            x = left[i]
            c.ensure('other rewards go on as before', And(e == x.ext, same_info(c, inf, x.info), True if en is None else T.eq(en, x.end), T.eq(y.rps.n, x.rps)))
        else:
            mine = y
            c.ensure('the reward is the one that was sent', e and same_info(c, inf, info))
            if not e:
                return
        x = left[i] if i < len(left) else R(index=0, orphaned=0)
        c.ensure('what was earned until now is kept', And(T.eq(y.index.n, x.index), T.eq(y.orphaned.n, x.orphaned)))
    c.ensure('stakes do not change', T.eq(p1.total_lp.n, 0 if pool is None else pool.total_lp.n))
    c.ensure('the pool is up to date', T.eq(p1.last_update_ts.n, now))
    ends = [k for k, _ in old] + [end] + ([cur[0].end] if cur else [])
    e1 = mine.reward.next_update_ts.n
    later = []
    for k in ends:
        v = c.post('reward_schedules', (lp, text(info), k))
        if v is not None:
            later.append((k, v.n))
    after = Plan(mine.rps.n, e1, later)
    c.ensure('rates change only where a schedule ends', Or(*[T.eq(e1, k) for k in ends]))
    for t in [now] + ends:
        add = rps if c.holds(T.lt(t, end)) else 0
        c.ensure('the rate grows by exactly the new schedule while it lasts, and by nothing after', T.eq(rate(c, after, t), rate(c, before, t) + add))
    for k, v in later:
        c.ensure('no schedule is left that ends between now and the end of the current one', Or(T.le(k, now), T.le(e1, k)))
    c.only_keys('reward_schedules', [(lp, text(info), k) for k in ends])
    # payment
    fee = cfg.incentivization_fee_info.some
    new = not cur and not c.holds(And(info.variant == cfg.astro_token.variant, c.eq(info, cfg.astro_token)))
    fees = [(fee.fee.denom.s, fee.fee.amount.n)] if fee is not None and new else []
    nat = info.is_('NativeToken')
    want = fees + ([(info.denom.s, amount)] if nat else [])
    for d, _ in want:
        c.ensure('fee and reward come with the message', T.eq(c.sent(d), sum_([T.ite(c.eq(d, d2), a, 0) for d2, a in want])))
    for f in c.info.funds.list:
        c.ensure('nothing else comes with the message', Or(T.eq(f.amount.n, 0), *[c.eq(f.denom, d) for d, _ in want]))
    effs = c.effects()
    c.flows_are('the fee goes to its receiver', c.payouts([e for e in effs if e.kind == 'send']),
                [('native', d, fee.fee_receiver.s, a) for d, a in fees])
    pulls = [e for e in effs if e.kind == 'transfer_from']
    c.ensure('cw20 rewards are taken from the sender', len(pulls) == (0 if nat else 1))
    for e in pulls:
        c.ensure('exactly the reward is taken', And(c.eq(e.token, info.contract_addr), c.eq(e.owner, c.sender), c.eq(e.to, c.self_addr), T.eq(e.amount, amount)))
    c.only_messages('send', 'transfer_from')
    c.only_keys('pools', [lp])
    c.only_written('pools', 'reward_schedules', 'fin_rew_inds', 'orphaned_rewards')
    c.cover('extended' if cur else 'new')
    if fees:
        c.cover('fee')
    if old:
        c.cover('upcoming')


PAY = {'range:reward_schedules': ('exact', 0), '.rewards': ('exact', 0, 1)}
SCHED = {'range:reward_schedules': ('exact', 0, 1, 2), '.rewards': ('exact', 0, 1)}
p.add(Scenario('incentivize', CR, EX, incentivize_post, fixed={'msg': 'Incentivize'}, covers=['new', 'extended', 'fee'], setup=sched_setup(PAY)),
      Scenario('incentivize, stored schedules', CR, EX, incentivize_post, fixed={'msg': 'Incentivize'}, funds=(0,), covers=['extended', 'upcoming'], setup=sched_setup(SCHED, 'Token')))


def limit_post(c):
    """a pool with five external rewards"""
    info, astro = c.msg.schedule.reward.info, c.pre('config').astro_token
    pool = c.pre('pools', c.msg.lp_token.s)
    if pool is None:
        return
    l = pool.rewards.list
    c.ensure('at most five external rewards (but for ASTRO)', Or(same_info(c, info, astro), *[same_info(c, kind(r.reward)[1], info) for r in l]))
    c.cover('astro' if c.holds(same_info(c, info, astro)) else 'again')


def limit_setup(c):
    c.ex.variants_policy['astroport::incentives::RewardType'] = ('Ext',)
    setup('NativeToken', {'.rewards': ('exact', 5), 'range:reward_schedules': ('exact', 0)}, still=True)(c)
    c.st.assume(And(T.le(EPOCH0, c.now), T.lt(c.now, 2 * EPOCH0)))


p.add(Scenario('incentivize, five rewards', CR, EX, limit_post, fixed={'msg': 'Incentivize'}, funds=(1,), covers=['astro', 'again'], setup=limit_setup))


def remove_post(c):
    cfg, now = c.pre('config'), c.now
    lp, info_text, bypass = c.msg.lp_token.s, c.msg.reward.s, c.msg.bypass_upcoming_schedules.b
    c.ensure('only the owner removes rewards', c.eq(c.sender, cfg.owner))
    nat = lp_native(c, info_text)
    pool, p1 = c.pre('pools', lp), c.post('pools', lp)
    rs = settle_pool(c, lp, pool)
    cur = [x for x in rs if x.ext and not x.done and x.info.is_('NativeToken') == nat and c.holds(c.eq(text(x.info), info_text))]
    c.ensure('only a running reward is removed', len(cur) == 1)
    if len(cur) != 1:
        return
    cur = cur[0]
    if c.holds(bypass):
        old = []
        c.cover('upcoming schedules kept')
    else:
        old = upcoming(c, lp, cur.info)
    for k, _ in old:
        if not c.holds(T.le(cur.end, k)):
            return
    left, at = cur.rps * (cur.end - now) + cur.orphaned, cur.end
    for k, n in old:
        if c.holds(T.eq(k, cur.end)):
            continue
        left, at = left + n * (k - at), k
    left = T.fdiv(left, E18)
    effs = c.effects()
    c.flows_are('exactly what is not yet distributed goes to the receiver', c.payouts(effs),
                [('native' if nat else 'cw20', info_text, c.msg.receiver.s, left)])
    c.only_messages('send', 'transfer')
    for e in effs:
        c.ensure('a failing transfer does not stop the removal', e.sub.reply_on.is_('Error') and And(T.eq(e.sub.id.n, 1), c.eq(e.sub.gas_limit, cfg.token_transfer_gas_limit)))
    for k, _ in old:
        c.ensure('upcoming schedules are removed', c.post('reward_schedules', (lp, text(cur.info), k)) is None)
    if not bypass_is(c, bypass):
        c.only_keys('reward_schedules', [(lp, text(cur.info), k) for k in [cur.end] + [k for k, _ in old]])
    else:
        c.only_keys('reward_schedules', [(lp, text(cur.info), cur.end)])
    check_pool(c, lp, [x for x in rs if x is not cur], now, p1)
    c.ensure('stakes do not change', T.eq(p1.total_lp.n, pool.total_lp.n))
    check_finished(c, lp, rs, now)
    k = okey(c, cur.info)
    o0, o1 = c.pre('orphaned_rewards', k, U128), c.post('orphaned_rewards', k, U128)
    c.ensure('what is paid out is not set aside as well', T.eq(0 if o0 is None else o0.n, 0 if o1 is None else o1.n))
    l = c.post('fin_rew_inds', (lp, now))
    c.ensure('what was earned can still be claimed', l is not None and
             Or(*[And(same_info(c, e.get('0'), cur.info), T.eq(e.get('1').n, cur.index)) for e in l.list]))
    c.only_keys('pools', [lp])
    c.only_written('pools', 'reward_schedules', 'fin_rew_inds', 'orphaned_rewards')
    c.cover('upcoming' if old else 'removed')


def bypass_is(c, b):
    return c.holds(b)


p.add(Scenario('remove', CR, EX, remove_post, fixed={'msg': 'RemoveRewardFromPool'}, covers=['removed', 'upcoming', 'upcoming schedules kept'],
               setup=sched_setup({'range:reward_schedules': ('exact', 0, 1, 2), '.rewards': ('exact', 0, 1)})))


def claim_orphaned_post(c):
    cfg = c.pre('config')
    c.ensure('only the owner claims', c.eq(c.sender, cfg.owner))
    lim = c.msg.limit.some
    n = 10 if lim is None else T.imin(lim.n, 10)
    l = c.scan('orphaned_rewards')
    effs = c.effects()
    out, i = [], 0
    c.ensure('there is something to claim', len(l) > 0 and T.le(1, n))
    for (k,), e in l:
        v = c.post('orphaned_rewards', k)
        native, name = asset_of_key(c, k)
        if c.holds(And(T.lt(i, n), Not(T.eq(e.n, 0)))):
            out.append(('native' if native else 'cw20', name, c.msg.receiver.s, e.n))
            c.ensure('what is paid is no longer set aside', v is None)
        else:
            c.ensure('the rest stays set aside', v is not None and T.eq(v.n, e.n))
        i += 1
    c.flows_are('exactly the rewards nobody earned go to the receiver', c.payouts(effs), out)
    for e in effs:
        c.ensure('a failing transfer does not stop the rest', e.sub.reply_on.is_('Error') and And(T.eq(e.sub.id.n, 1), c.eq(e.sub.gas_limit, cfg.token_transfer_gas_limit)))
    c.only_messages('send', 'transfer')
    c.only_written('orphaned_rewards')
    c.cover(f'{len(out)}')


def asset_of_key(c, k):
    """keys: 0 and the denom of a coin, or 1 and the address of a cw20 token"""
    for native, head in ((True, '\x00'), (False, '\x01')):
        r = c.after(k, head)
        if r is not None:
            return native, r
    raise SpecError('key of an asset')


def orphan_setup(c):
    setup('NativeToken', {'range:orphaned_rewards': ('exact', 0, 1, 2)})(c)
    c.ex.key_heads['orphaned_rewards'] = ('\x00', '\x01')


p.add(Scenario('claim orphaned', CR, EX, claim_orphaned_post, fixed={'msg': 'ClaimOrphanedRewards'}, covers=['1', '2'], setup=orphan_setup))


def many_setup(c):
    """more entries than are paid at once"""
    orphan_setup(c)
    c.ex.lens['range:orphaned_rewards'] = ('exact', 11)
    c.ex.key_heads['orphaned_rewards'] = ('\x00',)
    c.assume_initial('orphaned_rewards', lambda v: T.lt(0, v.n))


p.add(Scenario('claim orphaned, many', CR, EX, claim_orphaned_post, fixed={'msg': 'ClaimOrphanedRewards'}, covers=['10', '1'], setup=many_setup))


# -- C28: ASTRO emissions
p = prop('C28', 'the stored total of allocation points is that of the active pools, which are distinct (kept by every operation), and a pool has at most one ASTRO reward')


def astro_setup(lens={}, kind='NativeToken', rewards=None):
    def f(c):
        if rewards:
            c.ex.variants_policy['astroport::incentives::RewardType'] = (rewards,)
        d = {'.rewards': ('exact', 0, 1), 'range:reward_schedules': ('exact', 0), 'active_pools': ('exact', 0, 1, 2), 'q:Q4<0<$,json:4<>>>': ('exact', 0, 1)}
        d.update(lens)
        setup(kind, d)(c)
    return f


def actives(c, v):
    """[(LP token, allocation points)] of the active pools"""
    return [(text(e.get('0')), e.get('1').n) for e in v.list] if v is not None else []


def well_formed(c):
    """the state before the call: total, kinds and distinct active pools"""
    v = c.pre('active_pools')
    l = actives(c, v)
    for i, (x, _) in enumerate(l):
        # LP tokens are recorded as coins exactly when their name is no address (determine_asset_info)
        if c.holds(v.list[i].get('0').is_('NativeToken')) != lp_native(c, x) or any(c.holds(c.eq(x, y)) for y, _ in l[:i]):
            return False
    return c.holds(T.eq(c.pre('config').total_alloc_points.n, sum_([n for _, n in l])))


def member(c, lp, l):
    for x, n in l:
        if c.holds(c.eq(lp, x)):
            return True
    return False


def emissions(c, per_second, new, old, total, touched=()):
    """ASTRO is split over the new active pools by their allocation points; pools that were active get none"""
    now, cfg = c.now, c.pre('config')
    done = []
    todo = [(lp, n) for lp, n in new] + [(lp, 0) for lp, _ in old if not member(c, lp, new)]
    for i, (lp, n) in enumerate(todo):
        pool, p1 = c.pre('pools', lp), c.post('pools', lp)
        rs = [] if pool is None else settle_pool(c, lp, pool, uid=f's{i}')
        left = [x for x in rs if not x.done]
        rps = T.fdiv(per_second * n * E18, total) if i < len(new) else 0
        c.ensure('the pool is stored', p1 is not None)
        if p1 is None:
            continue
        had = any(not x.ext for x in left)
        l = p1.rewards.list
        c.ensure('an active pool has an ASTRO reward', len(l) == len(left) + (0 if had or i >= len(new) else 1))
        c.ensure('the pool is up to date', T.eq(p1.last_update_ts.n, now))
        c.ensure('stakes do not change', T.eq(p1.total_lp.n, 0 if pool is None else pool.total_lp.n))
        for j, y in enumerate(l):
            ext, info, end = kind(y.reward)
            if j < len(left):
                x = left[j]
                c.ensure('what was earned until now is kept', And(ext == x.ext, T.eq(y.index.n, x.index), T.eq(y.orphaned.n, x.orphaned), same_info(c, info, x.info)))
                if ext and x.ext:
                    c.ensure('external rewards go on', And(T.eq(y.rps.n, x.rps), T.eq(end, x.end)))
            else:
                c.ensure('a new ASTRO reward starts now', And(not ext, T.eq(y.index.n, 0), T.eq(y.orphaned.n, 0), info.variant == cfg.astro_token.variant and c.eq(info, cfg.astro_token)))
            if not ext:
                c.ensure('ASTRO is split by allocation points' if i < len(new) else 'pools that are not active get no ASTRO', T.eq(y.rps.n, rps))
        check_finished(c, lp, rs, now, False)
        done += [x for x in rs if x.done]
    set_aside(c, done)
    c.only_keys('pools', [lp for lp, _ in todo])


def config_is(c, **k):
    a, b = c.pre('config'), c.post('config')
    c.ensure('the rest of the configuration is untouched', a.same_but(b, *k))
    for n, v in k.items():
        c.ensure('the total of allocation points is that of the active pools' if n == 'total_alloc_points' else n + ' is as asked', T.eq(b.get(n).n, v))


def active_is(c, want):
    got = actives(c, c.post('active_pools'))
    c.ensure('the active pools are as expected', len(got) == len(want) and And(*[Or(*[And(c.eq(x, y), T.eq(n, m)) for y, m in got]) for x, n in want]))


def pair_of(c, lp, native):
    r = c.smart(c.part(lp, '/', 1) if native else c.smart(lp, 'Minter').answer.minter, 'Pair')
    return None if r is None else r.answer


def blocked(c, info):
    return c.pre('blocked_tokens', okey(c, info)) is not None


def setup_allowed(c):
    cfg = c.pre('config')
    g = cfg.generator_controller.some
    c.ensure('only the owner or the controller sets pools up', Or(c.eq(c.sender, cfg.owner), g is not None and c.eq(c.sender, g)))
    l = [(e.get('0').s, e.get('1').n) for e in c.msg.pools.list]
    black = c.smart(cfg.factory, 'BlacklistedPairTypes').answer.list
    for i, (lp, n) in enumerate(l):
        c.ensure('allocation points are positive', T.lt(0, n))
        for x, _ in l[:i]:
            c.ensure('no pool is named twice', Not(c.eq(lp, x)))
        nat = lp_native(c, lp)
        c.ensure('only pools registered in the factory are active', registered(c, cfg, lp, nat))
        q = pair_of(c, lp, nat)
        for a in q.asset_infos:
            c.ensure('pools of blocked tokens are not active', not blocked(c, a))
        for b in black:
            c.ensure('pools of blacklisted types are not active', Not(c.eq(b, q.pair_type)))


def setup_post(c):
    cfg = c.pre('config')
    if not well_formed(c):
        return
    l = [(e.get('0').s, e.get('1').n) for e in c.msg.pools.list]
    total = sum_([n for _, n in l])
    emissions(c, cfg.astro_per_second.n, l, actives(c, c.pre('active_pools')), total)
    config_is(c, total_alloc_points=total)
    active_is(c, l)
    c.only_messages()
    c.only_written('pools', 'config', 'active_pools', 'fin_rew_inds', 'orphaned_rewards')
    c.cover(f'{len(l)}')


def per_second_post(c):
    cfg = c.pre('config')
    c.ensure('only the owner sets the emission', c.eq(c.sender, cfg.owner))
    if not well_formed(c):
        return
    l = actives(c, c.pre('active_pools'))
    emissions(c, c.msg.amount.n, l, [], cfg.total_alloc_points.n)
    config_is(c, astro_per_second=c.msg.amount.n)
    c.only_messages()
    c.only_written('pools', 'config', 'fin_rew_inds', 'orphaned_rewards')
    c.cover(f'{len(l)}')


def deactivate_post(c):
    cfg = c.pre('config')
    c.ensure('only the factory deactivates a pool', c.eq(c.sender, cfg.factory))
    if not well_formed(c):
        return
    old = actives(c, c.pre('active_pools'))
    lp = c.msg.lp_token.s
    new = [(x, n) for x, n in old if not c.holds(c.eq(x, lp))]
    c.only_messages()
    active_is(c, new)
    if len(new) == len(old):
        c.only_written()
        c.cover('not active')
        return
    total = sum_([n for _, n in new])
    emissions(c, cfg.astro_per_second.n, new, old, total)
    config_is(c, total_alloc_points=total)
    c.only_written('pools', 'config', 'active_pools', 'fin_rew_inds', 'orphaned_rewards')
    c.cover('deactivated')


def deactivate_blocked_post(c):
    cfg = c.pre('config')
    if not well_formed(c):
        return
    old = actives(c, c.pre('active_pools'))
    black = c.smart(cfg.factory, 'BlacklistedPairTypes').answer.list
    new = []
    for e in c.pre('active_pools').list:
        a = e.get('0')
        q = pair_of(c, text(a), a.is_('NativeToken'))
        if not any(c.holds(c.eq(b, q.pair_type)) for b in black):
            new.append((text(a), e.get('1').n))
    c.only_messages()
    active_is(c, new)
    if len(new) == len(old):
        c.only_written()
        c.cover('nothing to do')
        return
    total = sum_([n for _, n in new])
    emissions(c, cfg.astro_per_second.n, new, old, total)
    config_is(c, total_alloc_points=total)
    c.only_written('pools', 'config', 'active_pools', 'fin_rew_inds', 'orphaned_rewards')
    c.cover('deactivated')


def blocklist_allowed(c):
    cfg = c.pre('config')
    g = cfg.guardian.some
    c.ensure('only the owner or the guardian blocks tokens', Or(c.eq(c.sender, cfg.owner), g is not None and c.eq(c.sender, g)))
    rem, add = c.msg.remove.list, c.msg.add.list
    for i, x in enumerate(rem + add):
        c.ensure('no token is named twice', And(*[Not(same_info(c, x, y)) for y in (rem + add)[:i]]))
    for x in rem:
        c.ensure('only blocked tokens are unblocked', blocked(c, x))
    for x in add:
        c.ensure('only tokens not yet blocked are blocked', not blocked(c, x))
        c.ensure('ASTRO is never blocked', Not(same_info(c, x, cfg.astro_token)))


def blocklist_post(c):
    cfg = c.pre('config')
    rem, add = c.msg.remove.list, c.msg.add.list
    for x in rem:
        c.ensure('the token is no longer blocked', c.post('blocked_tokens', okey(c, x)) is None)
    for x in add:
        c.ensure('the token is blocked', c.post('blocked_tokens', okey(c, x)) is not None)
    c.only_keys('blocked_tokens', [okey(c, x) for x in rem + add])
    c.only_messages()
    if not add:
        config_is(c)
        c.only_written('blocked_tokens', 'config')
        c.cover('unblocked')
        return
    if not well_formed(c):
        return
    old, new = actives(c, c.pre('active_pools')), []
    for e in c.pre('active_pools').list:
        a = e.get('0')
        q = pair_of(c, text(a), a.is_('NativeToken'))
        if not any(c.holds(same_info(c, x, y)) for x in q.asset_infos for y in add):
            new.append((text(a), e.get('1').n))
    active_is(c, new)
    if len(new) == len(old):
        config_is(c)
        c.only_written('blocked_tokens', 'config')
        c.cover('nothing to do')
        return
    total = sum_([n for _, n in new])
    emissions(c, cfg.astro_per_second.n, new, old, total)
    config_is(c, total_alloc_points=total)
    c.only_written('blocked_tokens', 'pools', 'config', 'active_pools', 'fin_rew_inds', 'orphaned_rewards')
    c.cover('deactivated')


def config_post(c):
    """every field is replaced as asked, and the ASTRO reward of every active pool follows the token"""
    a, b, m = c.pre('config'), c.post('config'), c.msg
    c.ensure('only the owner updates the configuration', c.eq(c.sender, a.owner))
    touched = []
    for f in ('astro_token', 'vesting_contract', 'generator_controller', 'guardian', 'incentivization_fee_info', 'token_transfer_gas_limit'):
        v = m.get(f).some
        if v is None:
            continue
        touched.append(f)
        w = b.get(f)
        if f not in ('astro_token', 'vesting_contract'):
            w = w.some
        c.ensure(f + ' is as asked', w is not None and c.eq(w, v))
        if f in ('vesting_contract', 'generator_controller', 'guardian'):
            c.ensure(f + ' is an address', c.is_addr(v.s))
        if f == 'incentivization_fee_info':
            c.ensure('the receiver of fees is an address', c.is_addr(v.fee_receiver.s))
        if f == 'token_transfer_gas_limit':
            c.ensure('the gas limit is within its bounds', And(T.le(400_000, v.n), T.le(v.n, 1_500_000)))
    c.ensure('nothing else of the configuration changes', a.same_but(b, *touched))
    c.only_messages()
    if 'astro_token' not in touched:
        c.only_written('config')
        c.cover('no new token')
        return
    act = actives(c, c.pre('active_pools'))
    for i, (x, _) in enumerate(act):
        if any(c.holds(c.eq(x, y)) for y, _ in act[:i]):
            return
    for x, _ in act:
        p0, p1 = c.pre('pools', x), c.post('pools', x)
        c.ensure('the pool is stored', p1 is not None)
        if p0 is None or p1 is None:
            continue
        c.ensure('the rest of the pool does not change', p0.same_but(p1, 'rewards', 'rewards_to_remove'))
        l0, l1 = p0.rewards.list, p1.rewards.list
        c.ensure('no reward is added or lost', len(l0) == len(l1))
        for r, q in zip(l0, l1):
            e0, i0, end0 = kind(r.reward)
            e1, i1, end1 = kind(q.reward)
            c.ensure('what was earned and the emission stay', r.same_but(q, 'reward'))
            c.ensure('the ASTRO reward is paid in the new token', e0 == e1 and (same_info(c, i1, m.astro_token.some) if not e0 else And(same_info(c, i0, i1), T.eq(end0, end1))))
    c.only_keys('pools', [x for x, _ in act])
    c.only_written('config', 'pools')
    c.cover('new token')


def init_post(c):
    m, b = c.msg, c.post('config')
    c.ensure('owner, factory, vesting, token and fee are as asked', And(c.eq(b.owner, m.owner), c.eq(b.factory, m.factory), c.eq(b.vesting_contract, m.vesting_contract),
                                                                       same_info(c, b.astro_token, m.astro_token)))
    for f in ('guardian', 'incentivization_fee_info'):
        v, w = m.get(f).some, b.get(f).some
        c.ensure(f + ' is as asked', (v is None) == (w is None) and (v is None or c.eq(v, w)))
    c.ensure('addresses are valid', And(c.is_addr(m.owner.s), c.is_addr(m.factory.s), c.is_addr(m.vesting_contract.s)))
    c.ensure('nothing is emitted at first', And(T.eq(b.astro_per_second.n, 0), T.eq(b.total_alloc_points.n, 0)))
    c.ensure('no pool is active at first', len(c.post('active_pools').list) == 0)
    c.ensure('no controller and no gas limit at first', b.generator_controller.some is None and b.token_transfer_gas_limit.some is None)
    c.only_messages()
    c.cover('instantiated')


ONE = {'msg.SetupPools.pools': ('exact', 0, 1), 'active_pools': ('exact', 0, 1)}
TWOP = {'msg.SetupPools.pools': ('exact', 2), '.rewards': ('exact', 0), 'active_pools': ('exact', 0), 'q:Q4<0<$,json:4<>>>': ('exact', 0)}
p.add(Scenario('setup pools', CR, EX, [setup_allowed, setup_post], fixed={'msg': 'SetupPools'}, covers=['0', '1'], setup=astro_setup(ONE)),
      Scenario('setup two pools', CR, EX, [setup_allowed, setup_post], fixed={'msg': 'SetupPools'}, covers=['2'], setup=astro_setup(TWOP, rewards='Int')),
      Scenario('tokens per second', CR, EX, per_second_post, fixed={'msg': 'SetTokensPerSecond'}, covers=['0', '1', '2'], setup=astro_setup()),
      Scenario('block tokens', CR, EX, [blocklist_allowed, blocklist_post], fixed={'msg': 'UpdateBlockedTokenslist'}, covers=['unblocked', 'nothing to do', 'deactivated'],
               setup=astro_setup({'.add': ('exact', 0, 1), '.remove': ('exact', 0, 1)}, rewards='Int')),
      Scenario('block two tokens', CR, EX, [blocklist_allowed, blocklist_post], fixed={'msg': 'UpdateBlockedTokenslist'}, covers=['nothing to do', 'deactivated'],
               setup=astro_setup({'.add': ('exact', 2), '.remove': ('exact', 0), 'active_pools': ('exact', 1, 2), '.rewards': ('exact', 0)}, rewards='Int')),
      Scenario('update config', CR, EX, config_post, fixed={'msg': 'UpdateConfig'}, covers=['no new token', 'new token'], setup=astro_setup({'.rewards': ('exact', 1, 2), 'active_pools': ('exact', 0, 1)})),
      Scenario('instantiate', CR, 'instantiate::instantiate', init_post, covers=['instantiated']),
      Scenario('deactivate', CR, EX, deactivate_post, fixed={'msg': 'DeactivatePool'}, covers=['not active', 'deactivated'], setup=astro_setup()),
      Scenario('deactivate blocked', CR, EX, deactivate_blocked_post, fixed={'msg': 'DeactivateBlockedPools'}, covers=['nothing to do', 'deactivated'], setup=astro_setup(rewards='Int')),
      Scenario('deactivate a blocked pool', CR, EX, deactivate_blocked_post, fixed={'msg': 'DeactivateBlockedPools'}, covers=['nothing to do', 'deactivated'], setup=astro_setup({'active_pools': ('exact', 1)})))

"""Router: contracts/router"""
from vc import *
from registry import prop
from common import *

CR = 'astroport_router'
EX, QU = 'contract::execute', 'contract::query'
p = prop('C22')
PQ = 'astroport::pair::QueryMsg'


def route(c, ops):
    """a route: 1 to 50 pool swaps, each between two different assets, each offering what the one before asked for"""
    c.ensure('a route has at least one swap', len(ops) > 0)
    c.ensure('a route has at most 50 swaps', len(ops) <= 50)
    last = None
    for o in ops:
        c.ensure('only pool swaps are accepted', o.is_('AstroSwap'))
        if not o.is_('AstroSwap'):
            return False
        c.ensure('a swap is between two different assets', Not(c.eq(o.offer_asset_info, o.ask_asset_info)))
        if last is not None:
            c.ensure('each swap offers what the one before asked for', c.eq(last, o.offer_asset_info))
        last = o.ask_asset_info
    return len(ops) > 0


def start_post(c):
    m = c.msg
    who = c.sender
    if m.is_('Receive'):
        r = m.get('0')
        who = r.sender.s
        m = r.msg.json('astroport::router::Cw20HookMsg')
    ops = m.operations.list
    if not route(c, ops):
        return
    t = m.to.some
    to = who if t is None else t.s
    e = c.effects()
    c.ensure('one message for each swap', len(e) == len(ops))
    if len(e) != len(ops):
        return
    for i, (x, o) in enumerate(zip(e, ops)):
        c.ensure('the router calls itself', x.kind == 'execute' and c.eq(x.contract, c.self_addr) and not x.funds)
        if x.kind != 'execute':
            return
        last = i == len(ops) - 1
        j = x.msg.json('astroport::router::ExecuteMsg')
        c.ensure('the router calls itself for a single swap', j.is_('ExecuteSwapOperation'))
        if not j.is_('ExecuteSwapOperation'):
            return
        c.ensure('the swaps are done in the order asked for', c.eq(j.operation, o))
        d = j.to.some
        c.ensure('only the last swap pays the recipient', (d is not None and c.eq(d, to)) if last else d is None)
        c.ensure('the spread limit is passed on', c.eq(j.max_spread, m.max_spread))
        c.ensure('a single swap is told from a multi hop one', c.eq(j.single, len(ops) == 1))
        c.ensure('what was received is checked after the last swap, and only then',
                 x.sub.reply_on.is_('Success') and x.sub.id.n == 1 if last else x.sub.reply_on.is_('Never'))
    r = c.post('reply_data')
    c.ensure('the last asset is the one to be received', c.eq(r.asset_info, ops[-1].ask_asset_info))
    c.ensure('the balance before the swaps is kept', T.eq(r.prev_balance.n, c.balance(ops[-1].ask_asset_info, to)))
    c.ensure('the minimum asked for is kept', c.eq(r.minimum_receive, m.minimum_receive))
    c.ensure('the recipient is kept', c.eq(r.receiver, to))
    c.only_written('reply_data')
    c.cover('multi' if len(ops) > 1 else 'single')


def hop_post(c):
    m = c.msg
    c.ensure('only the router itself makes a single swap', c.eq(c.sender, c.self_addr))
    o = m.operation
    c.ensure('only pool swaps are accepted', o.is_('AstroSwap'))
    if not o.is_('AstroSwap'):
        return
    a = o.offer_asset_info
    fac = c.pre('config').astroport_factory
    q = c.smart(fac, 'Pair', lambda r: And(*[len(r.msg.json('astroport::factory::QueryMsg').asset_infos.list) == 2] +
                                           [c.eq(x, y) for x, y in zip(r.msg.json('astroport::factory::QueryMsg').asset_infos.list, (a, o.ask_asset_info))]))
    c.ensure('the pair is the one the factory names for the two assets', q is not None and q.answer is not None)
    if q is None or q.answer is None:
        return
    pair = q.answer.contract_addr
    n = c.balance(a, c.self_addr)
    e = c.effects()
    c.ensure('exactly one message', len(e) == 1)
    if len(e) != 1:
        return
    e = e[0]
    if a.is_('NativeToken'):
        ok = e.kind == 'execute' and len(e.funds) == 1
        c.ensure('the pair is called with the coins', ok)
        if not ok:
            return
        c.ensure('all that the router holds of the offered asset is swapped', And(c.eq(e.contract, pair), c.eq(e.funds[0][0], a.denom), T.eq(e.funds[0][1], n)))
        j = e.msg.json('astroport::pair::ExecuteMsg')
        c.ensure('the pair is asked to swap', j.is_('Swap'))
        c.ensure('the pair is told what is offered', And(c.eq(j.offer_asset.info, a), T.eq(j.offer_asset.amount.n, n)))
        c.cover('native')
    else:
        c.ensure('the tokens are sent to the pair', e.kind == 'cw20_send')
        if e.kind != 'cw20_send':
            return
        c.ensure('all that the router holds of the offered asset is swapped', And(c.eq(e.to, pair), c.eq(e.token, a.contract_addr), T.eq(e.amount, n)))
        j = e.msg.json('astroport::pair::Cw20HookMsg')
        c.ensure('the pair is asked to swap', j.is_('Swap'))
        c.cover('cw20')
    k = j.ask_asset_info.some
    c.ensure('for the asset asked for', k is not None and c.eq(k, o.ask_asset_info))
    c.ensure('the recipient and the spread limit are passed on', And(c.eq(j.to, m.to), c.eq(j.max_spread, m.max_spread)))
    b = j.belief_price.some
    if c.holds(m.single.b):
        c.ensure('a single swap is checked for its spread', b is None)
    else:
        c.ensure('within a multi hop route only the minimum received counts', b is not None and T.eq(b.n, 2 ** 128 - 1))
    c.only_written()


def reply_post(c):
    r = c.pre('reply_data')
    c.ensure('only the reply to the last swap is handled', And(T.eq(c.msg.id.n, 1), c.msg.result.is_('Ok')))
    got = c.balance(r.asset_info, r.receiver) - r.prev_balance.n
    m = r.minimum_receive.some
    if m is not None:
        c.ensure('at least the minimum asked for is received', T.le(m.n, got))
        c.cover('minimum')
    d = c.resp.data.some
    c.ensure('the amount received is reported', d is not None and T.eq(d.json('astroport::router::SwapResponseData').return_amount.n, got))
    c.only_messages()
    c.ensure('nothing is sent', not c.effects())
    c.only_written()
    c.cover('ok')


def simulate_post(c):
    rev = c.msg.is_('ReverseSimulateSwapOperations')
    ops = c.msg.operations.list
    if not route(c, ops):
        return
    n = (c.msg.ask_amount if rev else c.msg.offer_amount).n
    fac = c.pre('config').astroport_factory
    for o in (ops[::-1] if rev else ops):
        def of_pair(r):
            l = r.msg.json('astroport::factory::QueryMsg').asset_infos.list
            return len(l) == 2 and And(c.eq(l[0], o.offer_asset_info), c.eq(l[1], o.ask_asset_info))
        q = c.smart(fac, 'Pair', of_pair)
        c.ensure('the pair of each swap is the one the factory names', q is not None and q.answer is not None)
        if q is None or q.answer is None:
            return

        def asks(r):
            j = r.msg.json(PQ)
            if rev:
                k = j.offer_asset_info.some
                return k is not None and And(c.eq(k, o.offer_asset_info), c.eq(j.ask_asset.info, o.ask_asset_info), T.eq(j.ask_asset.amount.n, n))
            k = j.ask_asset_info.some
            return k is not None and And(c.eq(k, o.ask_asset_info), c.eq(j.offer_asset.info, o.offer_asset_info), T.eq(j.offer_asset.amount.n, n))
        s = c.smart(q.answer.contract_addr, 'ReverseSimulation' if rev else 'Simulation', asks)
        c.ensure('each pair is asked what it would do with the result of the one before', s is not None and s.answer is not None)
        if s is None or s.answer is None:
            return
        n = (s.answer.offer_amount if rev else s.answer.return_amount).n
    r = c.ret.json()
    c.ensure('the result of the last swap is the answer', T.eq((r if rev else r.amount).n, n))
    c.cover('multi' if len(ops) > 1 else 'single')


def lens(c):
    c.ex.lens['operations'] = (0, 1, 2, 3, 4) if c.run.tier == 'thorough' else (0, 1, 2, 3)


def too_long(c):
    c.ex.lens['operations'] = (51,)


def refused(c):
    c.ensure('a route has at most 50 swaps', False)


for v in ('ExecuteSwapOperations', 'Receive'):
    p.add(Scenario('start ' + v, CR, EX, start_post, setup=lens, fixed={'msg': v}, covers=['single', 'multi']),
          Scenario('51 swaps ' + v, CR, EX, refused, setup=too_long, fixed={'msg': v}))
p.add(Scenario('hop', CR, EX, hop_post, fixed={'msg': 'ExecuteSwapOperation'}, covers=['native', 'cw20']),
      Scenario('reply', CR, 'contract::reply', reply_post, covers=['ok', 'minimum']),
      Scenario('simulate', CR, QU, simulate_post, setup=lens, fixed={'msg': 'SimulateSwapOperations'}, covers=['single', 'multi']),
      Scenario('reverse simulate', CR, QU, simulate_post, setup=lens, fixed={'msg': 'ReverseSimulateSwapOperations'}, covers=['single', 'multi']))

"""The xASTRO cw20 token: contracts/tokenomics/xastro_token"""
from vc import *
from registry import prop
from common import *

CR = 'astroport_xastro_token'
EX, QU = 'contract::execute', 'contract::query'
p = prop('C12')


def n0(v):
    return 0 if v is None else v.n


def bal(c, a):
    return n0(c.pre('balance', a)), n0(c.post('balance', a))


def moves(c, frm, to, a):
    """a tokens go from one account (None: minted) to another (None: burned), and every balance that changes is snapshotted"""
    who = [x for x in (frm, to) if x is not None]
    if len(who) == 2 and c.same(frm, to):
        b, d = bal(c, frm)
        c.ensure('the balance covers the amount', T.le(a, b))
        c.ensure('a transfer to oneself changes nothing', T.eq(d, b))
        c.cover('self')
    else:
        if frm is not None:
            b, d = bal(c, frm)
            c.ensure('the balance covers the amount', T.le(a, b))
            c.ensure('exactly the amount leaves the account', T.eq(d, b - a))
        if to is not None:
            b, d = bal(c, to)
            c.ensure('exactly the amount arrives', T.eq(d, b + a))
    for x in who:
        c.ensure('the changed balance is recorded under this block', c.snapped('balance', x, c.env.block.height.n))
    c.only_keys('balance', who)


def supply_changes(c, by):
    t, u = c.pre('token_info'), c.post('token_info')
    c.ensure('nothing but the supply changes', t.same_but(u, 'total_supply'))
    c.ensure('the supply changes by exactly the amount', T.eq(u.total_supply.n, t.total_supply.n + by))
    h = c.env.block.height.n
    v = c.post('total_supply_history', h)
    c.ensure('the new supply is recorded under this block', v is not None and T.eq(v.n, u.total_supply.n))
    c.only_keys('total_supply_history', [h])


def minter_only(c):
    m = c.pre('token_info').mint.some
    c.ensure('only the minter mints and burns', m is not None and c.eq(m.minter, c.sender))


def expired(c, e):
    if e.is_('AtHeight'):
        return T.le(e.get('0').n, c.env.block.height.n)
    if e.is_('AtTime'):
        return T.le(e.get('0').n, c.env.block.time.n)
    return False


AL = 'cw20::AllowanceResponse'


def spends(c, owner, a):
    """a is taken from what the owner allowed the caller"""
    x, y = c.pre('allowance', (owner, c.sender), AL), c.post('allowance', (owner, c.sender), AL)
    c.ensure('the caller was allowed the amount', x is not None and T.le(a, x.allowance.n))
    if x is None:
        return
    c.ensure('an expired allowance is not spent', Not(expired(c, x.expires)))
    c.ensure('the amount is taken from the allowance', y is not None and And(T.eq(y.allowance.n, x.allowance.n - a), c.eq(x.expires, y.expires)))
    c.only_keys('allowance', [(owner, c.sender)])
    c.only_keys('allowance_spender', [(c.sender, owner)])


def quiet(c):
    c.ensure('no message is sent', not c.effects())


def hook(c, to, a):
    e = c.effects()
    c.ensure('exactly the receiving contract is called', len(e) == 1 and e[0].kind == 'receive')
    if len(e) == 1 and e[0].kind == 'receive':
        c.ensure('the receiving contract is told the amount and who sent it',
                 And(c.eq(e[0].contract, to), T.eq(e[0].amount, a), c.eq(e[0].sender, c.sender), c.eq(e[0].msg, c.msg.msg)))


def transfer_post(c):
    a = c.msg.amount.n
    send = c.msg.is_('Send')
    to = c.msg.contract if send else c.msg.recipient
    c.ensure('an amount is moved', T.lt(0, a))
    moves(c, c.sender, to, a)
    hook(c, to, a) if send else quiet(c)
    c.only_written('balance')
    c.cover('ok')


def from_post(c):
    a, o = c.msg.amount.n, c.msg.owner
    spends(c, o, a)
    send = c.msg.is_('SendFrom')
    to = c.msg.contract if send else c.msg.recipient
    moves(c, o, to, a)
    hook(c, to, a) if send else quiet(c)
    c.only_written('balance', 'allowance', 'allowance_spender')
    c.cover('ok')


def mint_post(c):
    a = c.msg.amount.n
    minter_only(c)
    c.ensure('an amount is minted', T.lt(0, a))
    moves(c, None, c.msg.recipient, a)
    supply_changes(c, a)
    cap = c.pre('token_info').mint.some.cap.some
    if cap is not None:
        c.ensure('the cap is kept', T.le(c.post('token_info').total_supply.n, cap.n))
        c.cover('capped')
    quiet(c)
    c.only_written('balance', 'token_info', 'total_supply_history')
    c.cover('ok')


def burn_post(c):
    a = c.msg.amount.n
    minter_only(c)
    if c.msg.is_('BurnFrom'):
        o = c.msg.owner
        spends(c, o, a)
    else:
        o = c.sender
        c.ensure('an amount is burned', T.lt(0, a))
    moves(c, o, None, a)
    supply_changes(c, -a)
    quiet(c)
    c.only_written('balance', 'token_info', 'total_supply_history', 'allowance', 'allowance_spender')
    c.cover('ok')


def allow_post(c):
    a, s = c.msg.amount.n, c.msg.spender
    x, y = c.pre('allowance', (c.sender, s), AL), c.post('allowance', (c.sender, s), AL)
    b = 0 if x is None else x.allowance.n
    d = 0 if y is None else y.allowance.n
    inc = c.msg.is_('IncreaseAllowance')
    c.ensure('one does not allow oneself', Not(c.same(c.sender, s)))
    c.ensure('the allowance changes by the amount' if inc else 'the allowance shrinks by the amount, to no less than zero',
             T.eq(d, b + a) if inc else T.eq(d, T.imax(b - a, 0)))
    e = c.msg.expires.some
    if y is not None:
        if e is not None:
            c.ensure('the allowance expires as asked', c.eq(y.expires, e))
            c.ensure('the expiration lies ahead', Not(expired(c, e)))
        elif x is not None:
            c.ensure('the expiration is kept', c.eq(x.expires, y.expires))
    c.only_keys('allowance', [(c.sender, s)])
    c.only_keys('allowance_spender', [(s, c.sender)])
    quiet(c)
    c.only_written('allowance', 'allowance_spender')
    c.cover('ok')


def other_post(c):
    quiet(c)
    c.only_written('marketing_info', 'logo')
    m = c.pre('marketing_info')
    k = m.marketing.some
    c.ensure('only the marketing account changes the marketing data', k is not None and c.eq(k, c.sender))
    c.cover('ok')


def init_post(c):
    t = c.post('token_info')
    l = c.msg.initial_balances.list
    tot, seen = 0, []
    for x in l:
        if any(c.same(x.address, y) for y in seen):
            continue
        seen.append(x.address)
        v = c.post('balance', x.address)
        tot = tot + n0(v)
        c.ensure('an initial account gets what it was given',
                 T.eq(n0(v), sum_([y.amount.n for y in l if c.same(x.address, y.address)])))
        c.ensure('the initial balance is recorded under this block', c.snapped('balance', x.address, c.env.block.height.n))
    c.ensure('the supply is the sum of all balances', T.eq(t.total_supply.n, tot))
    c.only_keys('balance', seen)
    h = c.env.block.height.n
    v = c.post('total_supply_history', h)
    c.ensure('the initial supply is recorded', T.eq(n0(v), tot))
    m, k = c.msg.mint.some, t.mint.some
    c.ensure('the minter is the one asked for', (m is None) == (k is None) and (m is None or And(c.eq(m.minter, k.minter), c.eq(m.cap, k.cap))))
    if m is not None and m.cap.some is not None:
        c.ensure('the cap is kept from the start', T.le(tot, m.cap.some.n))
    c.cover('ok')


def balance_q(c):
    c.ensure('the balance is reported', T.eq(c.ret.json().balance.n, n0(c.pre('balance', c.msg.address))))
    c.cover('ok')


def balance_at_q(c):
    v = c.at('balance', c.msg.address, c.msg.block.n)
    c.ensure('the balance at that block is reported', T.eq(c.ret.json().balance.n, n0(v)))
    c.cover('ok')


def supply_at_q(c):
    e = c.first('total_supply_history', hi=(True, c.msg.block.n), desc=True)
    c.ensure('the supply of the last change up to that block is reported', T.eq(c.ret.json().n, 0 if e is None else e[1].n))
    c.cover('none' if e is None else 'some')


def info_q(c):
    t, r = c.pre('token_info'), c.ret.json()
    c.ensure('the supply is reported', T.eq(r.total_supply.n, t.total_supply.n))
    c.cover('ok')


def minter_q(c):
    t, r = c.pre('token_info').mint.some, c.ret.json().some
    c.ensure('the minter is reported', (t is None) == (r is None) and (t is None or And(c.eq(t.minter, r.minter), c.eq(t.cap, r.cap))))
    c.cover('ok')


def init_lens(c):
    c.ex.lens['initial_balances'] = (0, 1, 2, 3) if c.run.tier == 'thorough' else (0, 1, 2)


for v in ('Transfer', 'Send'):
    p.add(Scenario(v.lower(), CR, EX, transfer_post, fixed={'msg': v}, covers=['ok', 'self']))
for v in ('TransferFrom', 'SendFrom'):
    p.add(Scenario(v, CR, EX, from_post, fixed={'msg': v}, covers=['ok', 'self']))
p.add(Scenario('mint', CR, EX, mint_post, fixed={'msg': 'Mint'}, covers=['ok', 'capped']),
      Scenario('burn', CR, EX, burn_post, fixed={'msg': 'Burn'}, covers=['ok']),
      Scenario('burn from', CR, EX, burn_post, fixed={'msg': 'BurnFrom'}, covers=['ok']),
      Scenario('increase allowance', CR, EX, allow_post, fixed={'msg': 'IncreaseAllowance'}, covers=['ok']),
      Scenario('decrease allowance', CR, EX, allow_post, fixed={'msg': 'DecreaseAllowance'}, covers=['ok']),
      Scenario('marketing', CR, EX, other_post, fixed={'msg': 'UpdateMarketing'}, covers=['ok']),
      Scenario('logo', CR, EX, other_post, fixed={'msg': 'UploadLogo'}, covers=['ok']),
      Scenario('instantiate', CR, 'contract::instantiate', init_post, setup=init_lens, covers=['ok']),
      Scenario('balance', CR, QU, balance_q, fixed={'msg': 'Balance'}, covers=['ok']),
      Scenario('balance at', CR, QU, balance_at_q, fixed={'msg': 'BalanceAt'}, covers=['ok']),
      Scenario('supply at', CR, QU, supply_at_q, fixed={'msg': 'TotalSupplyAt'}, covers=['none', 'some']),
      Scenario('token info', CR, QU, info_q, fixed={'msg': 'TokenInfo'}, covers=['ok']),
      Scenario('minter', CR, QU, minter_q, fixed={'msg': 'Minter'}, covers=['ok']))

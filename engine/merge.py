"""Merging of the outcomes of a call: states that differ only in how they got there are joined into one state whose
path condition is the disjunction of theirs.  Exact: nothing is dropped except error payloads (an error value of a
declared error type becomes an opaque token when the joined paths raise different ones)."""
from sym import *
import sym as S
import z3


def vkey(v):
    if isinstance(v, (int, bool, Poly)) or v is UNINIT:
        return v if not isinstance(v, bool) else ('B', v)
    if v is None:
        return None
    if isinstance(v, z3.BoolRef):
        return ('z', v.get_id())
    if isinstance(v, St):
        return ('S', v.ty) + tuple(vkey(x) for x in v.f)
    if isinstance(v, En):
        return ('E', v.ty, v.v) + tuple(vkey(x) for x in v.f)
    if isinstance(v, Sym):
        return ('Y', v.ty, v.name)
    if isinstance(v, Ptr):
        return ('P', v.cell, v.path, v.meta if v.meta is None else tuple(vkey(x) for x in v.meta))
    if isinstance(v, VecT):
        return ('VT', v.name)
    if isinstance(v, VecV):
        return ('V',) + tuple(vkey(x) for x in v.e)
    if isinstance(v, StrV):
        return ('T', v.lit, v.key if not isinstance(v.key, tuple) else repr(v.key))
    if isinstance(v, Fn):
        return ('F', v.ty)
    if isinstance(v, Opq):
        return ('O', v.tag, opqkey(v.a))
    return ('?', id(v))


def opqkey(a):
    if isinstance(a, tuple):
        return tuple(opqkey(x) for x in a)
    if isinstance(a, (str, int)):
        return a
    return vkey(a)


def same(a, b):
    return a is b or vkey(a) == vkey(b)


def is_err(ex, v):
    """is this Err(e) with e of a declared error type?"""
    if not (isinstance(v, En) and v.ty is not None and v.v == 1):
        return False
    t = ex.ty(v.ty)
    if t.get('base') != 'std::result::Result':
        return False
    e = ex.ty(t['args'][1])
    return e['k'] == 'adt' and e['base'].rsplit('::', 1)[-1].endswith('Error')


def frame_sig(ex, st):
    return None


def merge(ex, outs):
    groups = {}
    order = []
    for st, v in outs:
        if v is S.PANIC:
            k = ('panic', len(order))
        elif is_err(ex, v):
            k = ('err', v.ty)
        else:
            k = vkey(v)
        k = (k, tuple(len(st.store.get(ns, ())) * 0 for ns in ()), tuple(vkey_ev(e) for e in st.log))
        g = groups.get(k)
        if g is None:
            groups[k] = g = []
            order.append(k)
        g.append((st, v))
    res = []
    for k in order:
        g = groups[k]
        if len(g) == 1:
            res += g
            continue
        done = []       # classes of mutually mergeable outcomes
        for st, v in g:
            for cl in done:
                gar = mergeable(ex, cl[0], (st, v))
                if gar is not None:
                    cl[2] |= gar
                    cl[1].append((st, v))
                    break
            else:
                done.append([(st, v), [(st, v)], set()])
        for first, members, gar in done:
            if len(members) == 1:
                res += members
            else:
                res.append(join(ex, members, gar))
    ex.merged[0] += len(outs)
    ex.merged[1] += len(res)
    return res


def vkey_ev(e):
    return tuple(opqkey(x) for x in e)


def mergeable(ex, a, b):
    """None, or the set of heap cells that differ but are unreachable"""
    (s, v), (t, w) = a, b
    m, n = s.mem, t.mem
    suspects = set()
    for c, x in m.items():
        y = n.get(c, NOPE)
        if x is y:
            continue
        if y is NOPE:
            if c[0] == 'h':
                suspects.add(c)
            elif isinstance(c[0], int):
                return None
            continue        # lazily created cells ('sr', 'const') are recreated on demand
        if same(x, y):
            continue
        if c[0] == 'h':
            suspects.add(c)
        else:
            return None
    for c in n:
        if c not in m:
            if c[0] == 'h':
                suspects.add(c)
            elif isinstance(c[0], int):
                return None
    # storage
    for ns in set(s.store) | set(t.store):
        x, y = s.store.get(ns, []), t.store.get(ns, [])
        if x is y:
            continue
        dx, dy = written(s, ns), written(t, ns)
        if set(dx) != set(dy):
            return None
        for k in dx:
            if not same(dx[k], dy[k]):
                return None
    if s.notes != t.notes:
        return None
    for ns in {g[0] for g in s.notes.get('gaps', ())}:
        # a range over this map counted its slots: they must be the same ones
        x, y = s.pre.get(ns, []), t.pre.get(ns, [])
        if len(x) != len(y) or not all(kk(k) == kk(l) and same(v, w) for (k, v), (l, w) in zip(x, y)):
            return None
    if suspects:
        for st, val in (a, b):
            if reaches(st, val, suspects, ex.pins):
                return None
    return suspects


NOPE = object()


def written(st, ns):
    pre = st.pre.get(ns, [])
    out = {}
    for (k, v), (k2, v2) in zip(st.store.get(ns, []), pre):
        if v is not v2:
            out[kk(k)] = v
    return out


def kk(key):
    return (key[0], tuple(key[1]))


def reaches(st, val, suspects, pins=()):
    seen = set()

    def go(v):
        if isinstance(v, Ptr):
            c = v.cell
            if c in suspects:
                return True
            if c in seen:
                return False
            seen.add(c)
            return go(st.mem.get(c))
        if isinstance(v, (St, En)):
            return any(go(x) for x in v.f)
        if isinstance(v, VecT):
            return False
        if isinstance(v, VecV):
            return any(go(x) for x in v.e)
        if isinstance(v, Opq):
            return go_o(v.a)
        return False

    def go_o(a):
        if isinstance(a, (tuple, list)):
            return any(go_o(x) for x in a)
        return go(a)
    if go(val) or go_o(pins):
        return True
    for c, v in st.mem.items():
        if isinstance(c[0], int) and c not in seen:
            if go(v):
                return True
    return False


def join(ex, members, garbage):
    s0, v0 = members[0]
    # common ancestor of the path conditions
    nodes = [s.pcn for s, _ in members]
    d = min(n.depth if n is not None else 0 for n in nodes)
    cur = []
    for n in nodes:
        while n is not None and n.depth > d:
            n = n.parent
        cur.append(n)
    while any(n is not cur[0] for n in cur):
        cur = [n.parent for n in cur]
    anc = cur[0]
    suff = []
    for s, _ in members:
        suff.append({l.get_id(): l for l in S.pc_lits(s.pcn, anc)})
    common = set(suff[0])
    for x in suff[1:]:
        common &= set(x)
    lits = [l for i, l in suff[0].items() if i in common]
    sets = [frozenset(i for i in x if i not in common) for x in suff]
    lit = {}
    for x in suff:
        lit.update(x)
    mine = sets
    sets = resolve(set(sets), lit)
    r = s0.copy()
    r.pcn = anc
    for l in lits:
        r.assume(l)
    if frozenset() not in sets:
        c = Or(*[And(*[lit[i] for i in sorted(x)]) for x in sets])
        r.assume(c)
    if r.pcn is not None:
        r.pcn.sat = True
    for c in garbage:
        r.mem.pop(c, None)
    soft = set(s0.soft)
    ch = {}
    for k, c in s0.choices.items():
        if all(s.choices.get(k) == c for s, _ in members):
            ch[k] = c
        else:
            soft.add(k)
    for s, _ in members[1:]:
        soft |= s.soft
        soft |= {k for k in s.choices if k not in ch}
    r.choices = ch
    r.soft = frozenset(soft)
    r.ctr = max(s.ctr for s, _ in members)
    for s, _ in members[1:]:
        for nm, q in s.queries.items():
            r.queries.setdefault(nm, q)
    # queries not made on every path here: when they were made
    for nm in r.queries:
        has = [nm in s.queries for s, _ in members]
        if all(has) and all(nm not in s.qg for s, _ in members):
            r.qg.pop(nm, None)
            continue
        g = [frozenset(x) for x, h, (s, _) in zip(mine, has, members) if h and nm not in s.qg]
        h = [And(s.qg[nm], *[lit[i] for i in sorted(x)]) for x, h, (s, _) in zip(mine, has, members) if h and nm in s.qg]
        g = resolve(set(g), lit)
        if frozenset() in g:
            r.qg.pop(nm, None)
        else:
            r.qg[nm] = Or(*[And(*[lit[i] for i in sorted(x)]) for x in g], *h)
    # storage slots that not every member knows (or knows with another presence) are forgotten if unwritten
    for ns in set().union(*[set(s.store) for s, _ in members]):
        keep_s, keep_p = [], []
        x, p = s0.store.get(ns, []), s0.pre.get(ns, [])
        others = []
        for s, _ in members[1:]:
            others.append({kk(k): pv for k, pv in s.pre.get(ns, [])})
        for (k, v), (_, pv) in zip(x, p):
            if v is not pv or all(kk(k) in o and same(o[kk(k)], pv) for o in others):
                keep_s.append((k, v))
                keep_p.append((k, pv))
        r.store[ns], r.pre[ns] = keep_s, keep_p
    v = v0
    if is_err(ex, v0) and not all(same(v0, w) for _, w in members[1:]):
        v = En(v0.ty, 1, [Opq('err', '*')])
    return r, v


def resolve(sets, lit):
    """simplify a disjunction of conjunctions: (A and c) or (A and not c) = A, and absorption"""
    neg = {}
    for i, l in lit.items():
        n = Not(l)
        j = n.get_id()
        if j in lit:
            neg[i] = j
    changed = True
    while changed and len(sets) > 1:
        changed = False
        for x in sorted(sets, key=len):
            for i in x:
                j = neg.get(i)
                if j is not None:
                    y = (x - {i}) | {j}
                    if y in sets:
                        sets.discard(x)
                        sets.discard(y)
                        sets.add(x - {i})
                        changed = True
                        break
                    # (c and A) or (not c) = A or (not c)
                    if frozenset({j}) in sets and len(x) > 1:
                        sets.discard(x)
                        sets.add(x - {i})
                        changed = True
                        break
            if changed:
                break
            if any(y < x for y in sets):
                sets.discard(x)
                changed = True
                break
    return sets

"""Specification layer: obligations over the outcomes of real entry points, their discharge, and counterexamples."""
import types
import base64
import itertools
import json
import os
import random
import re
import subprocess
import sys
import time
import z3
import mir
import models
import sym as S
import term as T
from sym import *
from conc import *

VERIF = mir.VERIF
DEBUG = os.environ.get('VERIF_DEBUG')


def raw(x):
    return x.v if isinstance(x, V) else x


class V:
    """value with field access; numbers and strings unwrap on use"""
    __slots__ = ('c', 'v')

    def __init__(self, c, v):
        self.c, self.v = c, v

    def _f(self):
        v = self.c.ex.deref(self.c.st, self.v)
        if isinstance(v, St) and v.ty is not None and len(v.f) == 1:
            t = self.c.ex.ty(v.ty)
            if t['k'] == 'adt' and t['box']:
                return V(self.c, v.f[0])._f()
        return v

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self.get(n)

    def get(self, n):
        v = self._f()
        if isinstance(v, St) and n.isdigit() and (v.ty in (None, 'kv') or self.c.ex.ty(v.ty)['k'] != 'adt'):
            return V(self.c, v.f[int(n)])
        if isinstance(v, (St, En)):
            t = self.c.ex.ty(v.ty)
            if t['k'] == 'adt':
                fs = t['variants'][v.v if isinstance(v, En) else 0]['fields']
                for (fname, _), x in zip(fs, v.f):
                    if fname == n or fname == 'r#' + n:
                        return V(self.c, x)
                raise SpecError(f'no field {n} in {t["base"]} {[f[0] for f in fs]}')
        raise SpecError(f'field {n} of {v!r}')

    def __getitem__(self, i):
        v = self._f()
        if isinstance(v, VecV):
            return V(self.c, v.e[i])
        return V(self.c, v.f[i])

    @property
    def variant(self):
        v = self._f()
        if not isinstance(v, En):
            raise SpecError(f'variant of {v!r}')
        return self.c.ex.ty(v.ty)['variants'][v.v]['name']

    def is_(self, n): return self.variant == n

    def same_but(self, other, *names):
        """every field except the named ones is equal"""
        a, b = self._f(), other._f()
        fs = self.c.ex.ty(a.ty)['variants'][a.v if isinstance(a, En) else 0]['fields']
        for n in names:
            if n not in [f[0] for f in fs]:
                raise SpecError('no field ' + n)
        return And(*[models.veq(self.c.ex, self.c.st, x, y) for (n, _), x, y in zip(fs, a.f, b.f) if n not in names])

    @property
    def n(self):
        return models.num(self.c.ex, self.c.st, self.v)

    @property
    def b(self):
        return self.c.ex.deref(self.c.st, self.v)

    @property
    def s(self):
        return models.as_str(self.c.ex, self.c.st, self.v)

    @property
    def some(self):
        """None, or the content of a Some"""
        v = self._f()
        return None if v.v == 0 else V(self.c, v.f[0])

    @property
    def list(self):
        v = self._f()
        if isinstance(v, St) and len(v.f) == 1:
            v = self.c.ex.deref(self.c.st, v.f[0])
        return [V(self.c, x) for x in v.e]

    @property
    def entries(self):
        """the (key, value) entries of a map"""
        return [(V(self.c, x.v.f[0]), V(self.c, x.v.f[1])) for x in self.list]

    def at(self, key):
        """the value of a map at a key, or None (case split)"""
        for k, v in self.entries:
            if self.c.same(k, key):
                return v
        return None

    def __len__(self): return len(self.list)
    def __iter__(self): return iter(self.list)

    def json(self, hint=None):
        """content of a JSON binary"""
        v = self._f()
        while isinstance(v, St):
            v = self.c.ex.deref(self.c.st, v.f[0])
        fr = sys._getframe(1)
        site = (fr.f_code.co_filename, fr.f_lineno)
        jt = self.c.run.json_ty
        if isinstance(v, Opq) and v.tag == 'json':
            w = self.c.ex.deref(self.c.st, v.a)
            if getattr(w, 'ty', None) is not None and not isinstance(w, Opq):
                jt.setdefault(site, set()).add(w.ty)
            return V(self.c, v.a)
        if isinstance(v, Opq) and v.tag == 'symbin':
            ty = self.c.ex.symbin_ty.get(v.a)
            if ty is None:
                ty = self.c.types(hint)
            jt.setdefault(site, set()).add(ty)
            return V(self.c, self.c.ex.mk(ty, v.a + '.json'))
        if isinstance(v, Opq) and v.tag == 'rawjson':
            if hint is not None:
                return V(self.c, from_json(self.c.ex, self.c.types(hint), v.a))
            for ty in jt.get(site, ()):
                try:
                    return V(self.c, from_json(self.c.ex, ty, v.a))
                except Exception:
                    pass
            raise SpecError('json type unknown at %s:%s' % site)
        raise SpecError(f'json of {v!r}')

    def proto(self):
        """content of a protobuf-encoded value"""
        v = self._f()
        while isinstance(v, St):
            v = self.c.ex.deref(self.c.st, v.f[0])
        if isinstance(v, Opq) and v.tag == 'proto':
            return V(self.c, v.a)
        raise SpecError(f'no message in {v!r}')

    def instantiated(self):
        """the address of the contract a reply reports as instantiated"""
        v = self._f()
        while isinstance(v, St):
            v = self.c.ex.deref(self.c.st, v.f[0])
        if isinstance(v, Opq) and v.tag == 'symbin' and v.a in self.c.ex.symbin_inst:
            return V(self.c, self.c.ex.mk(self.c.ex.symbin_inst[v.a], v.a + '.inst')).contract_address.s
        if isinstance(v, Opq) and v.tag == 'raw':
            return StrV(lit=dict(pb_fields(v.a)).get(1, b'').decode())
        raise SpecError(f'no reply in {v!r}')

    def created_denom(self):
        """the denom a reply reports as created"""
        v = self._f()
        while isinstance(v, St):
            v = self.c.ex.deref(self.c.st, v.f[0])
        if isinstance(v, Opq) and v.tag == 'symbin' and v.a in self.c.ex.symbin_pb:
            return V(self.c, self.c.ex.mk(self.c.ex.symbin_pb[v.a], v.a + '.proto')).new_token_denom.s
        if isinstance(v, Opq) and v.tag == 'raw':
            return StrV(lit=dict(pb_fields(v.a)).get(1, b'').decode())
        raise SpecError(f'no reply in {v!r}')

    def __repr__(self): return f'V({self.v!r})'


class SpecError(Exception):
    pass


class Eff:
    """one effect of a response"""
    __slots__ = ('kind', 'd', 'sub')

    def __init__(self, kind, sub=None, **d):
        self.kind, self.d, self.sub = kind, d, sub

    def __getattr__(self, n):
        try:
            v = self.d[n]
        except KeyError:
            raise AttributeError(n)
        if isinstance(v, types.FunctionType):
            v = self.d[n] = v()
        return v

    def __repr__(self): return f'{self.kind}{self.d}'


CW20 = ['cw20::Cw20ExecuteMsg', 'cw20::msg::Cw20ExecuteMsg']


class Ctx:
    """what a specification sees of one outcome"""
    concrete = False

    def __init__(self, run, st, ret, args):
        self.run, self.ex, self.st, self.ret0, self.args = run, run.ex, st, ret, args
        self.goals = []

    # -- inputs
    @property
    def msg(self): return V(self, self.args['msg'])
    @property
    def info(self): return V(self, self.args['info'])
    @property
    def env(self): return V(self, self.args['env'])
    @property
    def sender(self): return self.info.sender.s
    @property
    def self_addr(self): return self.env.contract.address.s
    @property
    def now(self): return T.fdiv(self.env.block.time.n, 10 ** 9)

    @property
    def ok(self):
        return isinstance(self.ret0, En) and self.ret0.v == 0

    @property
    def resp(self):
        return V(self, self.ret0.f[0])

    @property
    def ret(self): return self.resp

    def types(self, hint):
        return self.run.find_type(hint)

    def assume_initial(self, ns, cond, bykey=False):
        """assume cond(V) (or cond(V, key leaves)) of the value initially stored under a namespace (an invariant of the stored state)"""
        run, args = self.run, self.args

        def f(ex, st, key, ty):
            nm = 'st:' + ns + ('[' + models.cname(key) + ']' if key[0] or key[1] else '')
            v = ex.mk(ty, nm)
            c = Ctx(run, st, None, args)
            st.assume(cond(V(c, v), key[1]) if bykey else cond(V(c, v)))
            return v
        self.ex.initial[ns] = f

    # -- comparisons
    def eq(self, a, b):
        a, b = raw(a), raw(b)
        if isinstance(a, str):
            a = StrV(lit=a)
        if isinstance(b, str):
            b = StrV(lit=b)
        if isinstance(a, (int, Poly)) and not isinstance(a, bool) or isinstance(b, (int, Poly)) and not isinstance(b, bool):
            return T.eq(models.num(self.ex, self.st, a), models.num(self.ex, self.st, b))
        return models.veq(self.ex, self.st, a, b)

    def holds(self, c):
        """case split on a condition"""
        return self.ex.decide(self.st, c)

    # -- storage
    def key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = [raw(k) for k in key]
        key = [StrV(lit=k) if isinstance(k, str) else k for k in key]
        if not key:
            return models.NOKEY
        return models.key_canon(self.ex, self.st, St(None, key) if len(key) > 1 else key[0])

    def vty(self, ns, ty):
        if ty is None:
            ty = self.ex.val_ty.get(ns)
        elif isinstance(ty, str):
            ty = self.types(ty)
        if ty is None:
            raise SpecError('type of ' + ns)
        return ty

    def pre(self, ns, key=(), ty=None, canon=None):
        """value before the call, or None"""
        k, ty = canon or self.key(key), self.vty(ns, ty)
        j = models.slot(self.ex, self.st, ns, k, ty)
        v = self.st.pre[ns][j][1]
        if v is models.UNREAD:
            k = self.st.pre[ns][j][0]
            p = models.presence(self.ex, self.st, ns, k, j)
            if p is None:
                p = self.ex.choose(self.st, f'has:{ns}[{models.cname(k)}]', (1, 0), 2)
            v = self.ex.mk_initial(self.st, ns, k, ty) if p else None
            l = list(self.st.pre[ns])
            l[j] = (k, v)
            self.st.pre[ns] = l
        return None if v is None else V(self, v)

    def post(self, ns, key=(), ty=None):
        """value after the call, or None"""
        k, ty = self.key(key), self.vty(ns, ty)
        j = models.slot(self.ex, self.st, ns, k, ty)
        v = self.st.store[ns][j][1]
        return None if v is None else V(self, v)

    def written(self, skip=()):
        """namespaces (but skip) with a slot whose value may differ from the initial one"""
        out = set()
        for ns, l in self.st.store.items():
            if ns in skip:
                continue
            for (k, v), (_, p) in zip(l, self.st.pre.get(ns, [])):
                if v is not p:
                    if v is not None and p is not None and p is not models.UNREAD:
                        try:
                            if models.veq(self.ex, self.st, v, p) is True:
                                continue
                        except Unsupported:
                            pass
                    out.add(ns)
        return out

    def written_keys(self, ns):
        """canonical keys of the written slots of a namespace"""
        out = []
        for (k, v), (_, p) in zip(self.st.store.get(ns, []), self.st.pre.get(ns, [])):
            if v is not p:
                out.append(k)
        return out

    def only_written(self, *nss, name='frame'):
        extra = sorted(self.written(nss) - set(nss) - {'contract_info'})
        self.ensure(f'{name}: nothing else in storage changes', not extra, note=str(extra))

    def only_keys(self, ns, keys):
        """nothing of a map changes except at these keys"""
        ks = [self.key(k)[1] for k in keys]
        for i, k in enumerate(self.written_keys(ns)):
            self.ensure(f'{ns}: no other entry changes', Or(*[And(*[T.eq(x, y) for x, y in zip(k[1], j)]) for j in ks]))

    def snapped(self, ns, key, height):
        """the entry was saved, and every save of it in this call is recorded in the history under this height"""
        k = self.key(key)
        cs, hit = [], []
        for e in self.st.log:
            if e[0] == 'snap' and e[1] == ns:
                c = models.canon_eq(e[2], k)
                same = T.eq(models.num(self.ex, self.st, e[4]), height)
                hit.append(And(c, same))
                cs.append(Or(Not(c), same))
        return And(Or(*hit), *cs)

    def at(self, ns, key, height):
        """value the history gives for a height, or None"""
        k = self.key(key)
        return self.pre(ns + '@h', None, self.ex.val_ty[ns], canon=(k[0] + '@', k[1] + (height,)))

    def scan(self, ns, prefix=(), lo=None, hi=None, desc=False, limit=None, uid='spec'):
        """entries of a map before the call, in order: (key components below the prefix, value); bounds: (inclusive?, key)"""
        pre = self.key(prefix)[1] if prefix else ()
        lo, hi = [None if b is None else (b[0], tuple(self.key(b[1])[1])) for b in (lo, hi)]
        return self.scan_(ns, tuple(pre), lo, hi, desc, limit, uid)

    def scan_(self, ns, pre, lo, hi, desc, limit, uid):
        ex, st = self.ex, self.st
        ty, kt = self.vty(ns, None), ex.key_ty[ns]
        r = (ns, models.nleaves(ex, kt), pre, lo, hi, desc, 0, uid)
        out = []

        def newkey(nm, head):
            k = tuple(T.var(nm + f'.{i}') if w is not None else models.strid(models.head_text(head, nm + f'.{i}'))
                      for i, w in enumerate(key_parts(ex, kt)[len(pre):]))
            return None, (None, k)

        def unread(j):
            k = st.pre[ns][j][0]
            self.pre(ns, None, ty, canon=k)
        while limit is None or len(out) < limit:
            done = models.walk(ex, st, r, st.pre, newkey, unread)
            if done == 'none':
                break
            if isinstance(done, tuple):
                k = pre + newkey(f'key:{ns}:{uid}:{r[6]}', done[1])[1][1]
                j = models.add_entry(ex, st, r, k, ty)
            else:
                j = done
            k, v = st.pre[ns][j]
            out.append((tuple(self.leaf(x, w) for x, w in zip(k[1], key_parts(ex, kt)))[len(pre):], V(self, v)))
            r = models.advance(r, k[1])
        return out

    def leaf(self, x, w):
        return x if w is not None else models.str_of_id(x)

    def first(self, ns, prefix=(), lo=None, hi=None, desc=False, uid='first'):
        l = self.scan(ns, prefix, lo, hi, desc, 1, uid)
        return l[0] if l else None

    # -- external answers
    def requests(self):
        """decoded external queries: (kind, details..., answer)"""
        out = []
        for nm, (key, ty, req, v) in self.st.queries.items():
            out.append(self.decode_request(req, v, ty, nm))
            out[-1].d['qname'] = nm
        return out

    def answer_of(self, nm, ty, v, israw):
        """the answer to a request: whether there was one may differ between the paths merged here"""
        ex, st = self.ex, self.st
        if ex.queries_succeed:
            return v
        if israw:
            c = ex.choose(st, 'raw:' + nm, (1, 2, 0), 3)
            return None if c == 0 else models.mkv(ex, ty, 'Some', Opq('symbin', nm)) if c == 1 else models.mkv(ex, ty, 'None')
        return ex.mk(ty, nm) if ex.choose(st, 'ok:' + nm, (1, 0), 2) else None

    def decode_request(self, req, v, ty, nm=None):
        israw = isinstance(req, tuple) and req[0] == 'wasm_raw'

        def a():
            x = v if nm is None else self.answer_of(nm, ty, v, israw)
            return None if x is None else V(self, x)
        if isinstance(req, tuple):
            if israw:
                def b():
                    x = self.answer_of(nm, ty, v, True)
                    if x is not None and x.f and isinstance(x.f[0], Opq) and x.f[0].tag == 'symbin' and x.f[0].a in self.ex.symbin_ty:
                        t2 = self.ex.symbin_ty[x.f[0].a]
                        self.run.raw_ty.setdefault(bytes(req[2].e), set()).add(t2)
                        return V(self, self.ex.mk(t2, x.f[0].a + '.json'))
                    return None
                return Eff('raw', contract=V(self, req[1]).s, key=bytes(req[2].e), answer=b)
            if req[0] == 'rawquery' and not req[3][1]:
                self.run.raw_ty.setdefault(req[1].encode(), set()).add(ty)
                return Eff('raw', contract=V(self, req[2]).s, key=req[1].encode(), answer=a)
            if req[0] == 'rawquery':
                return Eff('rawmap', contract=V(self, req[2]).s, ns=req[1], key=req[3], answer=a)
            return Eff(req[0], args=req[1:], answer=a)
        r = V(self, req)
        k = r.variant
        if k == 'Bank':
            b = r.get('0')
            if b.variant == 'Balance':
                return Eff('bank', address=b.address.s, denom=b.denom.s, answer=a)
            if b.variant == 'Supply':
                return Eff('supply', denom=b.denom.s, answer=a)
            return Eff('bank?', answer=a)
        if k == 'Wasm':
            w = r.get('0')
            if w.variant == 'Smart':
                try:
                    j = w.msg.json()._f()
                    self.run.ans_ty.setdefault(self.ex.ty(j.ty)['variants'][j.v]['name'], set()).add(ty)
                except (SpecError, Unsupported, AttributeError):
                    pass
                return Eff('smart', contract=w.contract_addr.s, msg=w.msg, answer=a)
            if w.variant == 'Raw':
                return Eff('raw', contract=w.contract_addr.s, key=w.key, answer=a)
            return Eff('wasm?', answer=a)
        return Eff('other', answer=a)

    def fresh_answer(self, nm):
        return T.var('unasked:' + nm, 0, 2 ** 128 - 1)

    def same(self, a, b):
        """are two strings/values equal on this path? (case split when undetermined)"""
        return self.holds(self.eq(a, b))

    def asked(self, cond):
        """the request for which cond is true: one for which it is plain first, then by case split"""
        l = [(r, cond(r)) for r in self.requests()]
        for r, x in l:
            if x is True and self.made(r) is True:
                return r
        l = sorted([(r, x) for r, x in l if x is not False], key=lambda e: e[1] is not True)
        for i, (r, x) in enumerate(l):
            g = self.made(r) if len(l) > 1 else True
            if self.holds(x if g is True else And(x, g)):
                return r
        return None

    def made(self, r):
        """when a request was made"""
        return True if self.concrete else self.st.qg.get(r.d.get('qname'), True)

    def native_balance(self, addr, denom):
        r = self.asked(lambda r: r.kind == 'bank' and And(self.eq(r.address, addr), self.eq(r.denom, denom)))
        return self.fresh_answer('bank') if r is None or r.answer is None else r.answer.amount.amount.n

    def supply(self, denom):
        r = self.asked(lambda r: r.kind == 'supply' and self.eq(r.denom, denom))
        return self.fresh_answer('supply') if r is None or r.answer is None else r.answer.amount.amount.n

    def receiver(self, opt):
        """an optional recipient, by default the sender"""
        o = opt.some
        return self.sender if o is None else o.s

    def cw20_balance(self, token, addr):
        """what a token contract says an account holds (zero when it did not answer)"""
        r = self.asked(lambda r: r.kind == 'smart' and self.json_is(r.msg, 'Balance')
                       and And(self.eq(r.contract, token), self.eq(r.msg.json('cw20::Cw20QueryMsg').address, addr)))
        return self.fresh_answer('cw20') if r is None else 0 if r.answer is None else r.answer.balance.n

    def json_is(self, b, variant):
        try:
            j = b.json()
            return isinstance(j._f(), En) and j.variant == variant
        except (SpecError, Unsupported):
            pass
        v = b._f()
        while isinstance(v, St):
            v = v.f[0]
        return isinstance(v, Opq) and v.tag == 'rawjson' and isinstance(v.a, dict) and list(v.a) == [snake(variant)]

    def balance(self, asset, addr):
        """balance the contract was told for an AssetInfo"""
        if asset.variant == 'NativeToken':
            return self.native_balance(addr, asset.denom)
        return self.cw20_balance(asset.contract_addr, addr)

    def concat(self, *parts):
        """text made of these pieces"""
        return models.concat([StrV(lit=x) if isinstance(x, str) else x for x in map(raw, parts)])

    def is_addr(self, text):
        """is this text a valid address?"""
        s = raw(text)
        if self.concrete:
            return not (s.lit == '' or s.lit.startswith('invalid') or '/' in s.lit)     # as in replay/src/main.rs
        return boolvar(f'addr_valid:{models.strid(s)!r}')

    def after(self, text, head):
        """the rest of a text that begins so, or None"""
        s = raw(text)
        ps = [('l', s.lit)] if s.lit is not None else s.key[1] if isinstance(s.key, tuple) and s.key[0] == 'cat' else ()
        if not ps or ps[0][0] != 'l' or not ps[0][1].startswith(head):
            return None
        return models.concat([('l', ps[0][1][len(head):])] + list(ps[1:]))

    def part(self, text, sep, i):
        """a part of a text between separators"""
        s = raw(text)
        if s.lit is not None:
            l = s.lit.split(sep)
            return StrV(lit=l[i] if i < len(l) else '')
        return StrV(key=('part', s.key, sep, i))

    def sorted_texts(self, l):
        """texts in increasing order (case split on the order)"""
        out = []
        for x in l:
            i = len(out)
            while i and self.holds(T.lt(models.strord(x), models.strord(out[i - 1])) if x.lit is None or out[i - 1].lit is None
                               else x.lit < out[i - 1].lit):
                i -= 1
            out.insert(i, x)
        return out

    def raw(self, contract, key):
        """the value another contract stores under a key, as this call was told"""
        r = self.asked(lambda r: r.kind == 'raw' and r.key == key.encode() and self.eq(r.contract, contract))
        return None if r is None else r.answer

    def raw_map(self, contract, ns, key, ty):
        """an entry of a map of another contract, as this call was told (None: not asked, not answered or no such entry)"""
        k = self.key(key)
        r = self.asked(lambda r: r.kind == 'rawmap' and r.ns == ns and And(self.eq(r.contract, contract), models.canon_eq(r.key, k)))
        a = None if r is None else r.answer
        return None if a is None else a.some

    def smart(self, contract, variant, *conds):
        """a smart query of this kind that was made (and its answer)"""
        return self.asked(lambda r: r.kind == 'smart' and self.json_is(r.msg, variant)
                          and And(self.eq(r.contract, contract), *[f(r) for f in conds]))

    # -- effects
    def submsgs(self):
        return self.resp.messages.list

    def effects(self):
        out = []
        for sm in self.submsgs():
            out += self.decode(sm)
        return out

    def decode(self, sm):
        m = sm.msg
        k = m.variant
        if k == 'Bank':
            b = m.get('0')
            if b.variant == 'Send':
                return [Eff('send', sm, denom=x.denom.s, to=b.to_address.s, amount=x.amount.n) for x in b.amount.list]
            return [Eff('bank_burn', sm, denom=x.denom.s, amount=x.amount.n) for x in b.amount.list]
        if k == 'Wasm':
            w = m.get('0')
            if w.variant == 'Execute':
                funds = [(x.denom.s, x.amount.n) for x in w.funds.list]
                tok = w.contract_addr.s
                try:
                    j = w.msg.json('cw20::Cw20ExecuteMsg')
                    iscw = self.ex.ty(j._f().ty)['base'].startswith('cw20::') and not funds
                except (SpecError, Unsupported):
                    iscw, j = False, None
                    if self.concrete and self.json_is(w.msg, 'Receive') and not funds:
                        j = w.msg.json('cw20::ReceiverExecuteMsg')
                        iscw = True
                if iscw:
                    v = j.variant
                    if v == 'Receive':
                        r = j.get('0')
                        return [Eff('receive', sm, contract=tok, sender=r.sender.s, amount=r.amount.n, msg=r.msg)]
                    if v == 'Transfer':
                        return [Eff('transfer', sm, token=tok, to=j.recipient.s, amount=j.amount.n)]
                    if v == 'TransferFrom':
                        return [Eff('transfer_from', sm, token=tok, owner=j.owner.s, to=j.recipient.s, amount=j.amount.n)]
                    if v == 'Mint':
                        return [Eff('mint', sm, token=tok, to=j.recipient.s, amount=j.amount.n)]
                    if v == 'Burn':
                        return [Eff('burn', sm, token=tok, amount=j.amount.n)]
                    if v == 'Send':
                        return [Eff('cw20_send', sm, token=tok, to=j.contract.s, amount=j.amount.n, msg=j.msg)]
                    if v == 'IncreaseAllowance':
                        return [Eff('allow', sm, token=tok, to=j.spender.s, amount=j.amount.n)]
                    return [Eff('cw20', sm, token=tok, msg=j)]
                return [Eff('execute', sm, contract=tok, msg=w.msg, funds=funds)]
            if w.variant == 'Instantiate':
                return [Eff('instantiate', sm, admin=w.admin, code_id=w.code_id, msg=w.msg, funds=w.funds, label=w.label)]
            return [Eff('wasm_' + w.variant, sm, w=w)]
        if k == 'Stargate':
            return [self.decode_proto(sm, m.type_url.s, m.value)]
        if k == 'Ibc':
            b = m.get('0')
            if b.is_('Transfer'):
                t = b.timeout.timestamp.some
                return [Eff('ibc', sm, channel=b.channel_id.s, to=b.to_address.s, denom=b.amount.denom.s, amount=b.amount.amount.n,
                            timeout=None if t is None else t.n)]
        if k == 'Custom':
            b = m.get('0')
            if b.is_('IbcTransfer'):
                return [Eff('ibc', sm, channel=b.source_channel.s, to=b.receiver.s, denom=b.token.denom.s, amount=b.token.amount.n,
                            timeout=b.timeout_timestamp.n)]
        return [Eff('other', sm, m=m)]

    def decode_proto(self, sm, url, value):
        v = value._f()
        while isinstance(v, St) and not (v.ty is not None and self.ex.ty(v.ty)['k'] == 'adt' and
                                         self.ex.ty(v.ty)['base'].split('::')[-1].startswith('Msg')):
            v = self.ex.deref(self.st, v.f[0])
        u = (url.lit or '').rsplit('.', 1)[-1]
        if isinstance(v, Opq) and v.tag == 'proto':
            p = V(self, v.a)
            if u in ('MsgMint', 'MsgBurn'):
                a = p.amount.some
                return Eff('tf_mint' if u == 'MsgMint' else 'tf_burn', sm, sender=p.sender.s, denom=a.denom.s,
                           amount=self.prost_amount(a.amount),
                           to=(p.mint_to_address if u == 'MsgMint' else p.burn_from_address).s)
            return Eff('proto', sm, url=url, p=p)
        if isinstance(v, Opq) and v.tag == 'raw':
            f = dict(pb_fields(v.a))
            if u in ('MsgMint', 'MsgBurn'):
                co = dict(pb_fields(f.get(2, b'')))
                return Eff('tf_mint' if u == 'MsgMint' else 'tf_burn', sm, sender=StrV(lit=f.get(1, b'').decode()),
                           denom=StrV(lit=co.get(1, b'').decode()), amount=int(co.get(2, b'0').decode() or 0),
                           to=StrV(lit=f.get(3, b'').decode()))
            return Eff('proto', sm, url=url, p=f)
        return Eff('proto', sm, url=url, p=v)

    def prost_amount(self, v):
        """an amount written as decimal text"""
        s = v.s
        if s.lit is not None:
            return int(s.lit)
        k = s.key
        n = models.text_of_num(k)
        if n is not None:
            return n
        raise SpecError(f'amount {k!r}')

    def payouts(self, effs=None):
        """(asset kind, asset id, recipient, amount) of everything paid out of the contract's own balance"""
        out = []
        for e in self.effects() if effs is None else effs:
            if e.kind == 'send':
                out.append(('native', e.denom, e.to, e.amount))
            elif e.kind in ('transfer', 'cw20_send'):
                out.append(('cw20', e.token, e.to, e.amount))
            elif e.kind == 'execute':
                for d, a in e.funds:
                    out.append(('native', d, e.contract, a))
            elif e.kind == 'burn':
                out.append(('cw20', e.token, StrV(lit='!burn'), e.amount))
        return out

    def asset_id(self, a):
        return ('native', a.denom.s) if a.variant == 'NativeToken' else ('cw20', a.contract_addr.s)

    def flow(self, flows, kind, asset, to=None):
        t = 0
        for k, a, r, n in flows:
            if k == kind:
                c = self.eq(a, asset)
                if to is not None:
                    c = And(c, self.eq(r, to))
                t = t + T.ite(c, n, 0)
        return t

    def flows_are(self, name, actual, expected, but=None):
        """both lists move the same amount of every asset to every recipient (other than `but`)"""
        if but is not None:
            actual, expected = [[(k, a, r, T.ite(self.eq(r, but), 0, n)) for k, a, r, n in l] for l in (actual, expected)]
        done = []
        for k, a, r, n in actual + expected:
            if any(k == k2 and self.eq(a, a2) is True and self.eq(r, r2) is True for k2, a2, r2 in done):
                continue
            done.append((k, a, r))
            self.ensure(f'{name} ({k} payout)', T.eq(self.flow(actual, k, a, r), self.flow(expected, k, a, r)))

    def only_messages(self, *kinds):
        bad = [e.kind for e in self.effects() if e.kind not in kinds]
        self.ensure('no other messages are emitted', not bad, note=str(bad))

    def sent(self, denom):
        """how much of a denom came with the message"""
        t = 0
        for f in self.info.funds.list:
            t = t + T.ite(self.eq(f.denom, denom), f.amount.n, 0)
        return t

    # -- facts that hold for all integers, given to the solver where it does not find them itself
    def fact_mul(self, a, b, k):
        """a * b <= a * k for naturals a and b <= k"""
        a, b, k = [models.num(self.ex, self.st, raw(x)) for x in (a, b, k)]
        self.st.assume(Or(T.lt(a, 0), T.lt(k, b), T.le(a * b, a * k)))

    def nz(self, n):
        """n, with a case split on whether it is zero"""
        return 0 if self.holds(T.eq(n, 0)) else n

    # -- obligations
    def ensure(self, name, goal, note=None, lemmas=()):
        self.goals.append((name, goal, note, tuple(lemmas)))

    def cover(self, name):
        self.run.cover(name)



class Scenario:
    def __init__(self, name, crate, fn, post, setup=None, fixed=None, err=None, split=None, covers=(), bounded=None,
                 funds=(0, 1, 2), thorough_only=False):
        self.name, self.crate, self.fn, self.post = name, crate, fn, post
        self.setup, self.fixed, self.err = setup, dict(fixed or {}), err
        self.split = split or {}
        self.covers, self.bounded, self.funds = covers, bounded, funds
        self.thorough_only = thorough_only

    def tasks(self):
        ks = list(self.split)
        for vs in itertools.product(*[self.split[k] for k in ks]):
            yield dict(zip(ks, vs))


class Run:
    """one scenario task in one process"""

    def __init__(self, sess, sc, extra, tier, seed, deadline):
        self.s, self.sc, self.tier, self.seed = sess, sc, tier, seed
        self.deadline = deadline
        self._types = {}
        self.covered = {}
        self.ex = None
        self.extra = extra
        self.failures = []
        self.stats = dict(obligations=0, discharged=0, syntactic=0, linear=0, nonlinear=0, paths=0, ok_paths=0,
                          err_paths=0, solver_s=0.0, exec_s=0.0)
        self.samples = []
        self.by_name = {}
        self.lists = {}         # lists whose length the discharged obligations depend on -> number of them
        self.json_ty, self.ans_ty, self.raw_ty = {}, {}, {}
        self.dec, self.keep = {}, []

    def find_type(self, hint):
        if isinstance(hint, int):
            return hint
        if hint is None:
            raise SpecError('type needed')
        r = self._types.get(hint)
        if r is None and re.fullmatch('[iu](8|16|32|64|128)', hint):
            for t, d in self.s._ty.items():
                if d['k'] == {'i': 'int', 'u': 'uint'}[hint[0]] and d['bits'] == int(hint[1:]):
                    self._types[hint] = t
                    return t
            raise SpecError('unknown type ' + hint)
        if r is None:
            cands = CW20 if hint in CW20 else [hint]
            crates = {c.split('::')[0] for c in cands}
            for k in crates:
                if k not in self._types:
                    self._types[k] = {}
                    for n, t in self.s.q('adts', k):
                        self._types[k].setdefault(n, t)
                        self._types[k].setdefault(k + '::' + n.rsplit('::', 1)[-1], t)
                for c in cands:
                    if c in self._types[k]:
                        r = self._types[k][c]
            if r is None:
                raise SpecError('unknown type ' + hint)
            self._types[hint] = r
        return r

    def cover(self, name):
        self.covered[name] = self.covered.get(name, 0) + 1

    def entry(self):
        r = self.s.root(self.sc.crate, self.sc.fn)
        if r is None:
            # the entry point may have been moved to another module of its crate
            last = self.sc.fn.rsplit('::', 1)[-1]
            c = [n for n in self.s.fns(self.sc.crate) if n.rsplit('::', 1)[-1] == last and '<' not in n]
            if len(c) == 1:
                r = self.s.root(self.sc.crate, c[0])
        if r is None:
            raise Unsupported(f'entry point {self.sc.crate}::{self.sc.fn} not found')
        return r

    def start(self):
        ex = self.ex = Ex(self.s, models)
        ex.deadline = self.deadline
        inst = self.entry()
        st = State()
        argv, named = [], {}
        for t in inst['sig'][0]:
            tt = self.s.ty(t)
            nm = tt.get('base', '').rsplit('::', 1)[-1]
            if nm in ('DepsMut', 'Deps'):
                f = []
                for n, ft in tt['variants'][0]['fields']:
                    c = ('env', n)
                    st.mem[c] = Opq(n)
                    f.append(Ptr(c) if self.s.ty(ft)['k'] == 'ref' else Opq(n))
                argv.append(St(t, f))
            else:
                n = {'Env': 'env', 'MessageInfo': 'info'}.get(nm, 'msg')
                v = ex.mk(t, n)
                named[n] = v
                argv.append(v)
                ex.arg_ty[n] = t
        ex.lens['info.funds'] = tuple(self.sc.funds)
        ex.fixed = dict(self.sc.fixed)
        ex.fixed.update(self.extra)
        ex.split = self.sc.split
        return ex, st, inst, argv, named

    def run(self):
        t0 = time.time()
        ex, st, inst, argv, named = self.start()
        self.args = named
        if self.sc.fn.endswith('::instantiate'):
            self.ex.presence['*'] = False         # a contract is instantiated with an empty store
        if self.sc.setup:
            self.sc.setup(Ctx(self, st, None, named))
        if 'info' in named and max(self.sc.funds) > 1:
            # the chain only passes on coins of distinct denoms
            for i, j in itertools.combinations(range(max(self.sc.funds)), 2):
                a, b = [models.strid(StrV(key=f'info.funds[{k}].denom')) for k in (i, j)]
                st.assume(T.ne(a, b))
        outs = ex.call_inst(st, inst, argv)
        self.stats['exec_s'] += time.time() - t0
        for s, v in outs:
            if v is S.PANIC or s.dead:
                continue
            self.stats['paths'] += 1
            v = ex.force(s, v) if isinstance(v, Sym) else v
            ok = isinstance(v, En) and v.v == 0
            post = self.sc.post if ok else self.sc.err
            self.stats['ok_paths' if ok else 'err_paths'] += 1
            if post is None:
                continue
            # a list of postconditions: each is proved on its own, so their case splits do not multiply
            for p in (post if isinstance(post, (list, tuple)) else (post,)):
                self.check(s.copy(), v, p)
        return self.report()

    def check(self, s, v, post):
        ex = self.ex
        todo = [s]
        while todo:
            s = todo.pop()
            s0 = s.copy()
            c = Ctx(self, s, v, self.args)
            cov = dict(self.covered)
            try:
                post(c)
            except Fork as fk:
                self.covered = cov
                for a in fk.alts:
                    s2 = s0.copy()
                    if a(s2) is not False and not s2.dead:
                        todo.append(s2)
                continue
            if time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            for name, goal, note, lemmas in c.goals:
                self.prove(s, v, name, goal, note, lemmas, post)

    def prove(self, s, v, name, goal, note, lemmas, post):
        st = self.stats
        st['obligations'] += 1
        ls = S.pc_lists(s.pcn)
        full = f'{self.sc.name}: {name}'
        self.by_name[full] = self.by_name.get(full, 0) + 1
        t0 = time.time()
        self.quick = sum(1 for f in self.failures if f['name'] == full) >= 3
        how = self.discharge(s, goal, lemmas)
        st['solver_s'] += time.time() - t0
        if DEBUG and how in (None, 'nonlinear'):
            print('DBG', how, round(time.time() - t0, 2), full, str(goal)[:400].replace('\n', ' '), flush=True)
        if how:
            st['discharged'] += 1
            st[how] += 1
            self.lists[ls] = self.lists.get(ls, 0) + 1
            if len(self.samples) < 6 and how != 'syntactic':
                self.samples.append(f'{full} :: {str(goal)[:300]}')
            return
        if sum(1 for f in self.failures if f['name'] == full) < 4 and len(self.failures) < 24:
            self.failures.append(dict(name=full, scenario=self.sc.name, goal=str(goal)[:600], note=note, st=s, v=v,
                                      g=goal, post=post, lemmas=lemmas))
        else:
            self.failures.append(dict(name=full, scenario=self.sc.name, goal='', note=note, st=None))

    def discharge(self, s, goal, lemmas=()):
        if goal is True:
            return 'syntactic'
        f = self.ex.feas
        if goal is False:
            if f.feasible(s.pcn) and s.pcn is not None:
                # make sure: the cached answer may be an 'unknown'
                f.sync(s.pcn)
                if f.s.check() != z3.unsat:
                    goal = z3.BoolVal(False)
                else:
                    return 'linear'
            elif s.pcn is None:
                return None
            else:
                return 'linear'
        f.sync(s.pcn)
        f.s.push()
        ng = Not(goal)
        extra = [ng] + [l for l in lemmas if not isinstance(l, bool)]
        ax, _ = closure_axioms(extra, skip=f.seen[-1])
        f.s.add(*ax)
        f.s.add(*extra)
        f.s.set('timeout', 700)
        r = f.s.check()
        f.s.set('timeout', 2000)
        if r != z3.unsat and not self.quick:
            nms = set(zvars(ng)) if not isinstance(ng, bool) else set()
            for l in s.pc:
                nms |= zvars(l)
            eqs = T.resolved(nms, lambda c: self.decided(s, c)) + S.same_text_axioms(nms)
            if eqs:
                ax, _ = closure_axioms(eqs, skip=f.seen[-1])
                f.s.add(*ax)
                f.s.add(*eqs)
                extra += eqs
                r = f.s.check()
        if r != z3.unsat and not self.quick:
            f.s.set('timeout', 8000)
            _, names = closure_axioms(extra, skip=f.seen[-1])
            h = T.hint_axioms(names)
            ax, _ = closure_axioms(h, skip=names)
            f.s.add(*ax)
            f.s.add(*h)
            r = f.s.check()
        f.s.set('timeout', 1500)
        f.s.pop()
        if r == z3.unsat:
            return 'linear'
        return self.nonlinear(s, goal, lemmas)

    def decided(self, s, c):
        """whether the path condition decides c"""
        k = (id(s.pcn), c.get_id())
        r = self.dec.get(k)
        if r is None:
            f = self.ex.feas
            r = [None]
            for want, x in ((True, Not(c)), (False, c)):
                so = z3.Solver()
                so.set('timeout', 300)
                ax, _ = closure_axioms([x] + s.pc)
                so.add(*ax)
                so.add(*s.pc)
                so.add(x)
                if so.check() == z3.unsat:
                    r = [want]
                    break
            self.dec[k] = r
            self.keep.append((s.pcn, c))
        return r[0]

    def nonlinear(self, s, goal, lemmas):
        if self.quick:
            return None
        lits = s.pc
        rel = relevant(lits, goal)
        for sel, to in ((rel, 4000), (lits, 6000)):
            so = z3.Solver()
            so.set('timeout', to)
            ex = list(sel) + [Not(goal)] + [l for l in lemmas if not isinstance(l, bool)]
            ax, _ = closure_axioms(ex, nonlinear=True)
            so.add(*ax)
            so.add(*ex)
            if so.check() == z3.unsat:
                return 'nonlinear'
            if len(rel) == len(lits):
                break
        return None

    # ------------------------------------------------------------ counterexamples
    def falsify(self, s, goal, budget=20.0):
        """concrete assignments that satisfy the path condition and not the goal, evaluated exactly"""
        lits = s.pc + [Not(goal)]
        t0 = time.time()
        rng = random.Random(self.seed)
        ax, names = closure_axioms(lits)
        T._sync_names()
        monos = [T.MONO_BY_NAME[n] for n in names if n in T.MONO_BY_NAME]

        def exact(m):
            a = from_model(m)
            return a if all(a.z(l) for l in lits) else None
        so = z3.Solver()
        so.set('timeout', 5000)
        so.add(*ax)
        so.add(*lits)
        r = so.check()
        if r == z3.unsat:
            return
        if r == z3.sat:
            a = exact(so.model())
            if a:
                yield a
        cnt = {}
        for m in monos:
            for i in m:
                cnt[i] = cnt.get(i, 0) + 1
        tries = 0
        while time.time() - t0 < budget:
            tries += 1
            so.push()
            so.set('timeout', 2000)
            fixed = {}
            rest = [m for m in monos if len(m) > 1]
            scale = rng.choice([3, 6, 9, 12, 18])
            while True:
                open_ = {}
                for m in rest:
                    free = [i for i in m if i not in fixed]
                    if len(free) > 1:
                        for i in free:
                            open_[i] = open_.get(i, 0) + (100 if T.ATOMS[i].kind == 'var' else 1)
                if not open_:
                    break
                i = max(open_, key=lambda j: (open_[j], rng.random()))
                a = T.ATOMS[i]
                lo, hi = max(0, int(a.lo)) if a.lo != -T.MAX else 0, int(a.hi) if a.hi != T.MAX else 2 ** 128
                k = rng.random()
                if k < 0.5:
                    v = rng.randint(1, 10 ** max(1, scale + rng.randint(-3, 3)))
                elif k < 0.7:
                    v = 10 ** rng.randint(0, scale)
                elif k < 0.85:
                    v = rng.randint(0, 20)
                else:
                    v = lo + (hi - lo) * rng.randint(0, 1000) // 1000
                fixed[i] = min(max(v, lo), hi)
            for i, v in fixed.items():
                so.add(T.ATOMS[i].z == v)
            for m in rest:
                c, free = 1, []
                for i in m:
                    if i in fixed:
                        c *= fixed[i]
                    else:
                        free.append(i)
                so.add(T.mono_z(m) == (c * T.ATOMS[free[0]].z if free else c))
            r = so.check()
            if r == z3.sat:
                a = exact(so.model())
                if a:
                    yield a
            so.pop()

    def scenario_json(self, s, asg):
        """the concrete scenario of an assignment, in the format of the replay harness (plus what the spec needs)"""
        ex = self.ex
        cc = Conc(ex, s, asg)
        out = dict(contract=self.sc.crate, entry=self.sc.fn.rsplit('::', 1)[-1], storage=[], queries=[])
        for n, v in self.args.items():
            out[n] = to_json(ex, ex.arg_ty[n], cc.val(v))
        out.setdefault('info', {'sender': 'x', 'funds': []})
        out.setdefault('env', {})
        for ns, l in s.pre.items():
            if ns.endswith('@h'):
                n, kt = ns[:-2], ex.key_ty.get(ns[:-2])
                c = ex.chlg_ns.get(n)
                if c is None:
                    continue
                for k, v in l:
                    leaves = [asg.poly(x) for x in k[1]]
                    part = raw_key(ex, n, leaves[:-1])[2 + len(n.encode()):] if kt is not None else None
                    rk = enc_key(c, ([part] if part is not None else []) + [int(leaves[-1]).to_bytes(8, 'big')])
                    v = None if v is None else to_json(ex, ex.val_ty[n], cc.val(v))
                    out['storage'].append([rk.hex(), json.dumps({'old': v}).encode().hex()])
                continue
            for k, v in l:
                if v is models.UNREAD or v is None:
                    continue
                leaves = [asg.poly(x) for x in k[1]]
                v = cc.val(v)
                rk = raw_key(ex, ns, leaves)
                out['storage'].append([rk.hex(), json.dumps(to_json(ex, ex.val_ty[ns], v)).encode().hex()])
        for nm, (key, ty, req, v) in s.queries.items():
            q, wrap = self.request_json(cc, req)
            if v is None:
                out['queries'].append([q, {'err': 'failed'}])
            elif wrap and req[0] == 'wasm_raw':
                out['queries'].append([q, {'raw': b64(bytes_of(ex, cc.val(v.f[0])) if v.f else b'')}])
            else:
                j = to_json(ex, ty, cc.val(v))
                if wrap:
                    out['queries'].append([q, {'raw': '' if j is None else b64(json.dumps(j).encode())}])
                else:
                    out['queries'].append([q, {'ok': j}])
        return out

    def request_json(self, cc, req):
        ex = self.ex
        if isinstance(req, tuple):
            if req[0] == 'rawquery':
                _, ns, remote, k = req
                leaves = [cc.a.poly(x) for x in k[1]]
                key = raw_key(ex, ns, leaves) if leaves else ns.encode()
                return {'wasm': {'raw': {'contract_addr': cc.val(remote).lit, 'key': b64(key)}}}, True
            _, a, k = req
            return {'wasm': {'raw': {'contract_addr': cc.val(a).lit, 'key': b64(bytes_of(ex, cc.val(k)))}}}, True
        r = cc.val(req)
        j = to_json(ex, r.ty, r)
        try:
            m = j['wasm']['smart']
            import base64
            m['msg'] = json.loads(base64.b64decode(m['msg']))
        except (KeyError, TypeError):
            pass
        return strip_null(j), False

    def report(self):
        b = {n for n, _ in self.ex.bounded}
        self.stats['bounded'] = sum(k for l, k in self.lists.items() if l & b)
        return dict(stats=self.stats, covered=self.covered, by_name=self.by_name, samples=self.samples,
                    inlined=sorted(self.ex.inlined), models=sorted(self.ex.used_models),
                    bounded=sorted((a, list(b)) for a, b in self.ex.bounded), feas=self.ex.feas.checks,
                    merged=self.ex.merged, policies=dict((k, list(v)) for k, v in self.ex.variants_policy.items()))


def strip_null(j):
    if isinstance(j, dict):
        return {k: strip_null(v) for k, v in j.items() if v is not None}
    if isinstance(j, list):
        return [strip_null(x) for x in j]
    return j


def relevant(lits, goal):
    """the path literals that share variables (transitively, one step) with the goal"""
    if not isinstance(goal, z3.ExprRef):
        return lits
    _, want = closure_axioms([goal])
    out = []
    for l in lits:
        if zvars(l) & want:
            out.append(l)
    return out


class CCtx(Ctx):
    """the same specification evaluated on a concrete run of the real contract"""
    concrete = True

    def __init__(self, run, sc, res):
        st = State()
        ex = run.ex
        args = {n: from_json(ex, ex.arg_ty[n], sc[n]) for n in ex.arg_ty}
        ret = None
        rt = ex.ty(run.entry()['sig'][1])
        if 'ok' in res:
            ret = En(run.entry()['sig'][1], 0, [from_json(ex, rt['args'][0], res['ok'])])
        else:
            ret = En(run.entry()['sig'][1], 1, [Opq('err', res.get('err') or res.get('panic'))])
        super().__init__(run, st, ret, args)
        self.pre_raw = {bytes.fromhex(k): bytes.fromhex(v) for k, v in sc['storage']}
        self.post_raw = {bytes.fromhex(k): bytes.fromhex(v) for k, v in res['storage']}
        self.q = sc['queries']

    def _get(self, db, ns, key, ty):
        k, ty = self.key(key), self.vty(ns, ty)
        rk = raw_key(self.ex, ns, list(k[1]))
        b = db.get(rk)
        return None if b is None else V(self, from_json(self.ex, ty, json.loads(b)))

    def pre(self, ns, key=(), ty=None): return self._get(self.pre_raw, ns, key, ty)
    def post(self, ns, key=(), ty=None): return self._get(self.post_raw, ns, key, ty)

    def holds(self, c):
        if isinstance(c, bool):
            return c
        return Assign().z(c)

    def fact_mul(self, a, b, k): pass
    def nz(self, n): return n

    def raw_map(self, contract, ns, key, ty):
        want = raw_key(self.ex, ns, list(self.key(key)[1]))
        for q, a in self.q:
            try:
                w = q['wasm']['raw']
                if w['contract_addr'] == raw(contract).lit and base64.b64decode(w['key']) == want:
                    b = base64.b64decode(a.get('raw', ''))
                    return V(self, from_json(self.ex, self.types(ty) if isinstance(ty, str) else ty, json.loads(b))) if b else None
            except (KeyError, TypeError):
                pass
        return None

    def chlg(self, db, ns, key):
        """changelog entries of a key: {height: old value}"""
        c = self.ex.chlg_ns.get(ns)
        if c is None:
            raise SpecError('changelog of ' + ns)
        k = self.key(key)
        rk = raw_key(self.ex, ns, list(k[1])) if k[1] else b''
        part = rk[2 + len(ns.encode()):] if k[1] else b''
        n = c.encode()
        pre = len(n).to_bytes(2, 'big') + n + ((len(part).to_bytes(2, 'big') + part) if k[1] else b'')
        out = {}
        for x, v in db.items():
            if x.startswith(pre) and len(x) == len(pre) + 8:
                out[int.from_bytes(x[-8:], 'big')] = json.loads(v).get('old')
        return out

    def snapped(self, ns, key, height):
        a, b = self.chlg(self.pre_raw, ns, key), self.chlg(self.post_raw, ns, key)
        return height in b and all(h == height for h in b if h not in a)

    def at(self, ns, key, height):
        l = self.chlg(self.pre_raw, ns, key)
        hs = [h for h in l if h >= height]
        if not hs:
            return self.pre(ns, key)
        v = l[min(hs)]
        return None if v is None else V(self, from_json(self.ex, self.ex.val_ty[ns], v))

    def scan_(self, ns, pre, lo, hi, desc, limit, uid):
        ws = key_parts(self.ex, self.ex.key_ty[ns])
        ty = self.vty(ns, None)

        bound = [None if b is None else (b[0], raw_leaves(ws[len(pre):], b[1])) for b in (lo, hi)]
        want = raw_leaves(ws, pre)
        out = []
        for k, v in self.pre_raw.items():
            l = split_key(ns, ws, k)
            if l is None or l[:len(want)] != want:
                continue
            x = l[len(want):]
            if bound[0] and not (x[:len(bound[0][1])] >= bound[0][1] if bound[0][0] else x[:len(bound[0][1])] > bound[0][1]):
                continue
            if bound[1] and not (x[:len(bound[1][1])] <= bound[1][1] if bound[1][0] else x[:len(bound[1][1])] < bound[1][1]):
                continue
            out.append((x, v))
        out.sort(key=lambda e: e[0], reverse=desc)
        return [(tuple(int.from_bytes(b, 'big') if w is not None else StrV(lit=b.decode()) for b, w in zip(x, ws[len(pre):])),
                 V(self, from_json(self.ex, ty, json.loads(v)))) for x, v in out[:limit]]

    def written(self, skip=()):
        out = set()
        for k in set(self.pre_raw) | set(self.post_raw):
            if self.pre_raw.get(k) != self.post_raw.get(k):
                out.add(self.ns_of_raw(k))
        return out

    def ns_of_raw(self, k):
        for ns in self.ex.val_ty:
            if k == ns.encode():
                return ns
            n = ns.encode()
            if k.startswith(len(n).to_bytes(2, 'big') + n):
                return ns
        n = int.from_bytes(k[:2], 'big')
        if 0 < n < len(k) - 1:
            try:
                ns = k[2:2 + n].decode()
                return ns.split('__')[0]
            except UnicodeDecodeError:
                pass
        return k.decode('utf8', 'replace')

    def only_keys(self, ns, keys):
        want = {raw_key(self.ex, ns, list(self.key(k)[1])) for k in keys}
        self.ensure(f'{ns}: no other entry changes', set(self.written_keys(ns)) <= want)

    def written_keys(self, ns):
        return [k for k in set(self.pre_raw) | set(self.post_raw)
                if self.pre_raw.get(k) != self.post_raw.get(k) and self.ns_of_raw(k) == ns]

    def requests(self):
        out = []
        for q, a in self.q:
            if 'raw' in a:
                out += self.creq(q, a['raw'], True)
            if 'ok' in a:
                out += self.creq(q, a['ok'])
            elif 'err' in a and 'smart' in q.get('wasm', {}):
                w = q['wasm']['smart']
                out.append(Eff('smart', contract=StrV(lit=w['contract_addr']), msg=V(self, Opq('rawjson', w['msg'])), answer=None))
        return out

    def typed_answer(self, m, a):
        if isinstance(m, dict) and len(m) == 1:
            for ty in self.run.ans_ty.get(camel(list(m)[0]), ()):
                try:
                    return V(self, from_json(self.ex, ty, a))
                except Exception:
                    pass
        return LazyJ(self, a)

    def creq(self, q, a, raw=False):
        try:
            if raw:
                w = q['wasm']['raw']
                k = base64.b64decode(w['key'])
                for ty in self.run.raw_ty.get(k, ()):
                    try:
                        return [Eff('raw', contract=StrV(lit=w['contract_addr']), key=k, answer=V(self, from_json(self.ex, ty, json.loads(base64.b64decode(a)))))]
                    except Exception:
                        pass
                return []
            if 'bank' in q and 'balance' in q['bank']:
                b = q['bank']['balance']
                return [Eff('bank', address=StrV(lit=b['address']), denom=StrV(lit=b['denom']),
                            answer=V(self, from_json(self.ex, self.types('cosmwasm_std::BalanceResponse'), a)))]
            if 'bank' in q and 'supply' in q['bank']:
                return [Eff('supply', denom=StrV(lit=q['bank']['supply']['denom']),
                            answer=V(self, from_json(self.ex, self.types('cosmwasm_std::SupplyResponse'), a)))]
            if 'wasm' in q and 'smart' in q['wasm']:
                w = q['wasm']['smart']
                return [Eff('smart', contract=StrV(lit=w['contract_addr']), msg=V(self, Opq('rawjson', w['msg'])),
                            answer=self.typed_answer(w['msg'], a))]
        except (SpecError, Unsupported):
            pass
        return []


def camel(s):
    return ''.join(x.capitalize() for x in s.split('_'))


class LazyJ:
    """an answer whose type is recovered from the scenario by the field asked for"""

    def __init__(self, c, j):
        self.c, self.j = c, j

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return LazyJ(self.c, self.j[n])

    @property
    def n(self): return dec_int(self.j) if '.' in str(self.j) else int(self.j)
    @property
    def s(self): return StrV(lit=self.j)
    @property
    def b(self): return bool(self.j)
    @property
    def some(self): return None if self.j is None else self
    @property
    def list(self): return [LazyJ(self.c, x) for x in self.j]

"""Concrete counterpart of symbolic values: evaluation under an assignment, serde JSON and storage-key encodings, used to
replay counterexamples against the real contracts and to evaluate the same specifications on what they did."""
import base64
import json
import re
import z3
from sym import *
import sym as S
import term as T


def unstr(i):
    for k, v in S._STRID.items():
        if v == i:
            return k
    return None


class Assign:
    """integer/boolean values of all variables (from a z3 model), with derived terms computed exactly"""

    def __init__(self, ints=None, bools=None, default=None):
        self.ints = ints or {}
        self.bools = bools or {}
        self.memo = {}
        self._texts = None
        self.default = default or (lambda a: max(0, int(a.lo)) if a.lo != -T.MAX else 0)

    def atom(self, ix):
        r = self.memo.get(ix)
        if r is not None:
            return r
        a = T.ATOMS[ix]
        if a.kind == 'var':
            r = self.ints.get(a.name)
            if r is None:
                if a.name.startswith('str:'):
                    r = 10 ** 6 + ix
                else:
                    r = self.default(a)
        elif a.kind == 'div':
            n, d = self.poly(a.args[0]), self.poly(a.args[1])
            r = n // d if d else 0
        elif a.kind == 'sqrt':
            import math
            r = math.isqrt(max(0, self.poly(a.args[0])))
        elif a.kind == 'ite':
            r = self.poly(a.args[1]) if self.z(a.args[0]) else self.poly(a.args[2])
        else:
            r = self.ints.get(a.z.decl().name(), 0)
        self.memo[ix] = r
        return r

    def poly(self, p):
        if isint(p):
            return p
        t = 0
        for m, c in p.t.items():
            for i in m:
                c *= self.atom(i)
            t += c
        return t

    def z(self, e):
        """value of a z3 expression over our variables"""
        if isinstance(e, bool):
            return e
        k = e.decl().kind()
        ch = e.children
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_NOT:
            return not self.z(e.arg(0))
        if k == z3.Z3_OP_AND:
            return all(self.z(x) for x in ch())
        if k == z3.Z3_OP_OR:
            return any(self.z(x) for x in ch())
        if k == z3.Z3_OP_EQ:
            return self.z(e.arg(0)) == self.z(e.arg(1))
        if k == z3.Z3_OP_ITE:
            return self.z(e.arg(1)) if self.z(e.arg(0)) else self.z(e.arg(2))
        if k == z3.Z3_OP_IMPLIES:
            return (not self.z(e.arg(0))) or self.z(e.arg(1))
        if k == z3.Z3_OP_ANUM:
            return e.as_long()
        if k == z3.Z3_OP_ADD:
            return sum(self.z(x) for x in ch())
        if k == z3.Z3_OP_MUL:
            r = 1
            for x in ch():
                r *= self.z(x)
            return r
        if k == z3.Z3_OP_SUB:
            r = self.z(e.arg(0))
            for x in ch()[1:]:
                r -= self.z(x)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self.z(e.arg(0))
        if k == z3.Z3_OP_GE:
            return self.z(e.arg(0)) >= self.z(e.arg(1))
        if k == z3.Z3_OP_LE:
            return self.z(e.arg(0)) <= self.z(e.arg(1))
        if k == z3.Z3_OP_GT:
            return self.z(e.arg(0)) > self.z(e.arg(1))
        if k == z3.Z3_OP_LT:
            return self.z(e.arg(0)) < self.z(e.arg(1))
        if k == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if e.sort() == z3.BoolSort():
                return self.bools.get(n, False)
            T._sync_names()
            if n in T.MONO_BY_NAME:
                r = 1
                for i in T.MONO_BY_NAME[n]:
                    r *= self.atom(i)
                return r
            ix = T._NAME_ATOM.get(n)
            return self.atom(ix) if ix is not None else self.ints.get(n, 0)
        raise Unsupported(f'zeval {e}')

    def string(self, key):
        if isinstance(key, tuple) and key:
            if key[0] == 'cat':
                return ''.join(p[1] if p[0] == 'l' else self.string(p[1]) for p in key[1])
            if key[0] == 'int':
                return str(self.poly(key[1]))
            if key[0] == 'dec18':
                return dec_str(self.poly(key[1]))
        i = self.poly(strid(StrV(key=key)))
        if i < 0:
            s = unstr(i)
            return s if s is not None else f'neg{-i}'
        return self.texts().get(i) or name_of(i)

    def texts(self):
        """texts of a required form: with a number of parts, or not a valid address"""
        if self._texts is None:
            self._texts = t = {}
            for n, v in self.bools.items():
                if n.startswith('addr_valid:') and not v and n[11:] in _by_repr():
                    t[self.poly(strid(_by_repr()[n[11:]]))] = None
            t = {i: 'invalid' + name_of(i) for i in t if i >= 0}
            for n, (key, sep) in S.SPLITS.items():
                k = self.ints.get('ch:' + n)
                if k is None or k < 2:
                    continue
                i = self.poly(strid(StrV(key=key)))
                if i < 0:
                    continue
                parts = [self.string(('part', key, sep, j)) for j in range(k)]
                r = repr(strid(StrV(key=key)))
                for m in self.bools:
                    if m.startswith('starts_with:' + r + ':') and self.bools[m]:
                        lit = m[len('starts_with:' + r + ':'):]
                        lit = unstr(int(lit)) if lit.lstrip('-').isdigit() else None
                        if lit and sep not in lit:
                            parts[0] = lit + ('' if k > 2 else 'x')
                if k > 2:
                    parts[2] = name_of(i)
                t[i] = sep.join(parts)
            self._texts = t
        return self._texts


_REPR = {}


def _by_repr():
    if len(_REPR) != len(S._STRKEY):
        for v in S._STRKEY.values():
            _REPR[repr(strid(v))] = v
    return _REPR


def name_of(i):
    """text standing for a number: letters only, ordered like the numbers"""
    d = ''
    while i:
        i, r = divmod(i, 26)
        d = chr(97 + r) + d
    return 'str' + chr(97 + len(d)) + d


def from_model(m):
    ints, bools = {}, {}
    for d in m.decls():
        v = m[d]
        if z3.is_int_value(v):
            ints[d.name()] = v.as_long()
        elif z3.is_true(v) or z3.is_false(v):
            bools[d.name()] = z3.is_true(v)
    return Assign(ints, bools)


class Conc:
    """a symbolic state evaluated under an assignment"""

    def __init__(self, ex, st, asg):
        self.ex, self.st, self.a = ex, st, asg

    def choice(self, name, total):
        c = self.st.choices.get(name)
        if c is not None:
            return int(c)
        if total == 2:
            return 1 if self.a.bools.get('ch:' + str(name), False) else 0
        n = 'ch:' + str(name)
        v = self.a.ints.get(n, 0)
        return v if 0 <= v < total else 0

    def val(self, v):
        ex = self.ex
        if isbool(v):
            return self.a.z(v)
        if isint(v):
            return v
        if isinstance(v, Poly):
            return self.a.poly(v)
        if isinstance(v, StrV):
            return v if v.lit is not None else StrV(lit=self.a.string(v.key))
        if isinstance(v, St):
            return St(v.ty, [self.val(x) for x in v.f])
        if isinstance(v, En):
            return En(v.ty, v.v, [self.val(x) for x in v.f])
        if isinstance(v, VecT):
            return self.sym(Sym(v.ty, v.name))
        if isinstance(v, VecV):
            return VecV([self.val(x) for x in v.e])
        if isinstance(v, Ptr):
            return self.val(ex.load(self.st, v))
        if isinstance(v, Opq):
            if v.tag in ('json', 'proto'):
                return Opq(v.tag, self.val(v.a))
            if v.tag == 'symbin':
                ty = ex.symbin_ty.get(v.a)
                if ty is not None and self.a.bools.get('parses:' + v.a + '.json', True):
                    return Opq('json', self.val(ex.mk(ty, v.a + '.json')))
                ity = ex.symbin_inst.get(v.a)
                if ity is not None and self.a.bools.get('parses:' + v.a, True):
                    a = self.val(ex.mk(ity, v.a + '.inst')).f[0].lit.encode()
                    return Opq('raw', bytes([10, len(a)]) + a)
                ity = ex.symbin_pb.get(v.a)
                if ity is not None and self.a.bools.get('parses:' + v.a, True):
                    # messages of one text field
                    a = self.val(ex.mk(ity, v.a + '.proto')).f[0].lit.encode()
                    return Opq('raw', bytes([10, len(a)]) + a)
                return Opq('raw', b'')
            return v
        if isinstance(v, Sym):
            return self.sym(v)
        if isinstance(v, Fn) or v is UNINIT:
            return v
        raise Unsupported(f'concretise {v!r}')

    def sym(self, v):
        ex = self.ex
        t = ex.ty(v.ty)
        if t['k'] in ('ref', 'ptr'):
            return self.val(ex.mk(t['ty'], v.name + '*'))
        if t['kind'] == 'enum':
            n = len(t['variants'])
            c = self.choice(v.name, n)
            vr = t['variants'][c]
            return En(v.ty, c, [self.val(ex.mk(ft, f'{v.name}.{vr["name"]}.{fn}')) for fn, ft in vr['fields']])
        b = t['base']
        if b in ('std::vec::Vec', 'std::collections::VecDeque'):
            n = self.choice('len:' + v.name, 10 ** 9)
            return VecV([self.val(ex.mk(t['args'][0], f'{v.name}[{i}]')) for i in range(n)])
        if b in ('std::collections::HashMap', 'std::collections::HashSet'):
            n = self.choice('len:' + v.name, 10 ** 9)
            ks = [self.val(ex.mk(t['args'][0], f'{v.name}.key[{i}]')) for i in range(n)]
            if b.endswith('Map'):
                ks = [St('kv', [k, self.val(ex.mk(t['args'][1], f'{v.name}.val[{i}]'))]) for i, k in enumerate(ks)]
            return St(v.ty, [VecV(ks)])
        if b == 'std::collections::BTreeMap':
            return St(v.ty, [VecV([])])
        return self.val(ex.force(self.st, v))


# ------------------------------------------------------------------ serde
def snake(n):
    return re.sub(r'(?<!^)([A-Z])', lambda m: '_' + m.group(1), n).lower()


# enums that serialise their variants as written
AS_WRITTEN = set()


def vname(t, i):
    n = t['variants'][i]['name']
    return n if t['base'] in AS_WRITTEN else snake(n)


def is_uint(b):
    return re.match(r'cosmwasm_std::math::u?int(64|128|256|512)::', b) is not None


def is_dec(b):
    return re.match(r'cosmwasm_std::math::(signed_)?decimal(_?256)?::', b) is not None


def intof(v):
    while isinstance(v, St):
        v = v.f[0]
    return v


def dec_str(n):
    s = '-' if n < 0 else ''
    n = abs(n)
    a, b = divmod(n, 10 ** 18)
    return s + str(a) + (('.' + f'{b:018d}'.rstrip('0')) if b else '')


def dec_int(s):
    neg = s.startswith('-')
    a, _, b = s.lstrip('-').partition('.')
    n = int(a) * 10 ** 18 + int((b + '0' * 18)[:18])
    return -n if neg else n


STRS = ('std::string::String', 'cosmwasm_std::addresses::Addr')


def to_json(ex, ty, v):
    t = ex.ty(ty)
    k = t['k']
    if k in ('uint', 'int'):
        return v if t['bits'] <= 64 else str(v)
    if k == 'bool':
        return bool(v)
    if k == 'str':
        return v.lit
    if k in ('ref', 'ptr'):
        return to_json(ex, t['ty'], v)
    if k == 'tuple':
        if not t['tys']:
            return None
        return [to_json(ex, x, y) for x, y in zip(t['tys'], v.f)]
    if k in ('array', 'slice'):
        return [to_json(ex, t['ty'], x) for x in v.e]
    if k != 'adt':
        raise Unsupported('to_json ' + k)
    b = t['base']
    if b == 'std::string::String':
        return v.lit
    if is_uint(b):
        return str(intof(v))
    if is_dec(b):
        return dec_str(intof(v))
    if b in ('std::vec::Vec', 'std::collections::VecDeque'):
        if isinstance(v, StrV):
            return list(v.lit.encode())
        return [to_json(ex, t['args'][0], x) for x in v.e]
    if b == 'std::option::Option':
        return None if v.v == 0 else to_json(ex, t['args'][0], v.f[0])
    if b == 'std::boxed::Box':
        return to_json(ex, t['args'][0], v.f[0])
    if b == 'cosmwasm_std::binary::Binary':
        x = v.f[0] if isinstance(v, St) else v
        return b64(bytes_of(ex, x))
    if b == 'astroport::uints::U256':
        return str(intof(v))
    if b in ('std::collections::HashMap', 'std::collections::BTreeMap'):
        return {str(to_json(ex, t['args'][0], kv.f[0])): to_json(ex, t['args'][1], kv.f[1]) for kv in v.f[0].e}
    if b in ('std::collections::HashSet', 'std::collections::BTreeSet'):
        return [to_json(ex, t['args'][0], x) for x in v.f[0].e]
    if t['kind'] == 'enum':
        vr = t['variants'][v.v]
        n = vname(t, v.v)
        if vr['unit']:
            return n
        fs = vr['fields']
        if all(f[0].isdigit() for f in fs) and fs:
            if len(fs) == 1:
                return {n: to_json(ex, fs[0][1], v.f[0])}
            return {n: [to_json(ex, f[1], x) for f, x in zip(fs, v.f)]}
        return {n: {f[0]: to_json(ex, f[1], x) for f, x in zip(fs, v.f)}}
    fs = t['variants'][0]['fields']
    if fs and all(f[0].isdigit() for f in fs):
        if len(fs) == 1:
            return to_json(ex, fs[0][1], v.f[0])
        return [to_json(ex, f[1], x) for f, x in zip(fs, v.f)]
    out = {}
    for f, x in zip(fs, v.f):
        if 'PhantomData' in ex.ty(f[1]).get('base', ''):
            continue
        n = f[0][2:] if f[0].startswith('r#') else f[0]
        if ex.ty(f[1]).get('base') == 'std::collections::HashMap' and ex.base(ex.ty(f[1])['args'][0]) not in STRS:
            continue        # #[serde(skip)]: no JSON for such maps
        out[n] = to_json(ex, f[1], x)
    return out


def tyof(ex, v):
    """type of a frozen value that carries it"""
    return getattr(v, 'ty', None)


def bytes_of(ex, x):
    if isinstance(x, Opq):
        if x.tag == 'json':
            a = x.a
            if isinstance(a, StrV):
                return json.dumps(a.lit).encode()
            if isint(a):
                return json.dumps(a).encode()
            if isbool(a):
                return json.dumps(a).encode()
            if isinstance(a, VecV):
                return json.dumps([json.loads(bytes_of(ex, Opq('json', y))) for y in a.e]).encode()
            return json.dumps(to_json(ex, a.ty, a)).encode()
        if x.tag == 'raw':
            return x.a
        if x.tag == 'rawjson':
            return json.dumps(x.a).encode()
        raise Unsupported('bytes of ' + x.tag)
    if isinstance(x, VecV):
        return bytes(x.e)
    if isinstance(x, StrV) and x.lit is not None:
        return x.lit.encode()
    raise Unsupported(f'bytes of {x!r}')


def b64(b):
    return base64.b64encode(b).decode()


def from_json(ex, ty, j):
    t = ex.ty(ty)
    k = t['k']
    if k in ('uint', 'int'):
        return int(j)
    if k == 'bool':
        return bool(j)
    if k == 'str':
        return StrV(lit=j)
    if k in ('ref', 'ptr'):
        return from_json(ex, t['ty'], j)
    if k == 'tuple':
        if not t['tys']:
            return St(ty, [])
        return St(ty, [from_json(ex, x, y) for x, y in zip(t['tys'], j)])
    if k in ('array', 'slice'):
        return VecV([from_json(ex, t['ty'], x) for x in j])
    if k != 'adt':
        raise Unsupported('from_json ' + k)
    b = t['base']
    if b == 'std::string::String':
        return StrV(lit=j)
    if is_uint(b):
        return _num(ex, ty, int(j))
    if is_dec(b):
        return _num(ex, ty, dec_int(j))
    if b in ('std::vec::Vec', 'std::collections::VecDeque'):
        if ex.ty(t['args'][0])['k'] == 'uint' and ex.ty(t['args'][0])['bits'] == 8:
            return StrV(lit=bytes(j).decode('utf8', 'replace'))
        return VecV([from_json(ex, t['args'][0], x) for x in j])
    if b == 'std::option::Option':
        return En(ty, 0, []) if j is None else En(ty, 1, [from_json(ex, t['args'][0], j)])
    if b == 'std::boxed::Box':
        return St(ty, [from_json(ex, t['args'][0], j)])
    if b == 'cosmwasm_std::binary::Binary':
        raw = base64.b64decode(j)
        try:
            return St(ty, [Opq('rawjson', json.loads(raw))])
        except ValueError:
            return St(ty, [Opq('raw', raw)])
    if b == 'astroport::uints::U256':
        return _num(ex, ty, int(j))
    if b in ('std::collections::HashMap', 'std::collections::BTreeMap'):
        return St(ty, [VecV([St('kv', [from_json(ex, t['args'][0], x), from_json(ex, t['args'][1], y)]) for x, y in j.items()])])
    if t['kind'] == 'enum':
        if isinstance(j, str):
            n, body = j, None
        else:
            (n, body), = j.items()
        for i, vr in enumerate(t['variants']):
            if vname(t, i) == n:
                fs = vr['fields']
                if not fs:
                    return En(ty, i, [])
                if all(f[0].isdigit() for f in fs):
                    if len(fs) == 1:
                        return En(ty, i, [from_json(ex, fs[0][1], body)])
                    return En(ty, i, [from_json(ex, f[1], x) for f, x in zip(fs, body)])
                return En(ty, i, [_field(ex, f[1], body, f[0]) for f in fs])
        raise Unsupported(f'variant {n} of {b}')
    fs = t['variants'][0]['fields']
    if fs and all(f[0].isdigit() for f in fs):
        if len(fs) == 1:
            return St(ty, [from_json(ex, fs[0][1], j)])
        return St(ty, [from_json(ex, f[1], x) for f, x in zip(fs, j)])
    return St(ty, [_field(ex, f[1], j, f[0]) for f in fs])


def _field(ex, ty, j, n):
    n = n[2:] if n.startswith('r#') else n
    if n not in j or j[n] is None:
        b = ex.base(ty)
        if b == 'std::option::Option':
            return En(ty, 0, [])
        if b == 'std::vec::Vec':
            return VecV([])
        if b == 'bool':
            return False
        if b == 'std::collections::HashMap':
            return St(ty, [VecV([])])
        if b == 'std::marker::PhantomData':
            return St(ty, [])
        if j.get(n) is None and n in j and ex.ty(ty)['k'] == 'tuple':
            return St(ty, [])
        raise Unsupported(f'missing field {n}')
    return from_json(ex, ty, j[n])


def _num(ex, ty, n):
    if ex.base(ty) in S.BIGNUM:
        return St(ty, [n])
    f = ex.ty(ty)['variants'][0]['fields'][0][1]
    return St(ty, [n if ex.ty(f)['k'] in ('uint', 'int') else _num(ex, f, n)])


# ------------------------------------------------------------------ storage keys
def key_parts(ex, kty):
    """byte widths (None: string) of the leaves of a key type"""
    t = ex.ty(kty)
    k = t['k']
    if k in ('ref', 'ptr'):
        return key_parts(ex, t['ty'])
    if k == 'tuple':
        return [x for y in t['tys'] for x in key_parts(ex, y)]
    if k in ('uint', 'int'):
        return [t['bits'] // 8]
    if k == 'adt' and is_uint(t['base']):
        return [int(re.search(r'(64|128|256|512)', t['base']).group(1)) // 8]
    return [None]


def enc_key(ns, parts):
    """raw storage key of Map entry ns/parts (bytes)"""
    n = ns.encode()
    if not parts:
        return n
    out = len(n).to_bytes(2, 'big') + n
    for p in parts[:-1]:
        out += len(p).to_bytes(2, 'big') + p
    return out + parts[-1]


def raw_key(ex, ns, leaves):
    """leaves: concrete ints / str"""
    kty = ex.key_ty.get(ns)
    if kty is None:
        return enc_key(ns, [])
    parts = list(raw_leaves(key_parts(ex, kty), leaves))
    return enc_key(ns, parts)


# ------------------------------------------------------------------ protobuf (the few messages the contracts send)
def pb_fields(b):
    i = 0
    out = []

    def varint():
        nonlocal i
        r = s = 0
        while True:
            x = b[i]
            i += 1
            r |= (x & 127) << s
            s += 7
            if x < 128:
                return r
    while i < len(b):
        t = varint()
        if t & 7 == 0:
            out.append((t >> 3, varint()))
        elif t & 7 == 2:
            n = varint()
            out.append((t >> 3, b[i:i + n]))
            i += n
        else:
            raise Unsupported('protobuf')
    return out


def raw_leaves(ws, leaves):
    """the components of a key as they are stored"""
    out = []
    for w, l in zip(ws, leaves):
        if isinstance(l, str):
            out.append(l.encode())
        elif w is None:
            s = unstr(l) if l < 0 else None
            out.append((s if s is not None else (name_of(l) if l >= 0 else f'neg{-l}')).encode())
        else:
            out.append(int(l).to_bytes(w, 'big'))
    return tuple(out)


def split_key(ns, ws, k):
    """components of a raw storage key of a map, or None"""
    n = ns.encode()
    p = len(n).to_bytes(2, 'big') + n
    if not k.startswith(p):
        return None
    k = k[len(p):]
    out = []
    for w in ws[:-1]:
        if len(k) < 2:
            return None
        m = int.from_bytes(k[:2], 'big')
        if len(k) < 2 + m:
            return None
        out.append(k[2:2 + m])
        k = k[2 + m:]
    return tuple(out + [k])

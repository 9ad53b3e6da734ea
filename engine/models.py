"""Contracts assumed for library functions (std, cosmwasm-std, cw-storage-plus, ...): the trusted base of the
executor.  Everything not listed here is executed from its MIR."""
import re
from sym import *
from sym import PANIC
import term as T

EXACT = {}      # norm -> f
METH = {}       # (method) -> [(self regex, trait regex or None, f)]
USED = set()


def M(*norms):
    def d(f):
        for n in norms:
            EXACT[n] = f
        return f
    return d


def R(methods, slf='.*', tr='.*'):
    def d(f):
        for m in methods.split():
            METH.setdefault(m, []).append((re.compile(slf + r'\Z'), re.compile(tr + r'\Z'), f))
        return f
    return d


_split_cache = {}


def split(norm):
    """(self type, trait or '', method)"""
    r = _split_cache.get(norm)
    if r is None:
        r = _split(norm)
        _split_cache[norm] = r
    return r


def _match(s, i):
    d = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
            if d == 0:
                return i
        i += 1
    return -1


def _split(n):
    k = n.find('<impl ')
    if k >= 0 and (k == 0 or n[k - 1] == ':'):
        e = _match(n, k)
        inner, meth = n[k + 6:e], n[e + 3:]
        d = 0
        p = -1
        for i in range(len(inner)):
            if inner[i] in '<[(':
                d += 1
            elif inner[i] in '>])' and inner[i - 1] != '-':
                d -= 1
            elif d == 0 and inner.startswith(' for ', i):
                p = i
                break
        if p >= 0:
            return inner[p + 5:], inner[:p], meth
        return inner, '', meth
    if n.startswith('<'):
        e = _match(n, 0)
        inner, meth = n[1:e], n[e + 3:]
        d = 0
        for i in range(len(inner)):
            if inner[i] in '<[(':
                d += 1
            elif inner[i] in '>])' and inner[i - 1] != '-':
                d -= 1
            elif d == 0 and inner.startswith(' as ', i):
                return inner[:i], inner[i + 4:], meth
        return inner, '', meth
    a, _, m = n.rpartition('::')
    return a, '', m


def lookup(ex, inst):
    n = inst['norm']
    f = EXACT.get(n)
    if f is None and n.startswith('osmosis_std::types::') and n.endswith('for cosmwasm_std::results::cosmos_msg::CosmosMsg>::from'):
        f = _tf_from
    if f is None:
        s, t, m = split(n)
        for rs, rt, g in METH.get(m, ()):
            if rs.match(s) and rt.match(t):
                f = g
                break
    if f is None and inst['kind'] == 'intrinsic' or (f is None and inst.get('intr')):
        f = INTR.get(inst.get('intr') or n.rsplit('::', 1)[-1])
    if f is not None:
        ex.used_models.add(n)
    return f


# ------------------------------------------------------------------ helpers
def rty(inst):
    return inst['sig'][1]


def variant(ex, ty, name):
    for i, v in enumerate(ex.ty(ty)['variants']):
        if v['name'] == name:
            return i
    raise Unsupported(f'no variant {name}')


def mkv(ex, ty, name, *f):
    return En(ty, variant(ex, ty, name), f)


def Ok(ex, inst, v): return mkv(ex, rty(inst), 'Ok', v)


def Err(ex, inst, what='err'):
    """an error value of the declared error type, as an opaque token"""
    return mkv(ex, rty(inst), 'Err', Opq('err', what))


def unit(): return St(None, [])


def num(ex, st, v):
    v = ex.deref(st, v)
    while isinstance(v, St):
        v = ex.deref(st, v.f[0])
    if isbool(v):
        return ite(v, 1, 0)
    if not (isint(v) or isinstance(v, Poly)):
        raise Unsupported(f'number expected: {v!r}')
    return v


def mknum(ex, ty, n):
    t = ex.ty(ty)
    if t['k'] in ('uint', 'int'):
        return n
    b = t['base']
    if b in BIGNUM:
        return St(ty, [n])
    fs = t['variants'][0]['fields']
    return St(ty, [mknum(ex, fs[0][1], n)])


BITS = {'Uint64': 64, 'Uint128': 128, 'Uint256': 256, 'Uint512': 512, 'U256': 256, 'Decimal': 128, 'Decimal256': 256,
        'u128': 128, 'u64': 64, 'u32': 32, 'u16': 16, 'u8': 8, 'usize': 64}
E18 = 10 ** 18


def bits_of_ty(ex, ty):
    t = ex.ty(ty)
    if t['k'] == 'uint':
        return t['bits']
    return BITS[t['base'].rsplit('::', 1)[-1]]


def fits(v, bits):
    return And(le(0, v), le(v, 2 ** bits - 1))


def must(st, c):
    """continue only where c holds (elsewhere the code panics and the transaction is reverted)"""
    if c is False:
        return False
    st.assume(c)
    return True


def both(ex, st, c):
    """split into (state where c, state where not c), dropping infeasible ones"""
    if c is True:
        return st, None
    if c is False:
        return None, st
    a, b = st.copy(), st
    a.assume(c)
    b.assume(Not(c))
    return (a if ex.feas.feasible(a.pcn) else None), (b if ex.feas.feasible(b.pcn) else None)


def checked(ex, st, inst, cond, val, err):
    out = []
    a, b = both(ex, st, cond)
    if a is not None:
        out.append((a, Ok(ex, inst, val)))
    if b is not None:
        out.append((b, Err(ex, inst, err)))
    return out


def okty(ex, inst):
    """T of a returned Result<T,_> / Option<T>"""
    return ex.ty(rty(inst))['args'][0]


UI = r'(&(mut )?)*cosmwasm_std::math::uint(64|128|256|512)::Uint(64|128|256|512)'
U = r'(' + UI + r'|(&(mut )?)*astroport::(uints::)?U256)'
DE = r'(&(mut )?)*cosmwasm_std::math::decimal(256)?::Decimal(256)?'
DT = r'cosmwasm_std::math::decimal256::Decimal256|cosmwasm_std::math::decimal::Decimal'
PR = r'(&(mut )?)*(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)'
ANYNUM = f'({U}|{DE}|{PR})'


# ------------------------------------------------------------------ numbers
def lift2(f):
    def g(ex, st, inst, args):
        return f(ex, st, inst, num(ex, st, args[0]), num(ex, st, args[1]))
    return g


def ret(ex, st, inst, n):
    return [(st, mknum(ex, rty(inst), n))]


def retp(ex, st, inst, n, cond=True):
    """arithmetic that panics when out of range"""
    b = bits_of_ty(ex, rty(inst))
    if not must(st, cond) or not must(st, fits(n, b)):
        return []
    return ret(ex, st, inst, n)


@R('add', f'({U}|{DE})', r'std::ops::Add.*')
@lift2
def _(ex, st, inst, a, b): return retp(ex, st, inst, add(a, b))


@R('sub', f'({U}|{DE})', r'std::ops::Sub.*')
@lift2
def _(ex, st, inst, a, b): return retp(ex, st, inst, sub(a, b))


def tyname(ex, ty):
    t = ex.ty(ty)
    while t['k'] == 'ref':
        t = ex.ty(t['ty'])
    return t['base'].rsplit('::', 1)[-1] if t['k'] == 'adt' else t['k']


def _mulval(ex, inst, a, b):
    """value of `self * rhs` and the condition under which it does not panic"""
    ta, tb = tyname(ex, inst['sig'][0][0]), tyname(ex, inst['sig'][0][1])
    da, db = ta.startswith('Decimal'), tb.startswith('Decimal')
    p = mul(a, b)
    if da and db:
        return fdiv(p, E18), True
    if da or db:
        # Uint * Decimal: floor; Decimal*Uint alike
        return fdiv(p, E18), True
    return p, True


@R('mul', f'({U}|{DE})', r'std::ops::Mul.*')
@lift2
def _(ex, st, inst, a, b):
    v, c = _mulval(ex, inst, a, b)
    return retp(ex, st, inst, v, c)


@R('div', U, r'std::ops::Div.*')
@lift2
def _(ex, st, inst, a, b): return retp(ex, st, inst, fdiv(a, b), lt(0, b)) if b != 0 else []


def dec_div(ex, st, inst, a, b):
    """Decimal / Decimal = from_ratio(a, b); Decimal / Uint = a / b"""
    tb = tyname(ex, inst['sig'][0][1])
    if isint(b) and b == 0:
        return []
    v = fdiv(mul(a, E18), b) if tb.startswith('Decimal') else fdiv(a, b)
    return retp(ex, st, inst, v, lt(0, b))


R('div', DE, r'std::ops::Div.*')(lift2(dec_div))


@R('rem', U, r'std::ops::Rem.*')
@lift2
def _(ex, st, inst, a, b): return retp(ex, st, inst, fmod(a, b), lt(0, b)) if b != 0 else []


def assign(op):
    def f(ex, st, inst, args):
        p = ex.force(st, args[0])
        a, b = num(ex, st, args[0]), num(ex, st, args[1])
        ty = ex.ty(inst['sig'][0][0])['ty']
        n1, n2 = tyname(ex, ty), tyname(ex, inst['sig'][0][1])
        if op == 'add':
            v = add(a, b)
        elif op == 'sub':
            v = sub(a, b)
        elif op == 'mul':
            v = mul(a, b)
            if n1.startswith('Decimal') and n2.startswith('Decimal'):
                v = fdiv(v, E18)
        else:
            if b == 0:
                return []
            st.assume(lt(0, b))
            v = fdiv(mul(a, E18), b) if n2.startswith('Decimal') else fdiv(a, b)
        if not must(st, fits(v, bits_of_ty(ex, ty))):
            return []
        ex.store_ptr(st, p, mknum(ex, ty, v))
        return [(st, unit())]
    return f


for _op in ('add', 'sub', 'mul', 'div'):
    R(f'{_op}_assign', f'({U}|{DE})', r'std::ops::.*Assign.*')(assign(_op))


@R('checked_add', f'({U}|{DE})')
@lift2
def _(ex, st, inst, a, b):
    ty = okty(ex, inst)
    v = add(a, b)
    return chk(ex, st, inst, fits(v, bits_of_ty(ex, ty)), mknum(ex, ty, v), 'OverflowError')


@R('checked_sub', f'({U}|{DE})')
@lift2
def _(ex, st, inst, a, b):
    ty = okty(ex, inst)
    v = sub(a, b)
    return chk(ex, st, inst, le(b, a), mknum(ex, ty, v), 'OverflowError')


@R('checked_mul', f'({U}|{DE})')
@lift2
def _(ex, st, inst, a, b):
    ty = okty(ex, inst)
    v, _ = _mulval(ex, inst, a, b)
    return chk(ex, st, inst, fits(v, bits_of_ty(ex, ty)), mknum(ex, ty, v), 'OverflowError')


@R('checked_div', f'({U}|{DE})')
@lift2
def _(ex, st, inst, a, b):
    ty = okty(ex, inst)
    d = tyname(ex, inst['sig'][0][1]).startswith('Decimal')
    if b == 0:
        return chk(ex, st, inst, False, None, 'DivideByZeroError')
    v = fdiv(mul(a, E18), b) if d else fdiv(a, b)
    c = And(lt(0, b), fits(v, bits_of_ty(ex, ty)))
    return chk(ex, st, inst, c, mknum(ex, ty, v), 'DivideByZeroError')


@R('checked_rem', U)
@lift2
def _(ex, st, inst, a, b):
    if b == 0:
        return chk(ex, st, inst, False, None, 'DivideByZeroError')
    return chk(ex, st, inst, lt(0, b), mknum(ex, okty(ex, inst), fmod(a, b)), 'DivideByZeroError')


def chk(ex, st, inst, cond, val, err):
    """Result or Option returning checked operation"""
    if ex.ty(rty(inst))['base'] == 'std::option::Option':
        out = []
        a, b = both(ex, st, cond)
        if a is not None:
            out.append((a, mkv(ex, rty(inst), 'Some', val)))
        if b is not None:
            out.append((b, mkv(ex, rty(inst), 'None')))
        return out
    return checked(ex, st, inst, cond, val, err)


@R('saturating_sub', f'({U}|{DE}|{PR})')
@lift2
def _(ex, st, inst, a, b):
    if ex.ty(rty(inst))['k'] == 'int':
        raise Unsupported('signed saturating_sub')
    return ret(ex, st, inst, ite(le(b, a), sub(a, b), 0))


@R('saturating_add', f'({U}|{DE}|{PR})')
@lift2
def _(ex, st, inst, a, b):
    m = 2 ** bits_of_ty(ex, rty(inst)) - 1
    return ret(ex, st, inst, imin(add(a, b), m))


@R('saturating_mul', f'({U}|{PR})')
@lift2
def _(ex, st, inst, a, b):
    m = 2 ** bits_of_ty(ex, rty(inst)) - 1
    return ret(ex, st, inst, imin(mul(a, b), m))


def wrapn(v, bits):
    lo, hi = bounds(v)
    if lo >= 0 and hi < 2 ** bits:
        return v
    return fmod(v, 2 ** bits)


@R('wrapping_add', f'({U}|{PR})')
@lift2
def _(ex, st, inst, a, b): return ret(ex, st, inst, wrapn(add(a, b), bits_of_ty(ex, rty(inst))))


@R('wrapping_sub', f'({U}|{PR})')
@lift2
def _(ex, st, inst, a, b): return ret(ex, st, inst, wrapn(sub(a, b), bits_of_ty(ex, rty(inst))))


@R('wrapping_mul', f'({U}|{PR})')
@lift2
def _(ex, st, inst, a, b): return ret(ex, st, inst, wrapn(mul(a, b), bits_of_ty(ex, rty(inst))))


@R('abs_diff', ANYNUM)
@lift2
def _(ex, st, inst, a, b): return ret(ex, st, inst, ite(le(b, a), sub(a, b), sub(b, a)))


@R('is_zero', f'({U}|{DE})')
def _(ex, st, inst, args): return [(st, eq(num(ex, st, args[0]), 0))]


@R('zero MIN min_value', f'({U}|{DE})')
def _(ex, st, inst, args):
    return ret(ex, st, inst, 0)


@R('one', f'({U}|{DE})')
def _(ex, st, inst, args):
    return ret(ex, st, inst, E18 if tyname(ex, rty(inst)).startswith('Decimal') else 1)


@R('default', f'({U}|{DE}|{PR})', 'std::default::Default')
def _(ex, st, inst, args): return ret(ex, st, inst, 0)


@R('MAX max_value', f'({U}|{DE})')
def _(ex, st, inst, args): return ret(ex, st, inst, 2 ** bits_of_ty(ex, rty(inst)) - 1)


@R('percent', DE)
def _(ex, st, inst, args): return ret(ex, st, inst, mul(num(ex, st, args[0]), 10 ** 16))


@R('permille', DE)
def _(ex, st, inst, args): return ret(ex, st, inst, mul(num(ex, st, args[0]), 10 ** 15))


@R('bps', DE)
def _(ex, st, inst, args): return ret(ex, st, inst, mul(num(ex, st, args[0]), 10 ** 14))


@R('new raw u128 u64 atomics numerator as_u128 low_u128 full_mul', f'({U}|{DE})')
def _(ex, st, inst, args):
    if inst['norm'].endswith('full_mul'):
        return ret(ex, st, inst, mul(num(ex, st, args[0]), num(ex, st, args[1])))
    n = num(ex, st, args[0])
    if inst['norm'].endswith('as_u128'):
        return retp(ex, st, inst, n)
    if inst['norm'].endswith('low_u128'):
        return ret(ex, st, inst, wrapn(n, 128))
    return ret(ex, st, inst, n)


@R('as_u64 as_usize as_u32', r'.*U256')
def _(ex, st, inst, args): return retp(ex, st, inst, num(ex, st, args[0]))


@R('denominator', DE)
def _(ex, st, inst, args): return ret(ex, st, inst, E18)


@R('decimal_places', DE)
def _(ex, st, inst, args): return ret(ex, st, inst, 18)


@R('inv', f'({DE})')
def _(ex, st, inst, args):
    n = num(ex, st, args[0])
    ty = okty(ex, inst)
    out = []
    a, b = both(ex, st, lt(0, n))
    if a is not None:
        out.append((a, mkv(ex, rty(inst), 'Some', mknum(ex, ty, fdiv(E18 * E18, n)))))
    if b is not None:
        out.append((b, mkv(ex, rty(inst), 'None')))
    return out


@R('floor', DE)
def _(ex, st, inst, args): return ret(ex, st, inst, mul(fdiv(num(ex, st, args[0]), E18), E18))


@R('ceil', DE)
def _(ex, st, inst, args): return retp(ex, st, inst, mul(cdiv(num(ex, st, args[0]), E18), E18))


@R('to_uint_floor', DE)
def _(ex, st, inst, args): return ret(ex, st, inst, fdiv(num(ex, st, args[0]), E18))


@R('to_uint_ceil', DE)
def _(ex, st, inst, args): return ret(ex, st, inst, cdiv(num(ex, st, args[0]), E18))


@R('multiply_ratio', U)
def _(ex, st, inst, args):
    a, n, d = (num(ex, st, x) for x in args)
    if isint(d) and d == 0:
        return []
    if not must(st, lt(0, d)):
        return []
    return retp(ex, st, inst, fdiv(mul(a, n), d))


@R('checked_multiply_ratio', U)
def _(ex, st, inst, args):
    a, n, d = (num(ex, st, x) for x in args)
    if isint(d) and d == 0:
        return chk(ex, st, inst, False, None, 'DivideByZero')
    ty = okty(ex, inst)
    v = fdiv(mul(a, n), d)
    return chk(ex, st, inst, And(lt(0, d), fits(v, bits_of_ty(ex, ty))), mknum(ex, ty, v), 'CheckedMultiplyRatioError')


@R('mul_floor mul_ceil', U)
def _(ex, st, inst, args):
    a = num(ex, st, args[0])
    ta = tyname(ex, inst['sig'][0][1])
    if not ta.startswith('Decimal'):
        raise Unsupported('mul_floor by ' + ta)
    d = num(ex, st, args[1])
    f = cdiv if inst['norm'].endswith('ceil') else fdiv
    return retp(ex, st, inst, f(mul(a, d), E18))


@R('from_ratio checked_from_ratio', DE)
def _(ex, st, inst, args):
    n, d = num(ex, st, args[0]), num(ex, st, args[1])
    if inst['norm'].endswith('checked_from_ratio'):
        ty = okty(ex, inst)
        if isint(d) and d == 0:
            return chk(ex, st, inst, False, None, 'CheckedFromRatioError')
        v = fdiv(mul(n, E18), d)
        return chk(ex, st, inst, And(lt(0, d), fits(v, bits_of_ty(ex, ty))), mknum(ex, ty, v), 'CheckedFromRatioError')
    if isint(d) and d == 0:
        return []
    if not must(st, lt(0, d)):
        return []
    return retp(ex, st, inst, fdiv(mul(n, E18), d))


@R('from_atomics', DE)
def _(ex, st, inst, args):
    a, p = num(ex, st, args[0]), num(ex, st, args[1])
    ty = okty(ex, inst)
    if not isint(p):
        p = ex.concretize(st, p, 40)
    if p <= 18:
        v = mul(a, 10 ** (18 - p))
        return chk(ex, st, inst, fits(v, bits_of_ty(ex, ty)), mknum(ex, ty, v), 'DecimalRangeExceeded')
    v = fdiv(a, 10 ** (p - 18))
    return chk(ex, st, inst, True, mknum(ex, ty, v), 'x')


def ipow(a, n):
    r = 1
    for _ in range(n):
        r = mul(r, a)
    return r


@R('pow', f'({U}|{PR})')
def _(ex, st, inst, args):
    a, n = num(ex, st, args[0]), num(ex, st, args[1])
    if not isint(n):
        n = ex.concretize(st, n, 80)
    return retp(ex, st, inst, ipow(a, n))


@R('checked_pow', f'({U}|{PR})')
def _(ex, st, inst, args):
    a, n = num(ex, st, args[0]), num(ex, st, args[1])
    if not isint(n):
        n = ex.concretize(st, n, 80)
    v = ipow(a, n)
    ty = okty(ex, inst)
    return chk(ex, st, inst, fits(v, bits_of_ty(ex, ty)), mknum(ex, ty, v), 'OverflowError')


def dec_pow(a, n):
    """the square-and-multiply of cosmwasm-std's Decimal::checked_pow"""
    if n == 0:
        return E18, []
    y = E18
    ns = []
    while n > 1:
        if n % 2 == 0:
            a = fdiv(mul(a, a), E18)
            ns.append(a)
            n //= 2
        else:
            y = fdiv(mul(a, y), E18)
            a = fdiv(mul(a, a), E18)
            ns += [y, a]
            n = (n - 1) // 2
    r = fdiv(mul(a, y), E18)
    ns.append(r)
    return r, ns


@R('pow checked_pow', DE)
def _(ex, st, inst, args):
    a, n = num(ex, st, args[0]), num(ex, st, args[1])
    if not isint(n):
        n = ex.concretize(st, n, 40)
    v, ns = dec_pow(a, n)
    if inst['norm'].endswith('checked_pow'):
        ty = okty(ex, inst)
        c = And(*[fits(x, bits_of_ty(ex, ty)) for x in ns])
        return chk(ex, st, inst, c, mknum(ex, ty, v), 'OverflowError')
    b = bits_of_ty(ex, rty(inst))
    for x in ns:
        if not must(st, fits(x, b)):
            return []
    return ret(ex, st, inst, v)


@R('isqrt integer_sqrt', f'({U}|{PR})')
def _(ex, st, inst, args): return ret(ex, st, inst, isqrt(num(ex, st, args[0])))


@R('sqrt', DE)
def _(ex, st, inst, args):
    # as computed by the library: the finest precision for which the scaled radicand fits
    n = num(ex, st, args[0])
    bits = bits_of_ty(ex, rty(inst))
    if isint(n):
        for p in range(9, -1, -1):
            if n * 10 ** (2 * p) < 2 ** bits:
                return ret(ex, st, inst, isqrt(n * 10 ** (2 * p)) * 10 ** (9 - p))
    v = mul(isqrt(mul(n, 10 ** 18)), 1)
    if bounds(mul(n, 10 ** 18))[1] < 2 ** bits:
        return ret(ex, st, inst, v)
    r = 0
    for p in range(0, 10):
        x = mul(n, 10 ** (2 * p))
        r = ite(le(x, 2 ** bits - 1), mul(isqrt(x), 10 ** (9 - p)), r)
    return ret(ex, st, inst, r)


@R('min', ANYNUM)
@lift2
def _(ex, st, inst, a, b): return ret(ex, st, inst, imin(a, b))


@R('max', ANYNUM)
@lift2
def _(ex, st, inst, a, b): return ret(ex, st, inst, imax(a, b))


@M('std::cmp::min', 'std::cmp::max', 'core::cmp::min', 'core::cmp::max')
def _(ex, st, inst, args):
    t = ex.ty(rty(inst))
    n = tyname(ex, rty(inst))
    if n in BITS or t['k'] in ('uint', 'int'):
        a, b = num(ex, st, args[0]), num(ex, st, args[1])
        return ret(ex, st, inst, (imin if inst['norm'].endswith('min') else imax)(a, b))
    raise Unsupported('min/max of ' + n)


@R('eq', ANYNUM, r'std::cmp::PartialEq.*')
@lift2
def _(ex, st, inst, a, b): return [(st, eq(a, b))]


@R('ne', ANYNUM, r'std::cmp::PartialEq.*')
@lift2
def _(ex, st, inst, a, b): return [(st, ne(a, b))]


@R('lt', ANYNUM)
@lift2
def _(ex, st, inst, a, b): return [(st, lt(a, b))]


@R('le', ANYNUM)
@lift2
def _(ex, st, inst, a, b): return [(st, le(a, b))]


@R('gt', ANYNUM)
@lift2
def _(ex, st, inst, a, b): return [(st, lt(b, a))]


@R('ge', ANYNUM)
@lift2
def _(ex, st, inst, a, b): return [(st, le(b, a))]


@R('cmp', ANYNUM, r'std::cmp::Ord')
def _(ex, st, inst, args):
    ex.ord_ty = rty(inst)
    return [(st, ex.ordering(st, num(ex, st, args[0]), num(ex, st, args[1])))]


@R('partial_cmp', ANYNUM)
def _(ex, st, inst, args):
    ex.ord_ty = okty(ex, inst)
    return [(st, mkv(ex, rty(inst), 'Some', ex.ordering(st, num(ex, st, args[0]), num(ex, st, args[1]))))]


@R('clamp', ANYNUM)
def _(ex, st, inst, args):
    a, l, h = (num(ex, st, x) for x in args)
    return ret(ex, st, inst, imax(l, imin(a, h)))


# conversions between number types
def isnumty(ex, ty):
    t = ex.ty(ty)
    while t['k'] == 'ref':
        t = ex.ty(t['ty'])
    return t['k'] in ('uint', 'int') or (t['k'] == 'adt' and t['base'].rsplit('::', 1)[-1] in BITS and
                                         (t['base'].startswith('cosmwasm_std::math') or t['base'].endswith('U256')))


@R('from into', '.*', r'std::convert::(From|Into).*')
def _(ex, st, inst, args):
    a, r = inst['sig'][0][0], rty(inst)
    ta, tr = tyname(ex, a), tyname(ex, r)
    if isnumty(ex, a) and isnumty(ex, r):
        n = num(ex, st, args[0])
        if ta.startswith('Decimal') != tr.startswith('Decimal'):
            raise Unsupported(f'conversion {ta} -> {tr}')
        t = ex.ty(r)
        if t['k'] == 'int':
            return ret(ex, st, inst, n)
        return retp(ex, st, inst, n)
    if a == r:
        return [(st, args[0])]
    if tr == 'StdError':
        return [(st, Opq('err', 'StdError'))]
    sa = strip(ex, a)
    sr = strip(ex, r)
    if sa in STRINGY and sr in ('std::string::String', 'std::borrow::Cow'):
        return [(st, as_str(ex, st, args[0]))]
    if sa in STRINGY and sr == 'cosmwasm_std::addresses::Addr':
        return [(st, St(r, [as_str(ex, st, args[0])]))]
    if tr == 'String' and ta in ('Uint128', 'Uint64', 'Uint256', 'Decimal', 'Decimal256'):
        return [(st, disp(ex, st, args[0], inst['sig'][0][0]))]
    if ta == 'Binary' and sr == 'std::vec::Vec':
        return [(st, ex.deref(st, args[0]).f[0])]
    if sa == 'std::vec::Vec' and tr == 'Binary':
        return [(st, St(r, [args[0]]))]
    if sa == 'std::vec::Vec' and sr == 'std::vec::Vec':
        return [(st, args[0])]
    return fall(ex, st, inst, args)


def fall(ex, st, inst, args):
    """execute the body instead of a model"""
    if inst['kind'] in ('item', 'shim') and inst['has_body']:
        return ex.run(st, inst, args)
    raise Unsupported('no body and no model: ' + inst['norm'])


@R('try_from try_into', '.*', r'std::convert::Try(From|Into).*')
def _(ex, st, inst, args):
    a, r = inst['sig'][0][0], okty(ex, inst)
    if isnumty(ex, a) and isnumty(ex, r):
        n = num(ex, st, args[0])
        t = ex.ty(r)
        if t['k'] == 'int':
            lo, hi = ex.int_range(r)
            c = And(le(lo, n), le(n, hi))
        else:
            c = fits(n, bits_of_ty(ex, r))
        return checked(ex, st, inst, c, mknum(ex, r, n), 'ConversionOverflowError')
    sr = ex.ty(r)
    if sr['k'] == 'array':
        v = ex.deref(st, args[0])
        if isinstance(v, VecV):
            if len(v.e) == sr['len']:
                return [(st, Ok(ex, inst, v))]
            return [(st, mkv(ex, rty(inst), 'Err', v))]
    return fall(ex, st, inst, args)


def strip(ex, ty):
    t = ex.ty(ty)
    while t['k'] == 'ref':
        t = ex.ty(t['ty'])
    return t['base'] if t['k'] == 'adt' else t['k']


STRINGY = {'std::string::String', 'str', 'cosmwasm_std::addresses::Addr', 'std::borrow::Cow', 'std::boxed::Box'}


def as_str(ex, st, v):
    v = ex.deref(st, v)
    while isinstance(v, (St, En)):
        v = ex.deref(st, v.f[0])
    if isinstance(v, VecV) and all(isint(x) for x in v.e):
        return StrV(lit=bytes(v.e).decode('utf8', 'replace'))
    if isinstance(v, Opq):
        return StrV(key=('opq', v.tag, str(v.a)))
    if not isinstance(v, StrV):
        raise Unsupported(f'string expected: {v!r}')
    return v


@R('from_str', DE, r'std::str::FromStr')
def _(ex, st, inst, args):
    s = as_str(ex, st, args[0])
    if s.lit is None:
        raise Unsupported('parse of symbolic decimal')
    a, _, b = s.lit.partition('.')
    n = int(a) * E18 + int((b + '0' * 18)[:18])
    return [(st, Ok(ex, inst, mknum(ex, okty(ex, inst), n)))]


@R('overflowing_add overflowing_sub overflowing_mul', PR)
@lift2
def _(ex, st, inst, a, b):
    m = inst['norm'].rsplit('_', 1)[-1]
    bits = bits_of_ty(ex, ex.ty(rty(inst))['tys'][0])
    v = {'add': add, 'sub': sub, 'mul': mul}[m](a, b)
    return [(st, St(rty(inst), [wrapn(v, bits), Not(fits(v, bits))]))]


@R('checked_add checked_sub checked_mul checked_div checked_rem', PR)
@lift2
def _(ex, st, inst, a, b):
    m = inst['norm'].rsplit('_', 1)[-1]
    ty = okty(ex, inst)
    lo, hi = ex.int_range(ty)
    if m in ('div', 'rem'):
        if b == 0:
            return [(st, mkv(ex, rty(inst), 'None'))]
        v = fdiv(a, b) if m == 'div' else fmod(a, b)
        return chk(ex, st, inst, lt(0, b), v, '')
    v = {'add': add, 'sub': sub, 'mul': mul}[m](a, b)
    return chk(ex, st, inst, And(le(lo, v), le(v, hi)), v, '')


@R('is_power_of_two', PR)
def _(ex, st, inst, args):
    n = num(ex, st, args[0])
    if isint(n):
        return [(st, n > 0 and n & (n - 1) == 0)]
    raise Unsupported('is_power_of_two')


@R('leading_zeros trailing_zeros count_ones', PR)
def _(ex, st, inst, args):
    n = num(ex, st, args[0])
    if not isint(n):
        raise Unsupported('leading_zeros')
    m = inst['norm'].rsplit('::', 1)[-1]
    b = ex.ty(inst['sig'][0][0])['bits']
    return [(st, b - n.bit_length() if m[0] == 'l' else (bin(n).count('1') if m[0] == 'c' else (b if n == 0 else (n & -n).bit_length() - 1)))]


@R('to_be_bytes to_le_bytes', f'({U}|{PR})')
def _(ex, st, inst, args):
    n = num(ex, st, args[0])
    L = ex.ty(rty(inst))['len']
    if isint(n):
        return [(st, VecV(n.to_bytes(L, 'big' if 'be' in inst['norm'] else 'little')))]
    bs = [fmod(fdiv(n, 256 ** i), 256) for i in range(L)]
    return [(st, VecV(bs[::-1] if 'be' in inst['norm'] else bs))]


# ------------------------------------------------------------------ intrinsics
INTR = {}


def I(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


@I('discriminant_value')
def _(ex, st, inst, args):
    v = ex.deref(st, args[0])
    if isinstance(v, En):
        return [(st, ex.ty(v.ty)['variants'][v.v]['discr'])]
    raise Unsupported('discriminant_value')


@I('size_of', 'min_align_of', 'align_of', 'pref_align_of', 'size_of_val')
def _(ex, st, inst, args): return [(st, 8)]


@I('needs_drop')
def _(ex, st, inst, args): return [(st, False)]


@I('assume', 'forget', 'assert_inhabited', 'assert_zero_valid', 'cold_path', 'assert_mem_uninitialized_valid')
def _(ex, st, inst, args): return [(st, unit())]


@I('black_box', 'likely', 'unlikely', 'transmute', 'transmute_unchecked')
def _(ex, st, inst, args): return [(st, args[0])]


@I('ub_checks', 'is_val_statically_known', 'contract_checks', 'overflow_checks')
def _(ex, st, inst, args): return [(st, inst.get('intr') == 'overflow_checks')]


@I('unchecked_add', 'unchecked_sub', 'unchecked_mul', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'exact_div',
   'unchecked_div', 'unchecked_rem', 'unchecked_shl', 'unchecked_shr')
def _(ex, st, inst, args):
    n = inst.get('intr') or inst['norm'].rsplit('::', 1)[-1]
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'shl': 'Shl', 'shr': 'Shr'}[n.rsplit('_', 1)[-1] if n != 'exact_div' else 'div']
    return [(st, ex.binop(st, op, args[0], args[1], rty(inst)))]


@I('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow')
def _(ex, st, inst, args):
    n = inst.get('intr') or inst['norm'].rsplit('::', 1)[-1]
    v = {'a': add, 's': sub, 'm': mul}[n[0]](args[0], args[1])
    ty = ex.ty(rty(inst))['tys'][0]
    lo, hi = ex.int_range(ty)
    return [(st, St(rty(inst), [ex.wrap(v, ty), Not(And(le(lo, v), le(v, hi)))]))]


@I('saturating_add', 'saturating_sub')
def _(ex, st, inst, args):
    lo, hi = ex.int_range(rty(inst))
    v = (add if 'add' in (inst.get('intr') or inst['norm']) else sub)(args[0], args[1])
    return [(st, imax(lo, imin(v, hi)))]


@I('read_via_copy', 'ptr_read', 'volatile_load')
def _(ex, st, inst, args): return [(st, ex.load(st, args[0]))]


@I('write_via_move')
def _(ex, st, inst, args):
    ex.store_ptr(st, args[0], args[1])
    return [(st, unit())]


@I('type_name', 'type_id')
def _(ex, st, inst, args):
    c = st.alloc(StrV(lit='type'))
    return [(st, Ptr(c))]


@I('three_way_compare')
def _(ex, st, inst, args):
    ex.ord_ty = rty(inst)
    return [(st, ex.ordering(st, args[0], args[1]))]


@I('select_unpredictable')
def _(ex, st, inst, args):
    return [(st, args[1] if ex.decide(st, args[0]) else args[2])]


# ------------------------------------------------------------------ mem / ptr / box / refs
@M('std::mem::replace', 'core::mem::replace')
def _(ex, st, inst, args):
    old = ex.load(st, args[0])
    ex.store_ptr(st, args[0], args[1])
    return [(st, old)]


@M('std::mem::take', 'core::mem::take')
def _(ex, st, inst, args):
    old = ex.load(st, args[0])
    t = ex.ty(rty(inst))
    b = t.get('base')
    if b == 'std::vec::Vec':
        nv = VecV(())
    elif b == 'std::string::String':
        nv = StrV(lit='')
    elif b == 'std::option::Option':
        nv = mkv(ex, rty(inst), 'None')
    elif isnumty(ex, rty(inst)):
        nv = mknum(ex, rty(inst), 0)
    else:
        raise Unsupported('mem::take ' + str(b))
    ex.store_ptr(st, args[0], nv)
    return [(st, old)]


@M('std::mem::swap', 'core::mem::swap')
def _(ex, st, inst, args):
    a, b = ex.load(st, args[0]), ex.load(st, args[1])
    ex.store_ptr(st, args[0], b)
    ex.store_ptr(st, args[1], a)
    return [(st, unit())]


@M('std::mem::forget', 'std::mem::drop', 'std::ptr::drop_in_place')
def _(ex, st, inst, args): return [(st, unit())]


@M('std::ptr::read', 'core::ptr::read')
def _(ex, st, inst, args): return [(st, ex.load(st, args[0]))]


@M('std::ptr::write', 'core::ptr::write')
def _(ex, st, inst, args):
    ex.store_ptr(st, args[0], args[1])
    return [(st, unit())]


@M('std::boxed::Box::new')
def _(ex, st, inst, args): return [(st, St(rty(inst), [args[0]]))]


@R('drop', r'std::boxed::Box.*', r'std::ops::Drop')
def _(ex, st, inst, args): return [(st, unit())]      # gives the memory back


@M('std::boxed::Box::new_uninit')
def _(ex, st, inst, args): return [(st, St(rty(inst), [UNINIT]))]


@M('std::boxed::Box::assume_init', 'std::boxed::Box::write', 'std::boxed::Box::into_raw', 'std::boxed::Box::leak',
   'std::boxed::Box::from_raw')
def _(ex, st, inst, args):
    raise Unsupported(inst['norm'])


@M('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::into_vec', 'std::slice::hack::into_vec')
def _(ex, st, inst, args):
    v = ex.deref(st, args[0])
    if isinstance(v, St):
        v = v.f[0]
    if not isinstance(v, VecV):
        raise Unsupported(f'box into vec {v!r}')
    return [(st, v)]


R('into_vec', r'\[.*\]')(EXACT['std::boxed::box_assume_init_into_vec_unsafe'])


@R('clone', '.*', r'std::clone::Clone')
def _(ex, st, inst, args): return [(st, ex.load0(st, args[0]))]


@R('clone_from', '.*', r'std::clone::Clone')
def _(ex, st, inst, args):
    ex.store_ptr(st, args[0], ex.load(st, args[1]))
    return [(st, unit())]


@R('to_owned', '.*', r'std::borrow::ToOwned')
def _(ex, st, inst, args): return [(st, ex.load(st, args[0]))]


@R('deref deref_mut as_ref as_mut borrow borrow_mut as_str as_bytes as_slice as_mut_slice as_mut_str',
   r'(&(mut )?)*(std::string::String|std::vec::Vec|cosmwasm_std::addresses::Addr|cosmwasm_std::binary::Binary|str|\[.*\]|std::borrow::Cow|std::boxed::Box)')
def _(ex, st, inst, args):
    p = ex.force(st, args[0])
    t = ex.ty(inst['sig'][0][0])
    # strip double references
    while t['k'] == 'ref' and ex.ty(t['ty'])['k'] == 'ref':
        p = ex.force(st, ex.load(st, p))
        t = ex.ty(t['ty'])
    v = ex.force(st, ex.read(st, p.cell, p.path))
    if isinstance(v, En):        # Cow
        inner = ex.force(st, v.f[0])
        if isinstance(inner, Ptr):
            return [(st, inner)]
        return [(st, Ptr(p.cell, p.path + (0,)))]
    if isinstance(v, St):        # Addr(String), Binary(Vec), Box<T>
        f = ex.force(st, v.f[0])
        if isinstance(f, Ptr) and not isinstance(v.f[0], Sym):
            return [(st, f)]
        return [(st, Ptr(p.cell, p.path + (0,)))]
    return [(st, p)]


@R('as_ref borrow', r'(&(mut )?)*.*', r'std::(convert::AsRef|borrow::Borrow).*')
def _(ex, st, inst, args):
    if inst['kind'] == 'item' and inst['krate'] not in ('core', 'alloc', 'std'):
        return fall(ex, st, inst, args)
    return fall(ex, st, inst, args)


@M('std::hint::must_use', 'std::convert::identity', 'core::hint::must_use')
def _(ex, st, inst, args): return [(st, args[0])]


# ------------------------------------------------------------------ structural equality
def veq(ex, st, a, b):
    while isinstance(a, Ptr):
        a = ex.load0(st, a)
    while isinstance(b, Ptr):
        b = ex.load0(st, b)
    if a is b or isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name:
        return True
    a, b = ex.deref(st, a), ex.deref(st, b)
    if isinstance(a, VecT) and isinstance(b, VecT) and a.name == b.name:
        return True
    if isinstance(a, StrV) and isinstance(b, StrV):
        return str_eq(a, b)
    if isinstance(a, StrV) or isinstance(b, StrV):
        return str_eq(as_str(ex, st, a), as_str(ex, st, b))
    if isinstance(a, St) and isinstance(b, St):
        if len(a.f) != len(b.f):
            raise Unsupported('eq of different structs')
        return And(*[veq(ex, st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, En) and isinstance(b, En):
        if a.v != b.v:
            return False
        return And(*[veq(ex, st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, VecV) and isinstance(b, VecV):
        if len(a.e) != len(b.e):
            return False
        return And(*[veq(ex, st, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a.tag == b.tag and a.tag in ('json', 'proto'):
            return veq(ex, st, a.a, b.a)
        return a.tag == b.tag and a.a == b.a
    if (isint(a) or isinstance(a, Poly) or isbool(a)) and (isint(b) or isinstance(b, Poly) or isbool(b)):
        return eq(a, b)
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.ty == b.ty
    if isinstance(a, Opq) or isinstance(b, Opq):
        return boolvar(f'opqeq:{a!r}:{b!r}')
    raise Unsupported(f'eq {a!r} {b!r}')


LIBT = r'(&(mut )?)*(std::string::String|str|cosmwasm_std::.*|std::vec::Vec|\[.*\]|std::option::Option|\(.*\)|std::borrow::Cow|std::boxed::Box|std::collections::.*|bool|char)'
LIBEQ = r'((core|std|alloc)::cmp::impls::.*|std::cmp::PartialEq.*)'


@R('eq', LIBT, r'std::cmp::PartialEq.*')
def _(ex, st, inst, args):
    return [(st, veq(ex, st, args[0], args[1]))]


@R('ne', '.*', r'std::cmp::PartialEq.*')
def _(ex, st, inst, args):
    # `ne` is the provided method of the trait for every type in use: !eq
    if re.match(LIBT + r'\Z', split(inst['norm'])[0]):
        return [(st, Not(veq(ex, st, args[0], args[1])))]
    slf = inst['args'][0]
    rhs = inst['args'][1] if len(inst['args']) > 1 else slf
    out = []
    if inst['norm'].startswith('<') and inst['krate'] in ('core', 'std'):
        e = ex.method('core', 'std::cmp::PartialEq', 'eq', slf, rhs)
        for s2, v in ex.call_inst(st, e, args):
            out.append((s2, Not(v)))
        return out
    # impl .. for &A
    t = ex.ty(inst['sig'][0][0])
    a, b = ex.load(st, args[0]), ex.load(st, args[1])
    ia = ex.ty(ex.ty(t['ty'])['ty'])
    e = ex.method('core', 'std::cmp::PartialEq', 'eq', ex.ty(t['ty'])['ty'], ex.ty(ex.ty(ex.ty(inst['sig'][0][1])['ty']))['ty'] if False else ex.ty(ex.ty(inst['sig'][0][1])['ty'])['ty'])
    for s2, v in ex.call_inst(st, e, [a, b]):
        out.append((s2, Not(v)))
    return out


@M('std::slice::cmp::<impl std::cmp::PartialEq for [A]>::eq')
def _(ex, st, inst, args): return [(st, veq(ex, st, args[0], args[1]))]


# ------------------------------------------------------------------ strings and formatting
def concat(parts):
    out = []
    for p in parts:
        if isinstance(p, StrV):
            if p.lit is not None:
                ps = [('l', p.lit)]
            elif isinstance(p.key, tuple) and p.key and p.key[0] == 'cat':
                ps = p.key[1]
            else:
                ps = [('k', p.key)]
        else:
            ps = [p]
        for x in ps:
            if x[0] == 'l' and out and out[-1][0] == 'l':
                out[-1] = ('l', out[-1][1] + x[1])
            elif not (x[0] == 'l' and x[1] == ''):
                out.append(x)
    if not out:
        return StrV(lit='')
    if len(out) == 1:
        return StrV(lit=out[0][1]) if out[0][0] == 'l' else StrV(key=out[0][1])
    return StrV(key=('cat', tuple(out)))


def dec_str(n, places):
    i, f = divmod(n, 10 ** places)
    s = str(i)
    if f:
        s += '.' + str(f).rjust(places, '0').rstrip('0')
    return s


def disp(ex, st, v, ty):
    """Display of strings and numbers (no user code)"""
    s = strip(ex, ty)
    if s in STRINGY:
        return as_str(ex, st, v)
    n = s.rsplit('::', 1)[-1]
    if s in ('uint', 'int') or n in BITS:
        x = num(ex, st, v)
        if n.startswith('Decimal'):
            return StrV(lit=dec_str(x, 18)) if isint(x) else StrV(key=('dec18', x))
        return StrV(lit=str(x)) if isint(x) else StrV(key=('int', x))
    if s == 'bool':
        x = ex.deref(st, v)
        return StrV(lit='true' if x else 'false') if isinstance(x, bool) else StrV(key=('bool', str(x)))
    if s == 'char':
        x = ex.deref(st, v)
        return StrV(lit=chr(x)) if isint(x) else StrV(key=('char', x))
    return None


def text_of_num(key):
    """the number whose decimal text is the string with this key"""
    return key[1] if isinstance(key, tuple) and key[0] == 'int' else None


def fmt_run(ex, st, trait, ty, v):
    """[(state, StrV)] of running <ty as Display>::fmt on v (a pointer)"""
    t = ex.ty(ty)
    v = ex.force(st, v)
    while t['k'] == 'ref':
        ty = t['ty']
        t = ex.ty(ty)
        v = ex.force(st, ex.load(st, v))
    if trait == 'Display':
        s = disp(ex, st, v, ty)
        if s is not None:
            return [(st, s)]
    x = ex.deref(st, v)
    if isinstance(x, Opq):
        return [(st, StrV(key=('opq', x.tag, str(x.a))))]
    if trait == 'Display' and t['k'] == 'adt' and (t['krate'].startswith('astro') or t['krate'] in ('cosmwasm_std', 'cw20')) and 'rror' not in t['base']:
        i = ex.method('core', 'std::fmt::Display', 'fmt', ty)
        if i is not None and i['has_body']:
            cell = st.alloc(VecV(()))
            fp = Ptr(cell)
            out = []
            for s2, r in ex.call_inst(st, i, [v, fp]):
                if r is PANIC:
                    continue
                parts = s2.mem.pop(cell)
                out.append((s2, concat(list(parts.e))))
            return out
    try:
        c = canon(ex, st, v)
    except Fork:
        raise
    return [(st, StrV(key=('fmt', trait, c[0], tuple(c[1]))))]


@R('new_display new_debug new_lower_hex new_upper_hex new_debug_noop', r'(core|std)::fmt::rt::Argument')
def _(ex, st, inst, args):
    tr = {'new_display': 'Display'}.get(inst['norm'].rsplit('::', 1)[-1], 'Debug')
    return [(st, Opq('fmtarg', (tr, args[0], inst['args'][-1])))]


@M('std::fmt::Arguments::new', 'core::fmt::Arguments::new')
def _(ex, st, inst, args):
    return [(st, Opq('fmtargs', (ex.deref(st, args[0]), ex.deref(st, args[1]))))]


@M('std::fmt::Arguments::from_str', 'std::fmt::Arguments::from_str_nonconst', 'core::fmt::Arguments::from_str')
def _(ex, st, inst, args): return [(st, Opq('fmtstr', as_str(ex, st, args[0])))]


def fmt_parts(ex, st, a):
    """[(state, [parts])]"""
    if a.tag == 'fmtstr':
        return [(st, [a.a])]
    tpl, av = a.a
    b = bytes(tpl.e) if isinstance(tpl, VecV) else tpl.lit.encode()
    i = 0
    states = [(st, [])]
    nxt = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 128:
            lit = b[i:i + n].decode('utf8', 'replace')
            i += n
            states = [(s, p + [StrV(lit=lit)]) for s, p in states]
        elif n == 128:
            ln = int.from_bytes(b[i:i + 2], 'little')
            lit = b[i + 2:i + 2 + ln].decode('utf8', 'replace')
            i += 2 + ln
            states = [(s, p + [StrV(lit=lit)]) for s, p in states]
        else:
            plain = True
            if n & 1:
                i += 4
                plain = False
            if n & 2:
                i += 2
                plain = False
            if n & 4:
                i += 2
                plain = False
            if n & 8:
                nxt = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            arg = av.e[nxt]
            nxt += 1
            ns = []
            for s, p in states:
                tr, ptr, ty = arg.a
                for s2, r in fmt_run(ex, s, tr, ty, ptr):
                    ns.append((s2, p + [r if plain else StrV(key=('flagged', r.lit or r.key))]))
            states = ns
    return states


@M('std::fmt::format', 'alloc::fmt::format', 'std::fmt::format::format_inner')
def _(ex, st, inst, args):
    return [(s, concat(p)) for s, p in fmt_parts(ex, st, ex.deref(st, args[0]))]


@R('write_fmt', r'(std|core)::fmt::Formatter')
def _(ex, st, inst, args):
    p = ex.force(st, args[0])
    out = []
    for s, parts in fmt_parts(ex, st, ex.deref(st, args[1])):
        v = s.mem[p.cell]
        s.mem[p.cell] = VecV(v.e + tuple(parts))
        out.append((s, Ok(ex, inst, unit())))
    return out


@R('write_str pad write_char', r'(std|core)::fmt::Formatter')
def _(ex, st, inst, args):
    p = ex.force(st, args[0])
    v = st.mem[p.cell]
    a = args[1]
    s = StrV(lit=chr(a)) if isint(a) else as_str(ex, st, a)
    st.mem[p.cell] = VecV(v.e + (s,))
    return [(st, Ok(ex, inst, unit()))]


@R('fmt', '.*', r'std::fmt::Display')
def _(ex, st, inst, args):
    ty = ex.ty(inst['sig'][0][0])['ty']
    if strip(ex, ty) in STRINGY or isnumty(ex, ty) or ex.ty(ty)['k'] == 'ref':
        p = ex.force(st, args[1])
        out = []
        for s, r in fmt_run(ex, st, 'Display', ty, args[0]):
            v = s.mem[p.cell]
            s.mem[p.cell] = VecV(v.e + (r,))
            out.append((s, Ok(ex, inst, unit())))
        return out
    return fall(ex, st, inst, args)


@R('to_string', '.*', r'std::string::ToString')
def _(ex, st, inst, args):
    ty = ex.ty(inst['sig'][0][0])['ty']
    return fmt_run(ex, st, 'Display', ty, args[0])


@M('osmosis_std::shim::<impl std::convert::From for osmosis_std::types::cosmos::base::v1beta1::Coin>::from')
def _(ex, st, inst, args):
    c = ex.deref(st, args[0])
    ty = ex.ty(inst['sig'][0][0])
    fs = ty['variants'][0]['fields']
    d = {f[0]: (v, f[1]) for f, v in zip(fs, c.f)}
    n, nt = d['amount']
    cell = st.alloc(n)
    out = []
    for s2, r in fmt_run(ex, st, 'Display', nt, Ptr(cell)):
        out.append((s2, St(rty(inst), [as_str(ex, s2, d['denom'][0]), r])))
    return out


@M('cosmwasm_std::addresses::Addr::unchecked')
def _(ex, st, inst, args): return [(st, St(rty(inst), [as_str(ex, st, args[0])]))]


@M('cosmwasm_std::addresses::Addr::into_string')
def _(ex, st, inst, args): return [(st, as_str(ex, st, args[0]))]


def slen(s):
    if s.lit is not None:
        return len(s.lit.encode())
    return T.ufun('strlen', (strid(s),), 0, 2 ** 32)


@R('is_empty', r'(str|std::string::String)')
def _(ex, st, inst, args): return [(st, str_eq(as_str(ex, st, args[0]), StrV(lit='')))]


@R('len', r'(str|std::string::String)')
def _(ex, st, inst, args): return [(st, slen(as_str(ex, st, args[0])))]


@R('starts_with ends_with contains', r'str')
def _(ex, st, inst, args):
    s = as_str(ex, st, args[0])
    try:
        p = as_str(ex, st, args[1])
    except Unsupported:
        p = StrV(key=('pat', str(args[1])))
    m = inst['norm'].rsplit('::', 1)[-1]
    if s.lit is not None and p.lit is not None:
        return [(st, {'starts_with': s.lit.startswith, 'ends_with': s.lit.endswith, 'contains': s.lit.__contains__}[m](p.lit))]
    if m == 'starts_with' and p.lit is not None and isinstance(s.key, tuple) and s.key[0] == 'cat' and s.key[1][0][0] == 'l' \
            and s.key[1][0][1].startswith(p.lit):
        return [(st, True)]
    return [(st, boolvar(f'{m}:{strid(s)!r}:{strid(p)!r}'))]


@R('to_lowercase to_uppercase trim', r'str')
def _(ex, st, inst, args):
    s = as_str(ex, st, args[0])
    m = inst['norm'].rsplit('::', 1)[-1]
    if s.lit is not None:
        r = StrV(lit={'to_lowercase': s.lit.lower, 'to_uppercase': s.lit.upper, 'trim': s.lit.strip}[m]())
    else:
        r = StrV(key=(m, s.key))
    if m == 'trim':
        return [(st, Ptr(st.alloc(r)))]
    return [(st, r)]


@M('std::string::String::new')
def _(ex, st, inst, args): return [(st, StrV(lit=''))]


@M('std::string::String::with_capacity')
def _(ex, st, inst, args): return [(st, StrV(lit=''))]


@R('push_str', r'std::string::String')
def _(ex, st, inst, args):
    ex.store_ptr(st, args[0], concat([as_str(ex, st, args[0]), as_str(ex, st, args[1])]))
    return [(st, unit())]


@R('add', r'std::string::String', r'std::ops::Add.*')
def _(ex, st, inst, args): return [(st, concat([as_str(ex, st, args[0]), as_str(ex, st, args[1])]))]


@R('into_bytes', r'std::string::String')
def _(ex, st, inst, args): return [(st, as_str(ex, st, args[0]))]


@R('join', r'\[.*\]')
def _(ex, st, inst, args):
    v = ex.deref(st, args[0])
    sep = as_str(ex, st, args[1])
    parts = []
    for i, x in enumerate(v.e):
        if i:
            parts.append(sep)
        parts.append(as_str(ex, st, x))
    return [(st, concat(parts))]


@R('concat', r'\[.*\]')
def _(ex, st, inst, args):
    v = ex.deref(st, args[0])
    es = [ex.deref(st, x) for x in v.e]
    if all(isinstance(x, VecV) for x in es):
        return [(st, VecV([y for x in es for y in x.e]))]
    return [(st, concat([as_str(ex, st, x) for x in es]))]


@M('std::string::String::from_utf8', 'std::str::from_utf8', 'std::string::String::from_utf8_unchecked',
   'std::string::String::from_utf8_lossy')
def _(ex, st, inst, args):
    v = ex.deref(st, args[0])
    s = as_str(ex, st, v)
    if ex.ty(okty(ex, inst))['k'] == 'ref':
        s = Ptr(st.alloc(s))
    return [(st, Ok(ex, inst, s))]


@R('chars', 'str')
def _(ex, st, inst, args):
    s = as_str(ex, st, args[0])
    if s.lit is None:
        raise Unsupported('chars of a symbolic string')
    return [(st, St(rty(inst), [VecV([ord(c) for c in s.lit]), 0]))]


@R('next', r'std::str::Chars')
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    e, i = it.f
    if i < len(e.e):
        ex.store_ptr(st, args[0], St(it.ty, [e, i + 1]))
        return [(st, mkv(ex, rty(inst), 'Some', e.e[i]))]
    return [(st, mkv(ex, rty(inst), 'None'))]


@R('split', 'str')
def _(ex, st, inst, args):
    s = as_str(ex, st, args[0])
    p = args[1]
    p = StrV(lit=chr(p)) if isint(p) else as_str(ex, st, p)
    if p.lit is None:
        raise Unsupported('split of a symbolic string')
    if s.lit is None:
        # an unknown text has one, two, or at least three parts (the third stands for all that follows)
        if len(p.lit) != 1:
            raise Unsupported('split of a symbolic string')
        nm = f'split:{strid(s)!r}:{p.lit}'
        SPLITS[nm] = (s.key, p.lit)
        n = ex.choose(st, nm, (1, 2, 3), 4)
        es = [s] if n == 1 else [StrV(key=('part', s.key, p.lit, i)) for i in range(n)]
        return [(st, St(rty(inst), [VecV([Ptr(st.alloc(x)) for x in es]), 0]))]
    return [(st, St(rty(inst), [VecV([Ptr(st.alloc(StrV(lit=x))) for x in s.lit.split(p.lit)]), 0]))]


R('next', r'std::str::Split')(lambda ex, st, inst, args: METH['next'][0][2](ex, st, inst, args))


# ------------------------------------------------------------------ Vec and slices
VEC = r'std::vec::Vec'


@M('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::collections::VecDeque::new')
def _(ex, st, inst, args): return [(st, VecV(()))]


@R('default', VEC, r'std::default::Default')
def _(ex, st, inst, args): return [(st, VecV(()))]


@R('default', r'std::string::String', r'std::default::Default')
def _(ex, st, inst, args): return [(st, StrV(lit=''))]


def vec(ex, st, p):
    v = ex.deref(st, p)
    if not isinstance(v, VecV):
        raise Unsupported(f'vector expected: {v!r}')
    return v


@R('push push_back', VEC)
def _(ex, st, inst, args):
    ex.store_ptr(st, args[0], VecV(vec(ex, st, args[0]).e + (args[1],)))
    return [(st, unit())]


@R('pop', VEC)
def _(ex, st, inst, args):
    v = vec(ex, st, args[0])
    if not v.e:
        return [(st, mkv(ex, rty(inst), 'None'))]
    ex.store_ptr(st, args[0], VecV(v.e[:-1]))
    return [(st, mkv(ex, rty(inst), 'Some', v.e[-1]))]


@R('len', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    v = ex.deref(st, args[0])
    if isinstance(v, (StrV, Opq)):
        return [(st, slen(as_str(ex, st, v)))]
    return [(st, count(vec(ex, st, v)))]


@R('is_empty', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    v = ex.deref(st, args[0])
    if isinstance(v, StrV):
        return [(st, str_eq(v, StrV(lit='')))]
    return [(st, T.eq(count(vec(ex, st, v)), 0))]


@R('capacity', VEC)
def _(ex, st, inst, args): return [(st, 1 << 20)]


@R('reserve shrink_to_fit reserve_exact', VEC)
def _(ex, st, inst, args): return [(st, unit())]


@R('clear', VEC)
def _(ex, st, inst, args):
    ex.store_ptr(st, args[0], VecV(()))
    return [(st, unit())]


@R('truncate', VEC)
def _(ex, st, inst, args):
    ex.store_ptr(st, args[0], VecV(vec(ex, st, args[0]).e[:args[1]]))
    return [(st, unit())]


@R('remove', VEC)
def _(ex, st, inst, args):
    v = vec(ex, st, args[0])
    i = ex.concretize(st, args[1], len(v.e))
    if i >= len(v.e):
        return []
    ex.store_ptr(st, args[0], VecV(v.e[:i] + v.e[i + 1:]))
    return [(st, v.e[i])]


@R('swap_remove', VEC)
def _(ex, st, inst, args):
    v = vec(ex, st, args[0])
    i = ex.concretize(st, args[1], len(v.e))
    if i >= len(v.e):
        return []
    l = list(v.e)
    r = l[i]
    l[i] = l[-1]
    l.pop()
    ex.store_ptr(st, args[0], VecV(l))
    return [(st, r)]


@R('insert', VEC)
def _(ex, st, inst, args):
    v = vec(ex, st, args[0])
    i = ex.concretize(st, args[1], len(v.e) + 1)
    if i > len(v.e):
        return []
    ex.store_ptr(st, args[0], VecV(v.e[:i] + (args[2],) + v.e[i:]))
    return [(st, unit())]


@R('append', VEC)
def _(ex, st, inst, args):
    a, b = vec(ex, st, args[0]), vec(ex, st, args[1])
    ex.store_ptr(st, args[0], VecV(a.e + b.e))
    ex.store_ptr(st, args[1], VecV(()))
    return [(st, unit())]


@R('extend_from_slice', VEC)
def _(ex, st, inst, args):
    a, b = ex.deref(st, args[0]), ex.deref(st, args[1])
    if isinstance(a, VecV) and isinstance(b, VecV):
        ex.store_ptr(st, args[0], VecV(a.e + b.e))
    else:
        ex.store_ptr(st, args[0], bytes_concat(ex, st, [a, b]))
    return [(st, unit())]


def bytes_concat(ex, st, xs):
    return concat([as_str(ex, st, x) if not (isinstance(x, VecV) and not x.e) else StrV(lit='') for x in xs])


@R('to_vec', r'(\[.*\]|cosmwasm_std::binary::Binary)')
def _(ex, st, inst, args):
    v = ex.deref(st, args[0])
    if isinstance(v, St):
        v = v.f[0]
    return [(st, v)]


def index_ptr(ex, st, p, i):
    """pointer to element i of the vector behind p"""
    p = ex.force(st, p)
    s0, n = ex._range(st, p.cell, p.path, p.meta)
    if not isint(i):
        st.assume(And(le(0, i), lt(i, n)))
        i = ex.concretize(st, i, n)
    if not 0 <= i < n:
        return None
    return Ptr(p.cell, p.path + (s0 + i,))


def rng(ex, st, v, n):
    """(start, end) of a Range-like value"""
    t = ex.ty(v.ty)
    b = t['base'].rsplit('::', 1)[-1]
    f = [ex.deref(st, x) for x in v.f]
    if b == 'Range':
        return f[0], f[1]
    if b == 'RangeTo':
        return 0, f[0]
    if b == 'RangeFrom':
        return f[0], n
    if b == 'RangeFull':
        return 0, n
    if b == 'RangeInclusive':
        return f[0], f[1] + 1
    raise Unsupported('range ' + b)


def bytes_at(ex, st, v, i):
    """bytes of a text that starts with known bytes"""
    ps = [('l', v.lit)] if v.lit is not None else v.key[1] if isinstance(v.key, tuple) and v.key[0] == 'cat' else ()
    head = ps[0][1] if ps and ps[0][0] == 'l' else ''
    if not head.isascii():
        raise Unsupported('bytes of a text')
    if isinstance(i, St):
        a, b = rng(ex, st, i, None)
        if not isint(a) or b is not None or a > len(head):
            raise Unsupported('part of a text')
        return [(st, Ptr(st.alloc(concat([('l', head[a:])] + list(ps[1:])))))]
    if not isint(i) or i >= len(head):
        raise Unsupported('byte of a text')
    return [(st, Ptr(st.alloc(ord(head[i]))))]


@R('index index_mut', r'(std::vec::Vec|\[.*\])', r'std::ops::Index(Mut)?')
def _(ex, st, inst, args):
    i = ex.force(st, args[1])
    p = ex.force(st, args[0])
    v = ex.force(st, ex.read(st, p.cell, p.path)) if isinstance(p, Ptr) and p.meta is None else None
    if isinstance(v, StrV):
        return bytes_at(ex, st, v, i)
    if isinstance(i, St):
        s0, n = ex._range(st, p.cell, p.path, p.meta)
        a, b = rng(ex, st, i, n)
        if not (isint(a) and isint(b)):
            raise Unsupported('symbolic slice range')
        if not 0 <= a <= b <= n:
            return []
        return [(st, Ptr(p.cell, p.path, (s0 + a, b - a)))]
    q = index_ptr(ex, st, p, i)
    return [] if q is None else [(st, q)]


@R('get get_mut', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    p = ex.force(st, args[0])
    i = ex.force(st, args[1])
    if isinstance(i, St):
        s0, n = ex._range(st, p.cell, p.path, p.meta)
        a, b = rng(ex, st, i, n)
        if 0 <= a <= b <= n:
            return [(st, mkv(ex, rty(inst), 'Some', Ptr(p.cell, p.path, (s0 + a, b - a))))]
        return [(st, mkv(ex, rty(inst), 'None'))]
    s0, n = ex._range(st, p.cell, p.path, p.meta)
    if not isint(i):
        if ex.decide(st, lt(i, n)):
            i = ex.concretize(st, i, n)
        else:
            i = n
    if i < n:
        return [(st, mkv(ex, rty(inst), 'Some', Ptr(p.cell, p.path + (s0 + i,))))]
    return [(st, mkv(ex, rty(inst), 'None'))]


@R('first last first_mut last_mut', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    p = ex.force(st, args[0])
    s0, n = ex._range(st, p.cell, p.path, p.meta)
    if not n:
        return [(st, mkv(ex, rty(inst), 'None'))]
    i = 0 if '::first' in inst['norm'] else n - 1
    return [(st, mkv(ex, rty(inst), 'Some', Ptr(p.cell, p.path + (s0 + i,))))]


@R('split_first split_last', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    p = ex.force(st, args[0])
    s0, n = ex._range(st, p.cell, p.path, p.meta)
    if not n:
        return [(st, mkv(ex, rty(inst), 'None'))]
    if 'first' in inst['norm']:
        v = St(None, [Ptr(p.cell, p.path + (s0,)), Ptr(p.cell, p.path, (s0 + 1, n - 1))])
    else:
        v = St(None, [Ptr(p.cell, p.path + (s0 + n - 1,)), Ptr(p.cell, p.path, (s0, n - 1))])
    return [(st, mkv(ex, rty(inst), 'Some', v))]


@R('split_at', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    p = ex.force(st, args[0])
    s0, n = ex._range(st, p.cell, p.path, p.meta)
    k = args[1]
    return [(st, St(rty(inst), [Ptr(p.cell, p.path, (s0, k)), Ptr(p.cell, p.path, (s0 + k, n - k))]))]


@R('contains', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    v = vec(ex, st, args[0])
    return [(st, Or(*[veq(ex, st, x, args[1]) for x in v.e]))]


@R('starts_with ends_with', r'\[.*\]')
def _(ex, st, inst, args):
    v, w = ex.deref(st, args[0]), ex.deref(st, args[1])
    if isinstance(v, VecV) and isinstance(w, VecV):
        if len(w.e) > len(v.e):
            return [(st, False)]
        x = v.e[:len(w.e)] if 'starts' in inst['norm'] else v.e[len(v.e) - len(w.e):]
        return [(st, veq(ex, st, VecV(x), w))]
    raise Unsupported('starts_with')


@R('swap', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    v = list(vec(ex, st, args[0]).e)
    i, j = ex.concretize(st, args[1], len(v)), ex.concretize(st, args[2], len(v))
    if not (i < len(v) and j < len(v)):
        return []
    v[i], v[j] = v[j], v[i]
    ex.store_ptr(st, args[0], VecV(v))
    return [(st, unit())]


@R('reverse', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    ex.store_ptr(st, args[0], VecV(vec(ex, st, args[0]).e[::-1]))
    return [(st, unit())]


@R('copy_from_slice clone_from_slice', r'\[.*\]')
def _(ex, st, inst, args):
    b = vec(ex, st, args[1])
    if len(vec(ex, st, args[0]).e) != len(b.e):
        return []
    p = ex.force(st, args[0])
    if p.meta is None:
        ex.write(st, p.cell, p.path, b)
    else:
        ex.store_ptr(st, p, b)
    return [(st, unit())]


@R('fill', r'\[.*\]')
def _(ex, st, inst, args):
    p = ex.force(st, args[0])
    n = len(vec(ex, st, p).e)
    ex.store_ptr(st, p, VecV([args[1]] * n))
    return [(st, unit())]


# ------------------------------------------------------------------ iterators
SIT = r'(std::slice::Iter|std::slice::IterMut)'
OWN = r'(std::vec::IntoIter|std::array::IntoIter|std::array::iter::IntoIter|std::vec::Drain|std::collections::hash_map::\w+|std::collections::hash_set::\w+|std::collections::btree_map::\w+|std::collections::btree_set::\w+|std::str::Split|std::str::Chars)'


def mkit(ex, st, ty, p):
    p = ex.force(st, p)
    if not isinstance(p, Ptr):
        raise Unsupported(f'iter over {p!r}')
    v = ex.force(st, ex.read(st, p.cell, p.path))
    if isinstance(v, StrV):
        if v.lit is None:
            raise Unsupported('bytes of a symbolic string')
        p = Ptr(st.alloc(VecV(v.lit.encode())))
        v = ex.read(st, p.cell, ())
    s0, n = p.meta if p.meta is not None else (0, len(v.e))
    return St(ty, [Ptr(p.cell, p.path), s0, s0 + n])


@R('iter iter_mut', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args): return [(st, mkit(ex, st, rty(inst), args[0]))]


@R('into_iter', r'&(mut )?(std::vec::Vec|\[.*\])', r'std::iter::IntoIterator')
def _(ex, st, inst, args): return [(st, mkit(ex, st, rty(inst), args[0]))]


@R('into_iter', r'(std::vec::Vec|\[.*\])', r'std::iter::IntoIterator')
def _(ex, st, inst, args):
    return [(st, St(rty(inst), [vec(ex, st, args[0])]))]


@R('drain', VEC)
def _(ex, st, inst, args):
    v = vec(ex, st, args[0])
    a, b = rng(ex, st, ex.force(st, args[1]), len(v.e))
    ex.store_ptr(st, args[0], VecV(v.e[:a] + v.e[b:]))
    return [(st, St(rty(inst), [VecV(v.e[a:b])]))]


@R('next', SIT, r'std::iter::Iterator')
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    p, i, n = it.f
    if i >= n:
        return [(st, mkv(ex, rty(inst), 'None'))]
    ex.store_ptr(st, args[0], St(it.ty, [p, i + 1, n]))
    return [(st, mkv(ex, rty(inst), 'Some', Ptr(p.cell, p.path + (i,))))]


@R('next_back', SIT, r'std::iter::DoubleEndedIterator')
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    p, i, n = it.f
    if i >= n:
        return [(st, mkv(ex, rty(inst), 'None'))]
    ex.store_ptr(st, args[0], St(it.ty, [p, i, n - 1]))
    return [(st, mkv(ex, rty(inst), 'Some', Ptr(p.cell, p.path + (n - 1,))))]


@R('len', SIT)
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    return [(st, it.f[2] - it.f[1])]


@R('size_hint', r'.*', r'std::iter::Iterator')
def _(ex, st, inst, args):
    t = ex.ty(rty(inst))
    return [(st, St(rty(inst), [0, mkv(ex, t['tys'][1], 'None')]))]


@R('next', OWN, r'std::iter::Iterator')
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    v = it.f[0]
    if len(it.f) > 1:
        v = VecV(v.e[it.f[1]:])
    if not v.e:
        return [(st, mkv(ex, rty(inst), 'None'))]
    ex.store_ptr(st, args[0], St(it.ty, [VecV(v.e[1:])]))
    return [(st, mkv(ex, rty(inst), 'Some', v.e[0]))]


@R('next_back', OWN, r'std::iter::DoubleEndedIterator')
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    v = it.f[0]
    if not v.e:
        return [(st, mkv(ex, rty(inst), 'None'))]
    ex.store_ptr(st, args[0], St(it.ty, [VecV(v.e[:-1])]))
    return [(st, mkv(ex, rty(inst), 'Some', v.e[-1]))]


@R('len', OWN)
def _(ex, st, inst, args): return [(st, len(ex.load(st, args[0]).f[0].e))]


def it_next(ex, ity):
    return ex.method('core', 'std::iter::Iterator', 'next', ity)


def iterate(ex, st, itp, ity, acc, step, back=False):
    """fold over an iterator: step(state, acc, item) -> [(state, acc, go_on)]; returns [(state, acc, exhausted)]"""
    nx = it_next(ex, ity) if not back else ex.method('core', 'std::iter::DoubleEndedIterator', 'next_back', ity)
    out = []
    work = [(st, acc)]
    n = 0
    while work:
        s, a = work.pop()
        n += 1
        if n > 4000:
            raise Unsupported('iterator does not end')
        ex.pins.append((itp, a))
        try:
            for s2, r in ex.call_inst(s, nx, [itp]):
                if r is PANIC:
                    continue
                r = ex.force(s2, r)
                if ex.ty(r.ty)['variants'][r.v]['name'] == 'None':
                    out.append((s2, a, True))
                else:
                    for s3, a2, go in step(s2, a, r.f[0]):
                        if go:
                            work.append((s3, a2))
                        else:
                            out.append((s3, a2, False))
        finally:
            ex.pins.pop()
    out.reverse()
    return out


def into_iter(ex, st, v, ty):
    """[(state, pointer to iterator, iterator type)]"""
    i = ex.method('core', 'std::iter::IntoIterator', 'into_iter', ty)
    out = []
    for s, it in ex.call_inst(st, i, [v]):
        out.append((s, Ptr(s.alloc(it)), i['sig'][1]))
    return out


def collect(ex, st, v, ty):
    """[(state, tuple of items)]"""
    out = []
    for s, p, ity in into_iter(ex, st, v, ty):
        for s2, a, _ in iterate(ex, s, p, ity, (), lambda s, a, x: [(s, a + (x,), True)]):
            s2.mem.pop(p.cell, None)
            out.append((s2, a))
    return out


def flatten_source(ex, st, v):
    """the inner iterator of an untouched Flatten"""
    v = ex.deref(st, v)
    while isinstance(v, St) and ex.ty(v.ty)['base'] in ('std::iter::Copied', 'std::iter::Cloned'):
        v = ex.deref(st, v.f[0])
    while isinstance(v, St) and v.f:
        b = ex.ty(v.ty)['base'] if v.ty is not None else ''
        if b in ('std::iter::Flatten', 'std::iter::adapters::flatten::FlattenCompat', 'std::iter::Fuse', 'std::iter::FlatMap'):
            v = ex.deref(st, v.f[0])
            continue
        break
    if isinstance(v, En) and v.f:      # Fuse keeps an Option
        v = v.f[0]
    return v


def flat_bytes(ex, ty):
    """type of the iterator of texts under Copied<Flatten<..>> of bytes, or None"""
    t = ex.ty(ty)
    b = t.get('base')
    if b in ('std::iter::Copied', 'std::iter::Cloned'):
        return flat_bytes(ex, t['args'][0])
    if b == 'std::iter::Flatten':
        return t['args'][0]
    return None


@R('from_iter', r'std::vec::Vec', r'std::iter::FromIterator')
def _(ex, st, inst, args):
    et = ex.ty(ex.ty(rty(inst))['args'][0])
    if et['k'] == 'uint' and et['bits'] == 8:
        v, ft = args[0], flat_bytes(ex, inst['args'][-1])
        if ft is not None:
            r = flatten_source(ex, st, v)
            if r is not None:
                out = []
                for s, a in collect(ex, st, r, ft):
                    xs = [ex.deref(s, x) for x in a]
                    if not all(isinstance(x, StrV) for x in xs):
                        raise Unsupported(f'bytes from {xs!r}')
                    out.append((s, concat(xs)))
                return out
    return [(s, VecV(a)) for s, a in collect(ex, st, args[0], inst['args'][-1])]


@R('from_iter', r'std::string::String', r'std::iter::FromIterator')
def _(ex, st, inst, args):
    return [(s, concat([StrV(lit=chr(x)) if isint(x) else as_str(ex, s, x) for x in a])) for s, a in collect(ex, st, args[0], inst['args'][-1])]


@R('extend', VEC, r'std::iter::Extend')
def _(ex, st, inst, args):
    out = []
    for s, a in collect(ex, st, args[1], inst['args'][-1]):
        a = tuple(ex.load(s, x) if isinstance(x, Ptr) and ex.ty(inst['args'][0])['k'] != 'ref' else x for x in a)
        ex.store_ptr(s, args[0], VecV(vec(ex, s, args[0]).e + a))
        out.append((s, unit()))
    return out


LEAF = f'({SIT}|{OWN}|std::iter::Zip|std::ops::Range|std::ops::RangeInclusive)'


def byptr(ex, st, inst, args):
    """pointer to the iterator argument and its type, whether passed by value or by &mut"""
    t = ex.ty(inst['sig'][0][0])
    if t['k'] == 'ref':
        return ex.force(st, args[0]), t['ty'], None
    c = st.alloc(args[0])
    return Ptr(c), inst['sig'][0][0], c


@R('fold', LEAF, r'std::iter::Iterator')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    f = args[2]
    fp = Ptr(st.alloc(f))

    def step(s, a, x):
        return [(s2, r, True) for s2, r in ex.call_value(s, fp, [a, x]) if r is not PANIC]
    return [(s, a) for s, a, _ in iterate(ex, st, p, ity, args[1], step)]


@R('rfold', LEAF, r'std::iter::DoubleEndedIterator')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    fp = Ptr(st.alloc(args[2]))

    def step(s, a, x):
        return [(s2, r, True) for s2, r in ex.call_value(s, fp, [a, x]) if r is not PANIC]
    return [(s, a) for s, a, _ in iterate(ex, st, p, ity, args[1], step, back=True)]


@R('for_each', LEAF, r'std::iter::Iterator')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    fp = Ptr(st.alloc(args[1]))

    def step(s, a, x):
        return [(s2, None, True) for s2, r in ex.call_value(s, fp, [x]) if r is not PANIC]
    return [(s, unit()) for s, a, _ in iterate(ex, st, p, ity, None, step)]


def try_kind(ex, v):
    n = ex.ty(v.ty)['variants'][v.v]['name']
    return n in ('Ok', 'Some', 'Continue')


@R('try_fold', LEAF, r'std::iter::Iterator')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    fp = Ptr(st.alloc(args[2]))
    rt = rty(inst)
    t = ex.ty(rt)

    def wrap(a):
        b = t.get('base', '')
        for nm in ('Ok', 'Some', 'Continue'):
            for v in t['variants']:
                if v['name'] == nm:
                    return mkv(ex, rt, nm, a)
        return St(rt, [a])     # NeverShortCircuit

    def step(s, a, x):
        o = []
        for s2, r in ex.call_value(s, fp, [a, x]):
            if r is PANIC:
                continue
            r = ex.force(s2, r)
            if isinstance(r, St):
                o.append((s2, r.f[0], True))
            elif try_kind(ex, r):
                o.append((s2, r.f[0], True))
            else:
                o.append((s2, r, False))
        return o
    return [(s, wrap(a) if done else a) for s, a, done in iterate(ex, st, p, ity, args[1], step)]


@R('count', LEAF, r'std::iter::Iterator')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    return [(s, a) for s, a, _ in iterate(ex, st, p, ity, 0, lambda s, a, x: [(s, a + 1, True)])]


@R('last', LEAF, r'std::iter::Iterator')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    n = mkv(ex, rty(inst), 'None')
    return [(s, a) for s, a, _ in iterate(ex, st, p, ity, n, lambda s, a, x: [(s, mkv(ex, rty(inst), 'Some', x), True)])]


@R('nth', LEAF, r'std::iter::Iterator')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    n = args[1]
    if not isint(n):
        raise Unsupported('nth')

    def step(s, a, x):
        return [(s, x, False)] if a == n else [(s, a + 1, True)]
    return [(s, mkv(ex, rty(inst), 'None') if done else mkv(ex, rty(inst), 'Some', a)) for s, a, done in iterate(ex, st, p, ity, 0, step)]


# any / all / find / position / find_map / is_sorted are executed from MIR except for leaves with pointer tricks
@R('any all', LEAF, r'std::iter::Iterator')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    fp = Ptr(st.alloc(args[1]))
    isany = inst['norm'].endswith('any')

    def step(s, a, x):
        o = []
        for s2, r in ex.call_value(s, fp, [x]):
            if r is PANIC:
                continue
            if isinstance(r, bool):
                o.append((s2, None, r != isany))
                continue
            y, n = both(ex, s2, r)
            if y is not None:
                o.append((y, None, not isany))
            if n is not None:
                o.append((n, None, isany))
        return o
    return [(s, (not isany) if done else isany) for s, a, done in iterate(ex, st, p, ity, None, step)]


@R('find position find_map', LEAF, r'std::iter::Iterator')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    fp = Ptr(st.alloc(args[1]))
    m = inst['norm'].rsplit('::', 1)[-1]

    def step(s, a, x):
        o = []
        arg = x
        if m == 'find':
            arg = Ptr(s.alloc(x))
        for s2, r in ex.call_value(s, fp, [arg]):
            if r is PANIC:
                continue
            if m == 'find_map':
                r = ex.force(s2, r)
                o.append((s2, r.f[0], False) if try_kind(ex, r) else (s2, a, True))
                continue
            y, n = both(ex, s2, r)
            if y is not None:
                o.append((y, x if m == 'find' else a, False))
            if n is not None:
                o.append((n, a + 1 if m == 'position' else a, True))
        return o
    return [(s, mkv(ex, rty(inst), 'None') if done else mkv(ex, rty(inst), 'Some', a))
            for s, a, done in iterate(ex, st, p, ity, 0, step)]


@M('std::iter::zip', 'std::iter::Zip::new')
def _(ex, st, inst, args):
    t = ex.ty(rty(inst))
    return [(st, St(rty(inst), [args[0], args[1]]))]


@R('new', r'std::iter::Zip', r'.*')
def _(ex, st, inst, args): return [(st, St(rty(inst), [args[0], args[1]]))]


@R('zip', r'.*', r'std::iter::Iterator')
def _(ex, st, inst, args):
    # Zip { a, b: other.into_iter() }
    ty = rty(inst)
    out = []
    i = ex.method('core', 'std::iter::IntoIterator', 'into_iter', inst['sig'][0][1])
    for s, b in ex.call_inst(st, i, [args[1]]):
        out.append((s, St(ty, [args[0], b])))
    return out


@R('next', r'std::iter::Zip', r'std::iter::Iterator')
def _(ex, st, inst, args):
    p = ex.force(st, args[0])
    zt = ex.ty(ex.ty(inst['sig'][0][0])['ty'])
    ta, tb = zt['args'][0], zt['args'][1]
    out = []
    none = mkv(ex, rty(inst), 'None')
    for s, a in ex.call_inst(st, it_next(ex, ta), [Ptr(p.cell, p.path + (0,))]):
        if a is PANIC:
            continue
        a = ex.force(s, a)
        if not try_kind(ex, a):
            out.append((s, none))
            continue
        for s2, b in ex.call_inst(s, it_next(ex, tb), [Ptr(p.cell, p.path + (1,))]):
            if b is PANIC:
                continue
            b = ex.force(s2, b)
            if not try_kind(ex, b):
                out.append((s2, none))
            else:
                out.append((s2, mkv(ex, rty(inst), 'Some', St(okty(ex, inst), [a.f[0], b.f[0]]))))
    return out


@R('next', r'std::ops::Range', r'std::iter::Iterator')
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    a, b = it.f
    if ex.decide(st, lt(a, b)):
        ex.store_ptr(st, args[0], St(it.ty, [add(a, 1), b]))
        return [(st, mkv(ex, rty(inst), 'Some', a))]
    return [(st, mkv(ex, rty(inst), 'None'))]


@R('next_back', r'std::ops::Range', r'std::iter::DoubleEndedIterator')
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    a, b = it.f
    if ex.decide(st, lt(a, b)):
        ex.store_ptr(st, args[0], St(it.ty, [a, sub(b, 1)]))
        return [(st, mkv(ex, rty(inst), 'Some', sub(b, 1)))]
    return [(st, mkv(ex, rty(inst), 'None'))]


@M('std::ops::RangeInclusive::new')
def _(ex, st, inst, args): return [(st, St(rty(inst), [args[0], args[1], False]))]


@R('next next_back', r'std::ops::RangeInclusive', r'std::iter::(DoubleEnded)?Iterator')
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    a, b, done = it.f
    if done is True or not ex.decide(st, le(a, b)):
        return [(st, mkv(ex, rty(inst), 'None'))]
    last = ex.decide(st, eq(a, b))
    if inst['norm'].endswith('next_back'):
        ex.store_ptr(st, args[0], St(it.ty, [a, b if last else sub(b, 1), last]))
        return [(st, mkv(ex, rty(inst), 'Some', b))]
    ex.store_ptr(st, args[0], St(it.ty, [a if last else add(a, 1), b, last]))
    return [(st, mkv(ex, rty(inst), 'Some', a))]


@R('contains', r'std::ops::RangeInclusive')
def _(ex, st, inst, args):
    it = ex.deref(st, args[0])
    x = num(ex, st, args[1])
    return [(st, And(le(num(ex, st, it.f[0]), x), le(x, num(ex, st, it.f[1]))))]


@R('contains', r'std::ops::Range')
def _(ex, st, inst, args):
    it = ex.deref(st, args[0])
    x = num(ex, st, args[1])
    return [(st, And(le(num(ex, st, it.f[0]), x), lt(x, num(ex, st, it.f[1]))))]


# sorting: insertion sort with case splits on the comparison
def sort_items(ex, st, items, less):
    """less(state, a, b) -> [(state, bool)]; returns [(state, sorted list)]; stable"""
    res = [(st, [])]
    for x in items:
        nr = []
        for s, l in res:
            work = [(s, len(l))]
            while work:
                s1, k = work.pop()
                if k == 0:
                    nr.append((s1, [x] + l))
                    continue
                for s2, c in less(s1, x, l[k - 1]):
                    y, n = both(ex, s2, c)
                    if y is not None:
                        work.append((y, k - 1))
                    if n is not None:
                        nr.append((n, l[:k] + [x] + l[k:]))
        res = nr
    return res


def cmp_less(ex, ty):
    def less(s, a, b):
        t = ex.ty(ty)
        if isnumty(ex, ty):
            return [(s, lt(num(ex, s, a), num(ex, s, b)))]
        x, y = ex.deref(s, a), ex.deref(s, b)
        if isinstance(x, StrV) or isinstance(y, StrV) or strip(ex, ty) in STRINGY:
            x, y = as_str(ex, s, x), as_str(ex, s, y)
            if x.lit is not None and y.lit is not None:
                return [(s, x.lit < y.lit)]
            return [(s, T.lt(strord(x), strord(y)))]
        pa, pb = a, b
        tt = ty
        i = ex.method('core', 'std::cmp::Ord', 'cmp', tt)
        if not (isinstance(a, Ptr) and t['k'] != 'ref'):
            pa, pb = Ptr(s.alloc(a)), Ptr(s.alloc(b))
        out = []
        for s2, r in ex.call_inst(s, i, [pa, pb]):
            out.append((s2, ex.ty(r.ty)['variants'][r.v]['name'] == 'Less'))
        return out
    return less


def strord(s):
    """order-embedding of strings: the same integer that stands for the string (an arbitrary total order that is
    consistent with equality)"""
    return strid(s)


@R('sort sort_unstable', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    v = vec(ex, st, args[0])
    t = ex.ty(inst['sig'][0][0])
    et = ex.ty(t['ty'])
    et = et['ty'] if et['k'] in ('slice', 'array') else et['args'][0]
    out = []
    for s, l in sort_items(ex, st, list(v.e), cmp_less(ex, et)):
        ex.store_ptr(s, args[0], VecV(l))
        out.append((s, unit()))
    return out


@R('sort_by sort_unstable_by', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    v = vec(ex, st, args[0])
    fp = Ptr(st.alloc(args[1]))

    def less(s, a, b):
        pa, pb = Ptr(s.alloc(a)), Ptr(s.alloc(b))
        o = []
        for s2, r in ex.call_value(s, fp, [pa, pb]):
            r = ex.force(s2, r)
            o.append((s2, ex.ty(r.ty)['variants'][r.v]['name'] == 'Less'))
        return o
    out = []
    for s, l in sort_items(ex, st, list(v.e), less):
        ex.store_ptr(s, args[0], VecV(l))
        out.append((s, unit()))
    return out


@R('sort_by_key sort_unstable_by_key sort_by_cached_key', r'(std::vec::Vec|\[.*\])')
def _(ex, st, inst, args):
    v = vec(ex, st, args[0])
    fp = Ptr(st.alloc(args[1]))
    kt = inst['args'][1] if len(inst['args']) > 1 else None

    def less(s, a, b):
        o = []
        for s2, x in ex.call_value(s, fp, [Ptr(s.alloc(a))]):
            for s3, y in ex.call_value(s2, fp, [Ptr(s2.alloc(b))]):
                o += cmp_less(ex, kt)(s3, x, y)
        return o
    out = []
    for s, l in sort_items(ex, st, list(v.e), less):
        ex.store_ptr(s, args[0], VecV(l))
        out.append((s, unit()))
    return out


@R('sorted', r'.*', r'itertools::Itertools')
def _(ex, st, inst, args):
    out = []
    et = ex.ty(rty(inst))['args'][0]
    for s, a in collect(ex, st, args[0], inst['sig'][0][0]):
        for s2, l in sort_items(ex, s, list(a), cmp_less(ex, et)):
            out.append((s2, St(rty(inst), [VecV(l)])))
    return out


@R('group_by', r'.*', r'itertools::Itertools')
def _(ex, st, inst, args):
    # the groups, formed at once (what the source iterator and the key function do has no effects)
    out = []
    p = Ptr(st.alloc(args[0]))
    fp = args[1] if isinstance(args[1], Ptr) else Ptr(st.alloc(args[1]))

    def step(s, a, x):
        return [(s2, a + ((k, x),), True) for s2, k in ex.call_value(s, fp, [Ptr(s.alloc(x))]) if k is not PANIC]
    for s2, a, _ in iterate(ex, st, p, inst['sig'][0][0], (), step):
        out.append((s2, St(rty(inst), [VecV([St('kv', [k, x]) for k, x in a])])))
    return out


@R('into_iter', r'&itertools::groupbylazy::GroupBy', r'std::iter::IntoIterator')
def _(ex, st, inst, args):
    kvs = ex.deref(st, args[0]).f[0].e
    gs = []
    for kv in kvs:
        if gs and ex.decide(st, veq(ex, st, gs[-1][0], kv.f[0])):
            gs[-1][1].append(kv.f[1])
        else:
            gs.append((kv.f[0], [kv.f[1]]))
    return [(st, St(rty(inst), [VecV([St('kv', [k, VecV(g)]) for k, g in gs]), 0]))]


@R('next', r'itertools::groupbylazy::Groups')
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    e, i = it.f
    if i >= len(e.e):
        return [(st, mkv(ex, rty(inst), 'None'))]
    ex.store_ptr(st, args[0], St(it.ty, [e, i + 1]))
    tt = okty(ex, inst)
    k, g = e.e[i].f
    return [(st, mkv(ex, rty(inst), 'Some', St(tt, [k, St(ex.ty(tt)['tys'][1], [g, 0])])))]


@R('next', r'itertools::groupbylazy::Group')
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    e, i = it.f
    if i >= len(e.e):
        return [(st, mkv(ex, rty(inst), 'None'))]
    ex.store_ptr(st, args[0], St(it.ty, [e, i + 1]))
    return [(st, mkv(ex, rty(inst), 'Some', e.e[i]))]


@R('all_unique', r'.*', r'itertools::Itertools')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    out = []
    for s, a, _ in iterate(ex, st, p, ity, (), lambda s, a, x: [(s, a + (x,), True)]):
        cs = []
        for i in range(len(a)):
            for j in range(i):
                cs.append(Not(veq(ex, s, a[i], a[j])))
        out.append((s, And(*cs)))
    return out


@R('collect_vec', r'.*', r'itertools::Itertools')
def _(ex, st, inst, args):
    return [(s, VecV(a)) for s, a in collect(ex, st, args[0], inst['sig'][0][0])]


@R('collect_tuple', r'.*', r'itertools::Itertools')
def _(ex, st, inst, args):
    out = []
    tt = ex.ty(okty(ex, inst))
    for s, a in collect(ex, st, args[0], inst['sig'][0][0]):
        if len(a) == len(tt['tys']):
            out.append((s, mkv(ex, rty(inst), 'Some', St(okty(ex, inst), a))))
        else:
            out.append((s, mkv(ex, rty(inst), 'None')))
    return out


@R('find_position', r'.*', r'itertools::Itertools')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    fp = Ptr(st.alloc(args[1]))

    def step(s, a, x):
        o = []
        for s2, r in ex.call_value(s, fp, [Ptr(s.alloc(x))]):
            y, n = both(ex, s2, r)
            if y is not None:
                o.append((y, (a, x), False))
            if n is not None:
                o.append((n, a + 1, True))
        return o
    return [(s, mkv(ex, rty(inst), 'None') if done else mkv(ex, rty(inst), 'Some', St(okty(ex, inst), a)))
            for s, a, done in iterate(ex, st, p, ity, 0, step)]


@R('join', r'.*', r'itertools::Itertools')
def _(ex, st, inst, args):
    p, ity, c = byptr(ex, st, inst, args)
    sep = as_str(ex, st, args[1])
    nx = it_next(ex, ity)
    et = ex.ty(nx['sig'][1])['args'][0]
    out = []
    for s, a, _ in iterate(ex, st, p, ity, (), lambda s, a, x: [(s, a + (x,), True)]):
        states = [(s, [])]
        for x in a:
            ns = []
            for s2, ps in states:
                v = x if ex.ty(et)['k'] == 'ref' else Ptr(s2.alloc(x))
                ty = ex.ty(et)['ty'] if ex.ty(et)['k'] == 'ref' else et
                for s3, r in fmt_run(ex, s2, 'Display', ty, v):
                    ns.append((s3, ps + ([sep] if ps else []) + [r]))
            states = ns
        out += [(s2, concat(ps)) for s2, ps in states]
    return out


@R('into_group_map_by', r'.*', r'itertools::Itertools')
def _(ex, st, inst, args):
    ty = rty(inst)
    fp = Ptr(st.alloc(args[1]))
    out = []
    for s, a in collect(ex, st, args[0], inst['sig'][0][0]):
        states = [(s, [])]
        for x in a:
            ns = []
            for s2, groups in states:
                for s3, k in ex.call_value(s2, fp, [Ptr(s2.alloc(x))]):
                    work = [(s3, 0)]
                    while work:
                        s4, j = work.pop()
                        if j == len(groups):
                            ns.append((s4, groups + [(k, (x,))]))
                            continue
                        y, n = both(ex, s4, veq(ex, s4, k, groups[j][0]))
                        if y is not None:
                            g = list(groups)
                            g[j] = (g[j][0], g[j][1] + (x,))
                            ns.append((y, g))
                        if n is not None:
                            work.append((n, j + 1))
            states = ns
        for s2, g in states:
            out.append((s2, St(ty, [VecV([St(None, [k, VecV(v)]) for k, v in g])])))
    return out


@R('max min', r'std::iter::.*|std::slice::.*|std::vec::IntoIter', r'std::iter::Iterator')
def _(ex, st, inst, args):
    et = okty(ex, inst)
    if not isnumty(ex, et):
        return fall(ex, st, inst, args)
    f = imax if inst['norm'].endswith('max') else imin
    out = []
    for s, a in collect(ex, st, args[0], inst['sig'][0][0]):
        if not a:
            out.append((s, mkv(ex, rty(inst), 'None')))
            continue
        r = num(ex, s, a[0])
        for x in a[1:]:
            r = f(r, num(ex, s, x))
        v = mknum(ex, et if ex.ty(et)['k'] != 'ref' else ex.ty(et)['ty'], r)
        out.append((s, mkv(ex, rty(inst), 'Some', v if ex.ty(et)['k'] != 'ref' else Ptr(s.alloc(v)))))
    return out


@R('sum', r'.*', r'std::iter::Iterator')
def _(ex, st, inst, args):
    if not isnumty(ex, rty(inst)):
        return fall(ex, st, inst, args)
    out = []
    for s, a in collect(ex, st, args[0], inst['sig'][0][0]):
        r = 0
        for x in a:
            r = add(r, num(ex, s, x))
        out += retp(ex, s, inst, r)
    return out


@R('retain', VEC)
def _(ex, st, inst, args):
    v = vec(ex, st, args[0])
    fp = Ptr(st.alloc(args[1]))
    states = [(st, ())]
    for x in v.e:
        ns = []
        for s, a in states:
            for s2, r in ex.call_value(s, fp, [Ptr(s.alloc(x))]):
                y, n = both(ex, s2, r)
                if y is not None:
                    ns.append((y, a + (x,)))
                if n is not None:
                    ns.append((n, a))
        states = ns
    out = []
    for s, a in states:
        ex.store_ptr(s, args[0], VecV(a))
        out.append((s, unit()))
    return out


@R('dedup', VEC)
def _(ex, st, inst, args):
    v = vec(ex, st, args[0])
    l = []
    for x in v.e:
        if l and ex.decide(st, veq(ex, st, l[-1], x)):
            continue
        l.append(x)
    ex.store_ptr(st, args[0], VecV(l))
    return [(st, unit())]


# ------------------------------------------------------------------ hash / btree maps and sets (association lists)
HM = r'std::collections::(HashMap|BTreeMap)'
HS = r'std::collections::(HashSet|BTreeSet)'


@R('new with_capacity default', r'std::collections::(HashMap|BTreeMap|HashSet|BTreeSet)')
def _(ex, st, inst, args): return [(st, St(rty(inst), [VecV(())]))]


def hfind(ex, st, m, k):
    """index of key k in the association list, deciding equalities; None if absent"""
    for j, x in enumerate(m.e):
        kk = x.f[0] if isinstance(x, St) and x.ty == 'kv' else x
        if ex.decide(st, veq(ex, st, kk, k)):
            return j
    return None


def hget(ex, st, p):
    v = ex.deref(st, p)
    return v, v.f[0]


@R('insert', HM)
def _(ex, st, inst, args):
    h, m = hget(ex, st, args[0])
    j = hfind(ex, st, m, args[1])
    if j is None:
        ex.store_ptr(st, args[0], St(h.ty, [VecV(m.e + (St('kv', [args[1], args[2]]),))]))
        return [(st, mkv(ex, rty(inst), 'None'))]
    l = list(m.e)
    old = l[j].f[1]
    l[j] = St('kv', [l[j].f[0], args[2]])
    ex.store_ptr(st, args[0], St(h.ty, [VecV(l)]))
    return [(st, mkv(ex, rty(inst), 'Some', old))]


@R('insert', HS)
def _(ex, st, inst, args):
    h, m = hget(ex, st, args[0])
    j = hfind(ex, st, m, args[1])
    if j is None:
        ex.store_ptr(st, args[0], St(h.ty, [VecV(m.e + (args[1],))]))
    return [(st, j is None)]


@R('get get_mut', HM)
def _(ex, st, inst, args):
    h, m = hget(ex, st, args[0])
    p = ex.force(st, args[0])
    j = hfind(ex, st, m, args[1])
    if j is None:
        return [(st, mkv(ex, rty(inst), 'None'))]
    return [(st, mkv(ex, rty(inst), 'Some', Ptr(p.cell, p.path + (0, j, 1))))]


@R('get', HS)
def _(ex, st, inst, args):
    h, m = hget(ex, st, args[0])
    p = ex.force(st, args[0])
    j = hfind(ex, st, m, args[1])
    if j is None:
        return [(st, mkv(ex, rty(inst), 'None'))]
    return [(st, mkv(ex, rty(inst), 'Some', Ptr(p.cell, p.path + (0, j))))]


@R('remove', f'({HM}|{HS})')
def _(ex, st, inst, args):
    h, m = hget(ex, st, args[0])
    j = hfind(ex, st, m, args[1])
    isset = 'Set' in inst['norm']
    if j is None:
        return [(st, False if isset else mkv(ex, rty(inst), 'None'))]
    old = m.e[j]
    ex.store_ptr(st, args[0], St(h.ty, [VecV(m.e[:j] + m.e[j + 1:])]))
    return [(st, True if isset else mkv(ex, rty(inst), 'Some', old.f[1]))]


@R('contains_key contains', f'({HM}|{HS})')
def _(ex, st, inst, args):
    h, m = hget(ex, st, args[0])
    return [(st, Or(*[veq(ex, st, x.f[0] if isinstance(x, St) and x.ty == 'kv' else x, args[1]) for x in m.e]))]


@R('len', f'({HM}|{HS})')
def _(ex, st, inst, args): return [(st, len(hget(ex, st, args[0])[1].e))]


@R('is_empty', f'({HM}|{HS})')
def _(ex, st, inst, args): return [(st, len(hget(ex, st, args[0])[1].e) == 0)]


@R('clear', f'({HM}|{HS})')
def _(ex, st, inst, args):
    h, m = hget(ex, st, args[0])
    ex.store_ptr(st, args[0], St(h.ty, [VecV(())]))
    return [(st, unit())]


@R('iter iter_mut keys values values_mut into_iter into_values into_keys', f'&?(mut )?({HM}|{HS})')
def _(ex, st, inst, args):
    m = inst['norm'].rsplit('::', 1)[-1]
    t = ex.ty(inst['sig'][0][0])
    h, l = hget(ex, st, args[0])
    isset = 'Set' in inst['norm']
    if t['k'] == 'ref':
        p = ex.force(st, args[0])
        es = []
        for j in range(len(l.e)):
            b = p.path + (0, j)
            if isset:
                es.append(Ptr(p.cell, b))
            elif m == 'keys':
                es.append(Ptr(p.cell, b + (0,)))
            elif m in ('values', 'values_mut'):
                es.append(Ptr(p.cell, b + (1,)))
            else:
                es.append(St(None, [Ptr(p.cell, b + (0,)), Ptr(p.cell, b + (1,))]))
        return [(st, St(rty(inst), [VecV(es)]))]
    if isset:
        es = l.e
    elif m == 'into_values':
        es = [x.f[1] for x in l.e]
    elif m == 'into_keys':
        es = [x.f[0] for x in l.e]
    else:
        es = [St(None, x.f) for x in l.e]
    return [(st, St(rty(inst), [VecV(es)]))]


@R('from_iter', f'({HM}|{HS})', r'std::iter::FromIterator')
def _(ex, st, inst, args):
    out = []
    isset = 'Set' in split(inst['norm'])[0]
    for s, a in collect(ex, st, args[0], inst['args'][-1]):
        def build(s):
            l = []
            for x in a:
                x = ex.force(s, x) if isset else ex.deref(s, x)
                k = x if isset else x.f[0]
                j = hfind(ex, s, VecV(l), k)
                if j is None:
                    l.append(x if isset else St('kv', x.f))
                elif not isset:
                    l[j] = St('kv', [l[j].f[0], x.f[1]])
            return [(s, St(rty(inst), [VecV(l)]))]
        out += ex.retry(s, build)
    return out


@R('extend', f'({HM}|{HS})', r'std::iter::Extend')
def _(ex, st, inst, args):
    out = []
    isset = 'Set' in split(inst['norm'])[0]
    for s, a in collect(ex, st, args[1], inst['args'][-1]):
        def build(s):
            h, m = hget(ex, s, args[0])
            l = list(m.e)
            for x in a:
                x = ex.force(s, x) if isset else ex.deref(s, x)
                j = hfind(ex, s, VecV(l), x if isset else x.f[0])
                if j is None:
                    l.append(x if isset else St('kv', x.f))
                elif not isset:
                    l[j] = St('kv', [l[j].f[0], x.f[1]])
            ex.store_ptr(s, args[0], St(h.ty, [VecV(l)]))
            return [(s, unit())]
        out += ex.retry(s, build)
    return out


@R('is_subset', HS)
def _(ex, st, inst, args):
    _, a = hget(ex, st, args[0])
    _, b = hget(ex, st, args[1])
    return [(st, And(*[Or(*[veq(ex, st, x, y) for y in b.e]) for x in a.e]))]


@R('difference', HS)
def _(ex, st, inst, args):
    _, a = hget(ex, st, args[0])
    _, b = hget(ex, st, args[1])
    p = ex.force(st, args[0])
    l = []
    for j, x in enumerate(a.e):
        if hfind(ex, st, b, x) is None:
            l.append(Ptr(p.cell, p.path + (0, j)))
    return [(st, St(rty(inst), [VecV(l)]))]


# ------------------------------------------------------------------ option / result fast paths
@R('branch', r'std::result::Result', r'std::ops::Try')
def _(ex, st, inst, args):
    v = ex.force(st, args[0])
    t = ex.ty(rty(inst))
    if ex.ty(v.ty)['variants'][v.v]['name'] == 'Ok':
        return [(st, mkv(ex, rty(inst), 'Continue', v.f[0]))]
    return [(st, mkv(ex, rty(inst), 'Break', En(t['args'][0], 1, v.f)))]


# ------------------------------------------------------------------ canonical form of values (keys of storage, queries)
def canon(ex, st, v, lazy=False):
    """(skeleton, leaves): two values with the same skeleton are equal iff their leaves are (lazy: symbolic enums nobody
    has looked into stand for themselves)"""
    leaves = []

    def go(v):
        if lazy:
            while isinstance(v, Ptr):
                v = ex.load0(st, v)
            if isinstance(v, Sym) and v.name not in st.choices:
                t = ex.ty(v.ty)
                if t['k'] == 'adt' and t['kind'] == 'enum' and v.name not in ex.fixed and len(ex.variants_policy.get(t['base'], '..')) > 1:
                    return f'<{v.name}>'
        v = ex.deref(st, v)
        if isbool(v):
            if isinstance(v, bool):
                return 'T' if v else 'F'
            leaves.append(ite(v, 1, 0))
            return 'b'
        if isint(v) or isinstance(v, Poly):
            leaves.append(v)
            return '#'
        if isinstance(v, StrV):
            leaves.append(strid(v))
            return '$'
        if isinstance(v, St):
            if len(v.f) == 1:
                return go(v.f[0])
            return '(' + ','.join(go(x) for x in v.f) + ')'
        if isinstance(v, En):
            return f'{v.v}<' + ','.join(go(x) for x in v.f) + '>'
        if isinstance(v, VecV):
            if v.e and all(isint(x) and 0 <= x < 256 for x in v.e):
                leaves.append(strid(StrV(lit=bytes(v.e).decode('utf8', 'replace'))))
                return '$'
            return '[' + ','.join(go(x) for x in v.e) + ']'
        if isinstance(v, Opq):
            if v.tag in ('json', 'proto'):
                return v.tag + ':' + go(v.a)
            return f'{v.tag}:{v.a}'
        if isinstance(v, Fn):
            return f'fn{v.ty}'
        raise Unsupported(f'canon {v!r}')
    sk = go(v)
    return sk, tuple(leaves)


def canon_eq(a, b):
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    return And(*[eq(x, y) for x, y in zip(a[1], b[1])])


def cname(c):
    return c[0] + '|' + ';'.join(T.show(x, 4) if isinstance(x, Poly) else (STRNAME(x)) for x in c[1])


def STRNAME(i):
    if i < 0:
        for k, v in T_STRID().items():
            if v == i:
                return repr(k)
    return str(i)


def T_STRID():
    import sym
    return sym._STRID


def freeze(ex, st, v):
    """a copy without pointers"""
    if isinstance(v, Sym):
        if ex.ty(v.ty)['k'] in ('ref', 'ptr'):
            return freeze(ex, st, ex.load(st, v))
        return v
    if isinstance(v, Ptr):
        return freeze(ex, st, ex.load(st, v))
    if isinstance(v, St):
        return St(v.ty, [freeze(ex, st, x) for x in v.f])
    if isinstance(v, En):
        return En(v.ty, v.v, [freeze(ex, st, x) for x in v.f])
    if isinstance(v, VecV):
        return VecV([freeze(ex, st, x) for x in v.e])
    return v


# ------------------------------------------------------------------ cosmwasm storage
def ns_of(ex, st, v):
    v = ex.deref(st, v)
    while isinstance(v, St):
        v = ex.deref(st, v.f[0])
    s = as_str(ex, st, v)
    if s.lit is None:
        raise Unsupported('symbolic storage namespace')
    return s.lit


def key_canon(ex, st, k):
    """canonical storage key: AssetInfo keys are the string inside (as in its PrimaryKey impl)"""
    k = ex.deref(st, k)
    if isinstance(k, En) and ex.ty(k.ty)['base'] == 'astroport::asset::AssetInfo':
        f = k.f[0]
        return canon(ex, st, f)
    if isinstance(k, Sym):
        k = ex.force(st, k)
    if isinstance(k, St) and len(k.f) > 1:
        cs = [key_canon(ex, st, x) for x in k.f]
        return '(' + ','.join(c[0] for c in cs) + ')', tuple(x for c in cs for x in c[1])
    return canon(ex, st, k)


NOKEY = ('', ())


class _Unread:
    def __repr__(self): return 'UNREAD'


UNREAD = _Unread()     # slot that was written without having been read


def slot(ex, st, ns, key, ty, forwrite=False):
    """index of the storage slot (ns, key), reading it from the initial store when it is new"""
    l = st.store.setdefault(ns, [])
    for j, (k, v) in enumerate(l):
        c = canon_eq(k, key)
        if c is True:
            return j
        if c is False:
            if k[0] != key[0] and not ns.endswith('@h'):
                raise Unsupported(f'keys of {ns}: {k[0]} {key[0]}')
            continue
        if ex.decide(st, c):
            return j
    if forwrite:
        l.append((key, UNREAD))
        st.pre.setdefault(ns, []).append((key, UNREAD))
        return len(l) - 1
    present = presence(ex, st, ns, key, len(l))
    if present is None:
        nm = f'has:{ns}[{cname(key)}]'
        present = ex.choose(st, nm, (1, 0), 2)
    v = ex.mk_initial(st, ns, key, ty) if present else None
    l.append((key, v))
    st.pre.setdefault(ns, []).append((key, v))
    return len(l) - 1


def sload(ex, st, ns, key, ty):
    j = slot(ex, st, ns, key, ty)
    return st.store[ns][j][1]


STRS = ('std::string::String', 'cosmwasm_std::addresses::Addr')


def has_skipped(ex, ty, seen=()):
    """does the stored form of this type leave a field out (a HashMap whose keys are not texts: #[serde(skip)])?"""
    if ty is None or ty in seen:
        return False
    t = ex.ty(ty)
    if t.get('base') == 'std::collections::HashMap' and len(t.get('args', ())) and ex.base(t['args'][0]) not in STRS:
        return True
    if t['k'] == 'adt' and not t.get('base', '').startswith(('std::', 'core::', 'alloc::')):
        return any(has_skipped(ex, f[1], seen + (ty,)) for vr in t['variants'] for f in vr['fields'])
    return False




def persist(ex, v):
    """what is read back after v was stored: fields that are not serialised come back empty"""
    memo = ex.__dict__.setdefault('skipped_memo', {})
    if not isinstance(v, (St, En)) or v.ty is None:
        return v
    if v.ty not in memo:
        memo[v.ty] = has_skipped(ex, v.ty)
    if not memo[v.ty]:
        return v
    if ex.ty(v.ty).get('base') == 'std::collections::HashMap':
        return St(v.ty, [VecV([])])
    f = [persist(ex, x) for x in v.f]
    return St(v.ty, f) if isinstance(v, St) else En(v.ty, v.v, f)


def sstore(ex, st, ns, key, ty, v):
    v = persist(ex, v)
    j = slot(ex, st, ns, key, ty, True)
    l = list(st.store[ns])
    l[j] = (l[j][0], v)
    st.store[ns] = l
    st.log.append(('w', ns, key, v))


def vt(ex, inst):
    """value type: last type argument of Item<T> / Map<K,T> / SnapshotMap<K,T>"""
    return inst['args']


def key_arg(ex, st, a):
    return key_canon(ex, st, a)


IT = r'cw_storage_plus::item::Item'
MP = r'cw_storage_plus::map::Map'
SM = r'cw_storage_plus::snapshot::map::SnapshotMap'
SI = r'cw_storage_plus::snapshot::item::SnapshotItem'


def handle(ex, st, inst, args):
    """(namespace, key, value type, remaining args)"""
    s = split(inst['norm'])[0]
    ns = ns_of(ex, st, args[0])
    if s.endswith('Item'):
        ex.val_ty[ns] = inst['args'][0]
        return ns, NOKEY, inst['args'][0], args[2:]
    ex.key_ty[ns] = inst['args'][0]
    ex.val_ty[ns] = inst['args'][1]
    return ns, key_arg(ex, st, args[2]), inst['args'][1], args[3:]


ST = f'({IT}|{MP}|{SM}|{SI})'


def changelog_ns(ex, st, v, ns):
    """namespace of the changelog of a snapshot container (a literal among its fields)"""
    if ns in ex.chlg_ns:
        return
    lits = []

    def go(v, d):
        v = ex.deref(st, v)
        if isinstance(v, StrV) and v.lit is not None:
            lits.append(v.lit)
        elif isinstance(v, VecV) and v.e and all(isint(x) for x in v.e):
            lits.append(bytes(v.e).decode())
        elif isinstance(v, (St, En)) and d < 6:
            for x in v.f:
                go(x, d + 1)
    go(v, 0)
    lits = [x for i, x in enumerate(lits) if x not in lits[:i]]
    ex.chlg_ns[ns] = lits[-1] if len(lits) >= 2 else None


@R('new', f'({IT}|{MP})')
def _(ex, st, inst, args):
    return [(st, St(rty(inst), [args[0]]))]


@R('load', ST)
def _(ex, st, inst, args):
    ns, k, ty, _ = handle(ex, st, inst, args)
    v = sload(ex, st, ns, k, ty)
    if v is None:
        return [(st, Err(ex, inst, f'not found {ns}'))]
    return [(st, Ok(ex, inst, v))]


@R('may_load', ST)
def _(ex, st, inst, args):
    ns, k, ty, _ = handle(ex, st, inst, args)
    v = sload(ex, st, ns, k, ty)
    oty = okty(ex, inst)
    return [(st, Ok(ex, inst, mkv(ex, oty, 'None') if v is None else mkv(ex, oty, 'Some', v)))]


@R('has exists', ST)
def _(ex, st, inst, args):
    ns, k, ty, _ = handle(ex, st, inst, args)
    return [(st, sload(ex, st, ns, k, ty) is not None)]


@R('save', ST)
def _(ex, st, inst, args):
    ns, k, ty, rest = handle(ex, st, inst, args)
    v = freeze(ex, st, rest[0])
    h = rest[1] if len(rest) > 1 else None
    sstore(ex, st, ns, k, ty, v)
    if h is not None:
        changelog_ns(ex, st, args[0], ns)
        st.log.append(('snap', ns, k, v, h))
    return [(st, Ok(ex, inst, unit()))]


@R('remove', ST)
def _(ex, st, inst, args):
    ns, k, ty, rest = handle(ex, st, inst, args)
    sstore(ex, st, ns, k, ty, None)
    s = split(inst['norm'])[0]
    if s.endswith(('SnapshotMap', 'SnapshotItem')):
        changelog_ns(ex, st, args[0], ns)
        st.log.append(('snap', ns, k, None, rest[0]))
        return [(st, Ok(ex, inst, unit()))]
    return [(st, unit())]


@R('update', ST)
def _(ex, st, inst, args):
    s0 = split(inst['norm'])[0]
    ns, k, ty, rest = handle(ex, st, inst, args)
    v = sload(ex, st, ns, k, ty)
    snap = s0.endswith(('SnapshotMap', 'SnapshotItem'))
    if snap:
        h, f = rest[0], rest[1]
    else:
        h, f = None, rest[0]
    if s0.endswith('::Item'):
        if v is None:
            e = mkv(ex, rty(inst), 'Err', Opq('err', f'not found {ns}'))
            return [(st, e)]
        a = v
    else:
        # closure takes Option<T>
        oty = closure_arg(ex, f, 0)
        a = mkv(ex, oty, 'None') if v is None else mkv(ex, oty, 'Some', v)
    out = []
    for s, r in ex.call_value(st, f, [a]):
        if r is PANIC:
            continue
        r = ex.force(s, r)
        if try_kind(ex, r):
            nv = freeze(ex, s, r.f[0])

            def put(s):
                sstore(ex, s, ns, k, ty, nv)
                if snap:
                    changelog_ns(ex, s, args[0], ns)
                    s.log.append(('snap', ns, k, nv, h))
                return [(s, mkv(ex, rty(inst), 'Ok', nv))]
            out += ex.retry(s, put)
        else:
            out.append((s, mkv(ex, rty(inst), 'Err', r.f[0])))
    return out


def closure_arg(ex, f, i):
    """type of the i-th argument of a closure value"""
    if isinstance(f, Fn):
        return ex.s.reg(ex.ty(f.ty)['inst'])['sig'][0][i]
    t = ex.ty(f.ty)
    inst = ex.s.reg(t['mutt'] or t['once'])
    b = ex.s.body(inst['id'])
    return b['locals'][2 + i]


@R('may_load_at_height', f'({SM}|{SI})')
def _(ex, st, inst, args):
    s = split(inst['norm'])[0]
    ns = ns_of(ex, st, args[0])
    if s.endswith('Item'):
        k, ty, h = NOKEY, inst['args'][0], args[2]
    else:
        k, ty, h = key_arg(ex, st, args[2]), inst['args'][1], args[3]
        ex.key_ty[ns] = inst['args'][0]
    ex.val_ty[ns] = ty
    changelog_ns(ex, st, args[0], ns)
    hk = (k[0] + '@', k[1] + (h,))
    v = sload(ex, st, ns + '@h', hk, ty)
    st.log.append(('hist', ns, k, h, v))
    oty = okty(ex, inst)
    return [(st, Ok(ex, inst, mkv(ex, oty, 'None') if v is None else mkv(ex, oty, 'Some', v)))]


@R('assert_checkpointed add_checkpoint remove_checkpoint', f'({SM}|{SI})')
def _(ex, st, inst, args): return [(st, Ok(ex, inst, unit()))]


@R('query', f'({IT}|{MP})')
def _(ex, st, inst, args):
    # Item::query(&self, querier, remote) / Map::query(&self, querier, remote, key)
    ns = ns_of(ex, st, args[0])
    ismap = 'Map' in split(inst['norm'])[0]
    remote = as_str(ex, st, args[2])
    k = key_arg(ex, st, args[3]) if ismap else NOKEY
    rk = ('raw:' + ns + ':' + k[0], (strid(remote),) + k[1])
    ty = okty(ex, inst)
    if ismap:
        ty0 = inst['args'][1]
    else:
        ty0 = inst['args'][0]
    return ext(ex, st, inst, rk, ty, ('rawquery', ns, remote, k))


# ------------------------------------------------------------------ queries
def known_query(ex, st, key, ty):
    """name of the answer to a request: that of an equal request made before, if any"""
    l = [(nm, canon_eq(k, key)) for nm, (k, t, _, _) in st.queries.items() if t == ty]
    for nm, c in l:
        if c is True:
            return nm
    for nm, c in l:
        if c is not False and nm in st.qg:
            c = And(c, st.qg[nm])
        if c is not False and ex.decide(st, c):
            return nm
    return 'q:' + cname(key)


def ext(ex, st, inst, key, ty, req):
    """deterministic external answer: either an error or some value of type ty"""
    nm = known_query(ex, st, key, ty)
    st.qg.pop(nm, None)
    c = 1 if ex.queries_succeed else ex.choose(st, 'ok:' + nm, (1, 0), 2)
    if c:
        v = ex.mk(ty, nm)
        if nm not in st.queries:
            st.queries[nm] = (key, ty, req, v)
        return [(st, Ok(ex, inst, v))]
    if nm not in st.queries:
        st.queries[nm] = (key, ty, req, None)
    return [(st, Err(ex, inst, 'query failed'))]


@R('query', r'cosmwasm_std::traits::QuerierWrapper')
def _(ex, st, inst, args):
    req = freeze(ex, st, args[1])
    k = canon(ex, st, req, True)
    return ext(ex, st, inst, ('Q' + k[0], k[1]), okty(ex, inst), req)


@R('query_wasm_raw', r'cosmwasm_std::traits::QuerierWrapper')
def _(ex, st, inst, args):
    a, k = as_str(ex, st, args[1]), ex.deref(st, args[2])
    kc = canon(ex, st, k)
    key, ty, req = ('raw' + kc[0], (strid(a),) + kc[1]), okty(ex, inst), ('wasm_raw', a, k)
    nm = known_query(ex, st, key, ty)
    st.qg.pop(nm, None)
    c = ex.choose(st, 'raw:' + nm, (1,) if ex.queries_succeed else (1, 2, 0), 3)
    v = None if c == 0 else mkv(ex, ty, 'Some', Opq('symbin', nm)) if c == 1 else mkv(ex, ty, 'None')
    if nm not in st.queries:
        st.queries[nm] = (key, ty, req, v)
    return [(st, Err(ex, inst, 'query failed') if v is None else Ok(ex, inst, v))]


@R('from deref', r'(cosmwasm_std::traits::QuerierWrapper|cosmwasm_std::deps::.*)')
def _(ex, st, inst, args): return fall(ex, st, inst, args)


@R('addr_validate', r'.*', r'cosmwasm_std::traits::Api')
def _(ex, st, inst, args):
    s = as_str(ex, st, args[1])
    c = boolvar(f'addr_valid:{strid(s)!r}')
    if ex.addresses_valid:
        c = True
    return checked(ex, st, inst, c, St(okty(ex, inst), [s]), 'invalid address')


@R('addr_canonicalize', r'.*', r'cosmwasm_std::traits::Api')
def _(ex, st, inst, args):
    s = as_str(ex, st, args[1])
    c = boolvar(f'addr_valid:{strid(s)!r}')
    return checked(ex, st, inst, c, St(okty(ex, inst), [St(None, [s])]), 'invalid address')


@R('get', r'.*', r'cosmwasm_std::traits::Storage')
def _(ex, st, inst, args): raise Unsupported('raw storage access')


# ------------------------------------------------------------------ serialisation
@M('cosmwasm_std::serde::to_json_binary', 'cosmwasm_std::serde::to_binary')
def _(ex, st, inst, args):
    v = freeze(ex, st, args[0])
    return [(st, Ok(ex, inst, St(okty(ex, inst), [Opq('json', v)])))]


@M('cosmwasm_std::serde::to_json_vec', 'cosmwasm_std::serde::to_vec', 'cosmwasm_std::serde::to_json_string')
def _(ex, st, inst, args): return [(st, Ok(ex, inst, Opq('json', freeze(ex, st, args[0]))))]


@M('cosmwasm_std::serde::from_json', 'cosmwasm_std::serde::from_binary', 'cosmwasm_std::serde::from_slice')
def _(ex, st, inst, args):
    v = ex.deref(st, args[0])
    while isinstance(v, St):
        v = ex.deref(st, v.f[0])
    ty = okty(ex, inst)
    if isinstance(v, Opq) and v.tag == 'json':
        w = v.a
        if getattr(w, 'ty', None) == ty or (isinstance(w, StrV) and strip(ex, ty) == 'std::string::String'):
            return [(st, Ok(ex, inst, w))]
        raise Unsupported('from_json at another type')
    if isinstance(v, Opq) and v.tag == 'symbin':
        nm = f'{v.a}.json'
        c = boolvar('parses:' + nm)
        ex.symbin_ty[v.a] = ty
        t = ex.ty(ty)
        return checked(ex, st, inst, c, ex.mk(ty, nm), 'parse error')
    raise Unsupported(f'from_json of {v!r}')


@R('encode_to_vec', r'.*', r'prost::(message::)?Message')
def _(ex, st, inst, args): return [(st, Opq('proto', freeze(ex, st, args[0])))]


@R('to_proto_bytes', r'osmosis_std::.*')
def _(ex, st, inst, args): return [(st, Opq('proto', freeze(ex, st, args[0])))]


def _tf_from(ex, st, inst, args):
    """osmosis-std: a message becomes the Stargate message with its type URL and its protobuf encoding"""
    p = ex.ty(inst['sig'][0][0])['base'].split('::')
    url = '/' + '.'.join(x.removeprefix('r#') for x in p[p.index('types') + 1:])
    v = Opq('proto', freeze(ex, st, args[0]))
    ty = rty(inst)
    k = variant(ex, ty, 'Stargate')
    bt = dict(ex.ty(ty)['variants'][k]['fields'])['value']
    return [(st, En(ty, k, [StrV(lit=url), St(bt, [v])]))]


def raw_name(ex, st, v):
    v = ex.deref(st, v)
    while isinstance(v, St):
        v = ex.deref(st, v.f[0])
    if isinstance(v, Opq) and v.tag == 'symbin':
        return v.a
    raise Unsupported(f'decode of {v!r}')


@R('decode', r'.*', r'prost::(message::)?Message')
def _(ex, st, inst, args):
    nm = raw_name(ex, st, args[0])
    ty = okty(ex, inst)
    ex.symbin_pb[nm] = ty
    return checked(ex, st, inst, boolvar('parses:' + nm), ex.mk(ty, nm + '.proto'), 'decode error')


@M('cw_utils::parse_reply::parse_instantiate_response_data')
def _(ex, st, inst, args):
    # the reply of a successful instantiation: an address and data, of which nothing is assumed
    nm = raw_name(ex, st, args[0])
    ty = okty(ex, inst)
    ex.symbin_inst[nm] = ty
    return checked(ex, st, inst, boolvar('parses:' + nm), ex.mk(ty, nm + '.inst'), 'parse error')


@R('to_base64', r'cosmwasm_std::binary::Binary')
def _(ex, st, inst, args):
    v = ex.deref(st, args[0]).f[0]
    return [(st, StrV(key=('b64', repr(v))))]


# ------------------------------------------------------------------ errors: text only
@R('generic_err not_found invalid_utf8 parse_err serialize_err overflow divide_by_zero', r'cosmwasm_std::errors::std_error::StdError')
def _(ex, st, inst, args): return [(st, Opq('err', inst['norm'].rsplit('::', 1)[-1]))]


@R('from', r'cosmwasm_std::errors::.*', r'std::convert::From')
def _(ex, st, inst, args): return [(st, Opq('err', 'StdError'))]


@R('new', r'cosmwasm_std::errors::.*')
def _(ex, st, inst, args): return [(st, Opq('err', 'StdError'))]


# attributes and events are not part of the specified behaviour
@R('add_attribute add_attributes add_event add_events', r'cosmwasm_std::results::response::Response')
def _(ex, st, inst, args): return [(st, args[0])]


@M('cosmwasm_std::results::events::attr')
def _(ex, st, inst, args): return [(st, Opq('attr'))]


@R('new add_attribute add_attributes', r'cosmwasm_std::results::events::(Event|Attribute)')
def _(ex, st, inst, args): return [(st, Opq('event'))]


# ------------------------------------------------------------------ functions of the repository with an assumed contract
@M('astroport::asset::validate_native_denom')
def _(ex, st, inst, args):
    """accepts or rejects depending on the text only"""
    s = as_str(ex, st, args[0])
    if s.lit is not None:
        d = s.lit
        ok = 3 <= len(d) <= 128 and d[0].isascii() and d[0].isalpha() and all(c.isascii() and (c.isalnum() or c in '/:._-') for c in d)
        return [(st, Ok(ex, inst, unit()) if ok else Err(ex, inst, 'denom'))]
    return checked(ex, st, inst, boolvar(f'denom_valid:{strid(s)!r}'), unit(), 'invalid denom')


# ------------------------------------------------------------------ iterating over a map
# A range is walked entry by entry.  The next entry is one already known on this path, or an unknown one (its key is a new
# variable), or there is none; in each case the keys skipped are known to be absent ("gap"), which is used whenever a further
# entry of the map is looked at.  The number of unknown entries is bounded by lens['range:'+ns] (default 0..2).
PX = r'cw_storage_plus::prefix::Prefix'


def bound_of(ex, st, b):
    """(inclusive?, leaves) or None of an Option<Bound>"""
    b = ex.force(st, b)
    if not b.f:
        return None
    x = ex.force(st, b.f[0])
    nm = ex.ty(x.ty)['variants'][x.v]['name']
    v = ex.force(st, x.f[0])
    if isinstance(v, St) and len(v.f) == 2 and not nm.endswith('Raw'):
        v = v.f[0]
    return nm.startswith('Inclusive'), tuple(key_canon(ex, st, v)[1])


def before(a, b, strict):
    """a < b (a <= b) of keys, component by component"""
    if not a:
        return not strict
    if len(a) == 1:
        return lt(a[0], b[0]) if strict else le(a[0], b[0])
    return Or(lt(a[0], b[0]), And(eq(a[0], b[0]), before(a[1:], b[1:], strict)))


def in_range(k, pre, lo, hi):
    """is a key (leaves) below the prefix and between the bounds?"""
    if len(k) < len(pre):
        return False
    r = k[len(pre):]
    c = [eq(x, y) for x, y in zip(k, pre)]
    if lo is not None:
        c.append(before(lo[1], r[:len(lo[1])], not lo[0]))
    if hi is not None:
        c.append(before(r[:len(hi[1])], hi[1], not hi[0]))
    return And(*c)


def in_gap(st, ns, key, ix):
    return [in_range(key[1], pre, lo, hi) for n, sk, pre, lo, hi, size in st.notes.get('gaps', ())
            if n == ns and ix >= size and len(key[1]) == sk]


def presence(ex, st, ns, key, ix):
    """was there an entry before the call? None: unknown"""
    for c in in_gap(st, ns, key, ix):
        if c is True or c is not False and ex.decide(st, c):
            return False
    return ex.initial_presence(st, ns, key)


def head_text(head, nm):
    return StrV(key=nm) if head is None else concat([('l', head), ('k', nm)])


def walk(ex, st, r, store, newkey, unread):
    """next entry of a range over store (the current or the initial one); r: (ns, nkey, prefix, lo, hi, desc, n, uid);
    newkey(name) -> (key value, canonical key).  Returns None or (canonical key, slot index), and the rest of the range"""
    ns, nk, pre, lo, hi, desc, n, uid = r
    l = store.get(ns, [])
    for j, (k, v) in enumerate(l):
        if v is UNREAD:
            unread(j)
    l = store.get(ns, [])
    known = [(j, k[1]) for j, (k, v) in enumerate(l) if v is not None and len(k[1]) == nk]
    tag = ('walk', ns, uid, n, len(l))
    done = st.notes.get(tag)
    if done is None:
        # entries that this range has returned are behind it; of entries known to follow each other only the next can be next
        name = ('seen', ns, uid, desc)
        seen = st.notes.get(name, ()) if n else ()
        later, there = set(), {j for j, k in known}
        for nm, ch in st.notes.items():
            if seen and nm[0] == 'seen' and nm[1] == ns and nm[3] == desc and seen[-1] in ch:
                later.update([j for j in ch[ch.index(seen[-1]) + 1:] if j in there][1:])
        known = [(j, k) for j, k in known if j not in seen]
        inr = {j: in_range(k, pre, lo, hi) for j, k in known if j not in later}
        known = [(j, k) for j, k in known if j in inr]

        def first(k, but):
            """k comes before every other known entry of the range"""
            a, out = k[len(pre):], []
            for j, q in known:
                if j != but and inr[j] is not False:
                    b = q[len(pre):]
                    out.append(Or(Not(inr[j]), before(b, a, True) if desc else before(a, b, True)))
            return And(*out)

        def gap(s, to):
            g = (ns, nk, pre, lo, hi, len(l)) if to is None else \
                (ns, nk, pre, (False, to), hi, len(l)) if desc else (ns, nk, pre, lo, (False, to), len(l))
            s.notes = dict(s.notes)
            s.notes['gaps'] = s.notes.get('gaps', ()) + (g,)

        def none(s):
            s.assume(And(*[Not(c) for c in inr.values()]))
            gap(s, None)
            s.assume(choice_lit(f'len:range:{ns}:{uid}', n, 10 ** 9))
            s.notes[tag] = 'none'
            return ex.feas.feasible(s.pcn)

        def at(j, k):
            def f(s):
                s.assume(inr[j])
                s.assume(first(k, j))
                gap(s, k[len(pre):])
                s.notes[tag] = j
                s.notes[name] = seen + (j,)
                return ex.feas.feasible(s.pcn)
            return f

        def fresh_(s, head):
            kv, ck = newkey(f'key:{ns}:{uid}:{n}', head)
            k = ck[1]
            if len(k) + len(pre) == nk:
                k = pre + k
            s.assume(in_range(k, pre, lo, hi))
            s.assume(first(k, None))
            for j, q in known:
                s.assume(Not(And(*[eq(x, y) for x, y in zip(k, q)])))
            for c in in_gap(s, ns, (None, k), len(l)):
                s.assume(Not(c))
            gap(s, k[len(pre):])
            s.notes[tag] = ('fresh', head)
            s.notes[name] = seen + (len(l),)
            return ex.feas.feasible(s.pcn)
        alts = [none] + [at(j, k) for j, k in known if inr[j] is not False]
        lens = ex.lens_of('range:' + ns)
        for what, b in list(ex.bounded):
            if what == 'range:' + ns:
                ex.bounded.add((f'range:{ns}:{uid}', b))
        if n < max(lens):
            # the texts that keys of this map begin with, where they are known
            alts += [lambda s, h=h: fresh_(s, h) for h in ex.key_heads.get(ns, (None,))]
        elif not isinstance(lens, list):
            ex.bounded.add((f'range:{ns}:{uid}', lens))
        raise Fork(alts)
    return done


def add_entry(ex, st, r, leaves, ty):
    """an entry of the map that was not looked at before"""
    ns = r[0]
    k = (key_skel(ex, ex.key_ty[ns]), leaves)
    l = st.store.get(ns, [])
    v = ex.mk_initial(st, ns, k, ty)
    st.store[ns] = l + [(k, v)]
    st.pre[ns] = st.pre.get(ns, []) + [(k, v)]
    return len(l)


def advance(r, k):
    ns, nk, pre, lo, hi, desc, n, uid = r
    k = k[len(pre):]
    return (ns, nk, pre, lo, (False, k), desc, n + 1, uid) if desc else (ns, nk, pre, (False, k), hi, desc, n + 1, uid)


def nleaves(ex, ty):
    """number of components of a storage key type"""
    t = ex.ty(ty)
    while t['k'] == 'ref':
        ty = t['ty']
        t = ex.ty(ty)
    if t['k'] == 'tuple':
        return sum(nleaves(ex, x) for x in t['tys'])
    return 1


@R('range keys range_raw keys_raw', f'({MP}|{SM}|{PX})')
def _(ex, st, inst, args):
    m = inst['norm'].rsplit('::', 1)[-1]
    pre = ()
    if split(inst['norm'])[0].endswith('Prefix'):
        o = ex.deref(st, args[0])
        ns, pre, nk = o.f[0].a
    else:
        ns = ns_of(ex, st, args[0])
        ex.key_ty[ns], ex.val_ty[ns] = inst['args'][0], inst['args'][1]
        nk = nleaves(ex, inst['args'][0])
    lo, hi = bound_of(ex, st, args[2]), bound_of(ex, st, args[3])
    o = ex.force(st, args[4])
    desc = ex.ty(o.ty)['variants'][o.v]['name'] == 'Descending'
    uid = st.notes.get('ranges:' + ns, 0)
    st.notes = dict(st.notes)
    st.notes['ranges:' + ns] = uid + 1
    st.log.append(('range', ns, pre, lo, hi, desc))
    return [(st, St(rty(inst), [Opq('range', (m, ns, nk, pre, lo, hi, desc, 0, uid))]))]


@R('prefix sub_prefix', f'({MP}|{SM})')
def _(ex, st, inst, args):
    ns = ns_of(ex, st, args[0])
    ex.key_ty[ns], ex.val_ty[ns] = inst['args'][0], inst['args'][1]
    return [(st, St(rty(inst), [Opq('prefix', (ns, tuple(key_canon(ex, st, args[1])[1]), nleaves(ex, inst['args'][0])))]))]


@R('next', r'std::boxed::Box', r'std::iter::Iterator')
def _(ex, st, inst, args):
    it = ex.load(st, args[0])
    o = it.f[0] if isinstance(it, St) and it.f else None
    if not (isinstance(o, Opq) and o.tag == 'range'):
        raise Unsupported('dynamic iterator')
    m, r = o.a[0], o.a[1:]
    ns = r[0]
    raw = m.endswith('_raw')
    item = ex.ty(rty(inst))['args'][0]
    body = item if raw else ex.ty(item)['args'][0]
    kt = body if m.startswith('keys') else ex.ty(body)['tys'][0]

    def newkey(nm, head):
        v = head_text(head, nm) if head is not None else ex.mk(kt, nm) if not raw else StrV(key=nm)
        return v, key_canon(ex, st, v)

    done = walk(ex, st, r, st.store, newkey, lambda j: None)
    if done == 'none':
        return [(st, mkv(ex, rty(inst), 'None'))]
    if isinstance(done, tuple):
        kv, ck = newkey(f'key:{ns}:{r[7]}:{r[6]}', done[1])
        j = add_entry(ex, st, r, r[2] + ck[1] if len(ck[1]) < r[1] else ck[1], ex.val_ty[ns])
    else:
        j = done
        kv = None
    k, v = st.store[ns][j]
    if kv is None:
        kv = key_value(ex, st, kt, k[1][len(r[2]):])
    ex.store_ptr(st, args[0], St(it.ty, [Opq('range', (m,) + advance(r, k[1]))]))
    x = kv if m.startswith('keys') else St(body, [kv, v])
    if not raw:
        x = mkv(ex, item, 'Ok', x)
    return [(st, mkv(ex, rty(inst), 'Some', x))]


def key_value(ex, st, ty, leaves):
    """a key value with these components"""
    t = ex.ty(ty)
    if t['k'] == 'tuple':
        out, i = [], 0
        for x in t['tys']:
            n = nleaves(ex, x)
            out.append(key_value(ex, st, x, leaves[i:i + n]))
            i += n
        return St(ty, out)
    if isnumty(ex, ty):
        return mknum(ex, ty, leaves[0])
    while t['k'] == 'ref':
        t = ex.ty(t['ty'])
    if t.get('base') == 'astroport::asset::AssetInfo':
        raise Unsupported('asset from a storage key')
    v = str_of_id(leaves[0])
    return St(ty, [v]) if t.get('base') == 'cosmwasm_std::addresses::Addr' else v


def key_skel(ex, ty):
    t = ex.ty(ty)
    while t['k'] == 'ref':
        ty = t['ty']
        t = ex.ty(ty)
    if t['k'] == 'tuple' and len(t['tys']) > 1:
        return '(' + ','.join(key_skel(ex, x) for x in t['tys']) + ')'
    return '#' if isnumty(ex, ty) else '$'


# the letters of a text are not represented: whether a text has the form of a name or a symbol, or a picture that of a logo, is left
# open (both outcomes are explored, the same for the same text)
@R('is_valid_name is_valid_symbol', r'(astroport::xastro_token|astroport::token|cw20_base::msg)')
def _(ex, st, inst, args):
    s = as_str(ex, st, args[0])
    return [(st, boolvar(f'{inst["norm"].rsplit("::", 1)[-1]}:{strid(s)!r}'))]


@R('verify_xml_logo verify_png_logo verify_xml_preamble', r'.*')
def _(ex, st, inst, args):
    return checked(ex, st, inst, boolvar(f'logo_valid:{len(st.notes)}'), unit(), 'invalid logo')

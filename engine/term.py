"""Integer terms: polynomials with integer coefficients over atoms (variables, floor divisions, integer
square roots, if-then-else terms, uninterpreted functions), and booleans as z3 expressions over them.

Python ints / bools are used for concrete values everywhere; a spec written with these helpers therefore
evaluates symbolically (z3) and concretely (Python) alike."""
import itertools
import z3
import math

ATOMS = []        # index -> Atom
_ATOM_IX = {}     # key -> index
MAX = float('inf')


class Atom:
    __slots__ = ('ix', 'key', 'name', 'lo', 'hi', 'kind', 'args', 'z', '_ax')

    def __init__(self, key, name, lo, hi, kind, args):
        self.key, self.name, self.lo, self.hi, self.kind, self.args = key, name, lo, hi, kind, args
        self.z = None
        self._ax = None


def _atom(key, name, lo, hi, kind, args=()):
    i = _ATOM_IX.get(key)
    if i is not None:
        return i
    a = Atom(key, name, lo, hi, kind, args)
    a.ix = len(ATOMS)
    ATOMS.append(a)
    _ATOM_IX[key] = a.ix
    a.z = z3.Int(name if kind == 'var' else f'{kind}!{a.ix}')
    return a.ix


class Poly:
    __slots__ = ('t', '_h', '_b', '_z')

    def __init__(self, t):
        self.t = t            # dict monomial(tuple of atom ix, sorted) -> coeff (non-zero)
        self._h = None
        self._b = None
        self._z = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def same(self, o):
        return isinstance(o, Poly) and self.t == o.t

    # python equality is structural (used for dict keys); use eq() for the logical one
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o): return add(self, o)
    __radd__ = __add__
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    __rmul__ = __mul__
    def __neg__(self): return mul(self, -1)
    def __floordiv__(self, o): return fdiv(self, o)
    def __rfloordiv__(self, o): return fdiv(o, self)
    def __mod__(self, o): return fmod(self, o)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)

    def bounds(self):
        if self._b is None:
            lo = hi = 0
            for m, c in self.t.items():
                ml, mh = mono_bounds(m)
                if c > 0:
                    lo += c * ml if ml != -MAX else -MAX
                    hi += c * mh if mh != MAX else MAX
                else:
                    lo += c * mh if mh != MAX else -MAX
                    hi += c * ml if ml != -MAX else MAX
            self._b = (lo, hi)
        return self._b

    def __repr__(self):
        return show(self)


def mono_bounds(m):
    lo = hi = 1
    for i in m:
        a = ATOMS[i]
        if a.lo < 0:
            if len(m) == 1:
                return (a.lo, a.hi)
            return (-MAX, MAX)
        lo = lo * a.lo
        hi = MAX if (hi == MAX or a.hi == MAX) else hi * a.hi
    return (lo, hi)


def show(p, depth=3):
    if not isinstance(p, Poly):
        return str(p)
    out = []
    for m, c in sorted(p.t.items()):
        s = '*'.join(show_atom(i, depth) for i in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        else:
            out.append(f'{c}*{s}')
    return ' + '.join(out) or '0'


def show_atom(i, depth=3):
    a = ATOMS[i]
    if a.kind == 'var':
        return a.name
    if depth == 0:
        return f'{a.kind}!{i}'
    if a.kind == 'div':
        return f'floor(({show(a.args[0], depth-1)})/({show(a.args[1], depth-1)}))'
    return f'{a.kind}({", ".join(show(x, depth-1) if isinstance(x, (Poly, int)) else str(x)[:60] for x in a.args)})'


def var(name, lo=0, hi=MAX):
    return Poly({(_atom(('v', name), name, lo, hi, 'var'),): 1})


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def bounds(x):
    if isint(x):
        return (x, x)
    return x.bounds()


def _mk(t):
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def _t(x):
    if isinstance(x, Poly):
        return x.t
    return {(): x} if x else {}


def add(a, b):
    if isint(a) and isint(b):
        return a + b
    ta, tb = _t(a), _t(b)
    if len(ta) < len(tb):
        ta, tb = tb, ta
    r = dict(ta)
    for m, c in tb.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return _mk(r)


def sub(a, b):
    if isint(a) and isint(b):
        return a - b
    r = dict(_t(a))
    for m, c in _t(b).items():
        v = r.get(m, 0) - c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return _mk(r)


def mul(a, b):
    if isint(a) and isint(b):
        return a * b
    r = {}
    for m1, c1 in _t(a).items():
        for m2, c2 in _t(b).items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return _mk(r)


def _content(t):
    g = 0
    for c in t.values():
        g = math.gcd(g, c)
    return g


def fdiv(a, b):
    """floor(a / b) for b > 0 (the caller guarantees b > 0)."""
    if isint(a) and isint(b):
        return a // b if b else 0
    if isint(b) and b == 1:
        return a
    if isint(a) and a == 0:
        return 0
    if isinstance(a, Poly) and isinstance(b, Poly) and a.t == b.t:
        return 1
    # exact division by a common numeric factor / common monomial
    ta, tb = _t(a), _t(b)
    g = math.gcd(_content(ta), _content(tb))
    if g > 1:
        return fdiv(_mk({m: c // g for m, c in ta.items()}), _mk({m: c // g for m, c in tb.items()}))
    # common atoms in every monomial of both: (x*p)/(x*q) = p/q  (x > 0 is implied by b > 0)
    common = None
    for t in (ta, tb):
        for m in t:
            s = {}
            for i in m:
                s[i] = s.get(i, 0) + 1
            common = s if common is None else {i: min(n, s[i]) for i, n in common.items() if i in s}
            if not common:
                break
        if not common:
            break
    if common and all(ATOMS[i].lo >= 0 for i in common):
        def strip(t):
            r = {}
            for m, c in t.items():
                l = list(m)
                for i, n in common.items():
                    for _ in range(n):
                        l.remove(i)
                r[tuple(l)] = c
            return _mk(r)
        return fdiv(strip(ta), strip(tb))
    if isint(b):
        # split off the multiples of b: floor((b*p + r)/b) = p + floor(r/b)
        q = {m: c // b for m, c in ta.items() if c % b == 0}
        if q:
            r = {m: c for m, c in ta.items() if c % b}
            return add(_mk(q), fdiv(_mk(r), b))
        # floor(floor(x/c)/b) = floor(x/(c*b))
        if len(ta) == 1:
            (m, c), = ta.items()
            if c == 1 and len(m) == 1 and ATOMS[m[0]].kind == 'div':
                x, y = ATOMS[m[0]].args
                if isint(y):
                    return fdiv(x, y * b)
    al, ah = bounds(a)
    bl, bh = bounds(b)
    lo, hi = 0, MAX
    if al < 0:
        lo = -MAX
    else:
        if bh != MAX:
            lo = al // max(bh, 1)
    if ah != MAX:
        hi = int(ah) // (1 if bl == -MAX else max(int(bl), 1)) if ah >= 0 else -1
    if lo == hi:
        return lo
    i = _atom(('d', _k(a), _k(b)), None, lo, hi, 'div', (a, b))
    return Poly({(i,): 1})


def _k(x):
    return x if isint(x) else frozenset(x.t.items())


def cdiv(a, b):
    """ceil(a / b) for b > 0, a >= 0."""
    if isint(a) and isint(b):
        return -((-a) // b)
    return fdiv(sub(add(a, b), 1), b)


def fmod(a, b):
    if isint(a) and isint(b):
        return a % b
    return sub(a, mul(b, fdiv(a, b)))


def isqrt(a):
    if isint(a):
        return math.isqrt(a)
    al, ah = bounds(a)
    hi = math.isqrt(int(ah)) if ah != MAX else MAX
    i = _atom(('sqrt', _k(a)), None, math.isqrt(max(int(al), 0)), hi, 'sqrt', (a,))
    return Poly({(i,): 1})


def ufun(name, args, lo=0, hi=MAX):
    """uninterpreted, deterministic integer function"""
    i = _atom(('u', name, tuple(_k(x) if isinstance(x, (int, Poly)) else x for x in args)), None, lo, hi, 'uf',
              (name,) + tuple(args))
    return Poly({(i,): 1})


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return Or(And(c, a), And(Not(c), b))
    if (isint(a) and isint(b) and a == b) or (isinstance(a, Poly) and a.same(b)):
        return a
    al, ah = bounds(a)
    bl, bh = bounds(b)
    i = _atom(('ite', c.get_id(), _k(a), _k(b)), None, min(al, bl), max(ah, bh), 'ite', (c, a, b))
    return Poly({(i,): 1})


def resolve(p, dec, memo):
    """p with every if-then-else replaced whose condition is decided: dec(cond) is True, False or None"""
    if not isinstance(p, Poly):
        return p
    out = None
    for m, k in p.t.items():
        new = k
        for i in m:
            new = mul(new, _resolve_atom(i, dec, memo))
        out = new if out is None else add(out, new)
    return 0 if out is None else out


def _resolve_atom(i, dec, memo):
    r = memo.get(i)
    if r is not None:
        return r
    a = ATOMS[i]
    if a.kind == 'ite':
        c, x, y = a.args
        d = dec(c)
        if d is None:
            r = ite(c, resolve(x, dec, memo), resolve(y, dec, memo))
        else:
            r = resolve(x if d else y, dec, memo)
    elif a.kind == 'div':
        n, d = [resolve(x, dec, memo) for x in a.args]
        lo = bounds(d)[0]
        r = fdiv(n, d) if lo > 0 or d is a.args[1] or (isinstance(d, Poly) and d.same(a.args[1])) else Poly({(i,): 1})
    elif a.kind == 'sqrt':
        r = isqrt(resolve(a.args[0], dec, memo))
    else:
        r = Poly({(i,): 1})
    memo[i] = r
    return r


def resolved(names, dec):
    """equations between the atoms and monomials of these names and what they are once the decided conditions are used"""
    _sync_names()
    out, memo = [], {}
    for nm in sorted(names):
        m = MONO_BY_NAME.get(nm)
        if m is None:
            ix = _NAME_ATOM.get(nm)
            if ix is None or ATOMS[ix].kind not in ('ite', 'div', 'sqrt'):
                continue
            m = (ix,)
        p = Poly({m: 1})
        r = resolve(p, dec, memo)
        if not (isinstance(r, Poly) and r.same(p)):
            out.append(toz(p) == toz(r))
    return out


def imin(a, b):
    return ite(le(a, b), a, b)


def imax(a, b):
    return ite(le(a, b), b, a)


# ---------------------------------------------------------------- booleans
def isbool(x):
    return isinstance(x, (bool, z3.BoolRef))


MONO = {}      # monomial -> z3 var
MONO_BY_NAME = {}


def mono_z(m):
    if len(m) == 1:
        return ATOMS[m[0]].z
    v = MONO.get(m)
    if v is None:
        v = z3.Int('m!' + '_'.join(map(str, m)))
        MONO[m] = v
        MONO_BY_NAME[v.decl().name()] = m
    return v


def toz(p):
    if isint(p):
        return z3.IntVal(p)
    if p._z is None:
        parts = []
        for m, c in p.t.items():
            if not m:
                parts.append(z3.IntVal(c))
            elif c == 1:
                parts.append(mono_z(m))
            else:
                parts.append(z3.IntVal(c) * mono_z(m))
        p._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
    return p._z


def _norm(d):
    g = _content({m: c for m, c in d.t.items() if m})
    return g


HINTS = {}     # atom -> constants it is compared with


def le(a, b):
    """a <= b"""
    d = sub(b, a)
    if isint(d):
        return d >= 0
    lo, hi = d.bounds()
    if lo >= 0:
        return True
    if hi < 0:
        return False
    # d >= 0 ; normalise the coefficients:  sum c_i m_i + k >= 0  ->  sum (c_i/g) m_i >= ceil(-k/g)
    k = d.t.get((), 0)
    if HEADED and -1 <= k <= 0 and len(d.t) == (3 if k else 2):        # texts that begin alike are ordered as the rests are
        (m1, c1), (m2, c2) = [x for x in d.t.items() if x[0]]
        if c1 == -c2 and abs(c1) == 1 and len(m1) == 1 and len(m2) == 1 and m1[0] in HEADED and m2[0] in HEADED:
            (h1, r1), (h2, r2) = HEADED[m1[0]], HEADED[m2[0]]
            if h1 == h2:
                return le(sub(r2, k), r1) if c1 == 1 else le(sub(r1, k), r2)
    g = _content({m: c for m, c in d.t.items() if m})
    body = Poly({m: c // g for m, c in d.t.items() if m})
    rhs = -(k // g)
    if len(body.t) == 1:
        (m,), = [body.t]
        if len(m) == 1 and abs(rhs) < 10 ** 24:
            hs = HINTS.setdefault(m[0], set())
            hs.add(abs(rhs))
            hs.add(abs(1 - rhs))
    # canonical orientation, so that  x>=c  and  not(x<=c-1) are the same literal
    lead = body.t[min(body.t)]
    if lead < 0:
        return z3.Not(toz(mul(body, -1)) >= 1 - rhs)
    return toz(body) >= rhs


def lt(a, b):
    return le(add(a, 1), b)


HEADED = {}     # atom of a text -> (letters it begins with, number of the rest)


def eq(a, b):
    if isbool(a) or isbool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return a if b else Not(a)
        return a == b
    d = sub(a, b)
    if isint(d):
        return d == 0
    lo, hi = d.bounds()
    if lo > 0 or hi < 0:
        return False
    if len(d.t) == 2 and HEADED:        # texts that begin with known letters
        (m1, c1), (m2, c2) = d.t.items()
        if c1 == -c2 and abs(c1) == 1 and len(m1) == 1 and len(m2) == 1 and m1[0] in HEADED and m2[0] in HEADED:
            (h1, r1), (h2, r2) = HEADED[m1[0]], HEADED[m2[0]]
            if h1 == h2:
                return eq(r1, r2)
            if not h1.startswith(h2) and not h2.startswith(h1):
                return False
    k = d.t.get((), 0)
    rest = {m: c for m, c in d.t.items() if m}
    g = _content(rest)
    if k % g:
        return False
    body = Poly({m: c // g for m, c in rest.items()})
    lead = body.t[min(body.t)]
    kk = -k // g
    if lead < 0:
        body = mul(body, -1)
        kk = -kk
    return toz(body) == kk


def ne(a, b):
    return Not(eq(a, b))


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(r)


def Or(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(r)


def Implies(a, b):
    return Or(Not(a), b)


def boolvar(name):
    return z3.Bool(name)


# ---------------------------------------------------------------- axioms of atoms
_VARS = {}


def zvars(e):
    """names of uninterpreted constants of a z3 expression (cached)"""
    i = e.get_id()
    r = _VARS.get(i)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        c = _VARS.get(xi)
        if c is not None:
            out |= c[1]
            continue
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            st.extend(x.children())
    out = frozenset(out)
    _VARS[i] = (e, out)
    return out


_NAME_ATOM = {}


def _sync_names():
    n = len(_NAME_ATOM)
    while n < len(ATOMS):
        a = ATOMS[n]
        _NAME_ATOM[a.z.decl().name()] = a.ix
        n += 1


def atoms_of(p, acc=None):
    acc = set() if acc is None else acc
    if isinstance(p, Poly):
        for m in p.t:
            acc.update(m)
    return acc


def atom_axioms(ix):
    """(linear-over-monomials axioms, atoms they mention)"""
    a = ATOMS[ix]
    if a._ax is not None:
        return a._ax
    ax = []
    if a.lo != -MAX:
        ax.append(a.z >= int(a.lo))
    if a.hi != MAX:
        ax.append(a.z <= int(a.hi))
    me = Poly({(ix,): 1})
    if a.kind == 'div':
        n, d = a.args
        dq = mul(d, me)
        ax.append(_rawle(dq, n))
        ax.append(_rawle(add(n, 1), add(dq, d)))
    elif a.kind == 'sqrt':
        x, = a.args
        ax.append(_rawle(mul(me, me), x))
        ax.append(_rawle(add(x, 1), mul(add(me, 1), add(me, 1))))
    elif a.kind == 'ite':
        c, x, y = a.args
        ax.append(z3.If(c, a.z == toz(x), a.z == toz(y)))
    a._ax = ax
    return ax


def _rawle(a, b):
    d = sub(b, a)
    if isint(d):
        return z3.BoolVal(d >= 0)
    return toz(d) >= 0


def mono_axioms(m):
    ax = []
    lo, hi = mono_bounds(m)
    v = mono_z(m)
    if lo != -MAX:
        ax.append(v >= int(lo))
    if hi != MAX:
        ax.append(v <= int(hi))
    for k, i in enumerate(m):
        a = ATOMS[i]
        if a.kind == 'ite' and (k == 0 or m[k - 1] != i):
            c, x, y = a.args
            r = Poly({m[:k] + m[k + 1:]: 1})
            ax.append(z3.If(c, v == toz(mul(r, x)), v == toz(mul(r, y))))
    return ax


def hint_axioms(names):
    """true facts about products, linear over monomials: x <= K and r >= 0 give x*r <= K*r for constants K that x is compared
    with; floor(n/d)*r lies between n*r/d - r and n*r/d"""
    _sync_names()
    out = []
    for nm in sorted(n for n in names if n in MONO_BY_NAME):
        m = MONO_BY_NAME[nm]
        v = mono_z(m)
        for k, i in enumerate(m):
            if k and m[k - 1] == i:
                continue
            a = ATOMS[i]
            r = Poly({m[:k] + m[k + 1:]: 1})
            neg = lt(r, 0)
            neg = [] if neg is False else [neg]
            for K in sorted(HINTS.get(i, ())):
                out.append(Or(*neg, a.z >= K + 1, _rawle(Poly({m: 1}), mul(r, K))))
                out.append(Or(*neg, a.z <= K - 1, _rawle(mul(r, K), Poly({m: 1}))))
            if a.kind == 'div' and isint(a.args[1]):
                n, d = a.args
                nr, dm = mul(n, r), mul(Poly({m: 1}), d)
                out.append(Or(*neg, _rawle(dm, nr)))
                out.append(Or(*neg, _rawle(nr, add(dm, mul(r, d)))))
    by = {}
    for nm in sorted(names):
        ix = _NAME_ATOM.get(nm)
        if ix is not None and ATOMS[ix].kind == 'div':
            by.setdefault(_k(ATOMS[ix].args[1]), []).append(ix)
    for l in by.values():
        for i, j in itertools.combinations(l[-12:], 2):
            a, b = ATOMS[i], ATOMS[j]
            d = [] if isint(a.args[1]) else [le(a.args[1], 0)]
            out.append(Or(*d, lt(b.args[0], a.args[0]), a.z <= b.z))
            out.append(Or(*d, lt(a.args[0], b.args[0]), b.z <= a.z))
    return [x for x in out if not isinstance(x, bool)]


def closure_axioms(exprs, nonlinear=False, skip=None):
    """all axioms about the atoms and monomials reachable from the given z3 expressions"""
    seen = set(skip) if skip else set()
    todo = set()
    for e in exprs:
        if isinstance(e, bool):
            continue
        todo |= zvars(e)
    out = []
    _sync_names()
    todo -= seen
    while todo:
        nme = todo.pop()
        if nme in seen:
            continue
        seen.add(nme)
        new = []
        if nme in MONO_BY_NAME:
            m = MONO_BY_NAME[nme]
            new += mono_axioms(m)
            if nonlinear:
                prod = ATOMS[m[0]].z
                for i in m[1:]:
                    prod = prod * ATOMS[i].z
                new.append(mono_z(m) == prod)
            for i in m:
                n2 = ATOMS[i].z.decl().name()
                if n2 not in seen:
                    todo.add(n2)
        else:
            _sync_names()
            ix = _NAME_ATOM.get(nme)
            if ix is not None:
                new += atom_axioms(ix)
        for e in new:
            for v in zvars(e):
                if v not in seen:
                    todo.add(v)
        out += new
    return out, seen

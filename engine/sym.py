"""Symbolic executor over monomorphised MIR (all paths, real compiled code), used as verification-condition generator.

Every call yields the list of (state, value) outcomes.  Panics end a path (a CosmWasm transaction that panics is
reverted); they are recorded in `aborts`."""
import sys
import time
import z3
from term import *
import term as T

sys.setrecursionlimit(60000)


class Unsupported(Exception):
    pass


class Fork(Exception):
    """re-execute the current statement in several refined copies of the state"""

    def __init__(self, alts):
        self.alts = alts      # list of functions State -> None (mutating the copy); may return False to drop


class St:
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty, self.f = ty, tuple(f)

    def __repr__(self): return f'St{self.ty}{self.f}'


class En:
    __slots__ = ('ty', 'v', 'f')

    def __init__(self, ty, v, f=()):
        self.ty, self.v, self.f = ty, v, tuple(f)

    def __repr__(self): return f'En{self.ty}#{self.v}{self.f}'


class Sym:
    __slots__ = ('ty', 'name')

    def __init__(self, ty, name):
        self.ty, self.name = ty, name

    def __repr__(self): return f'Sym({self.name})'


class Ptr:
    __slots__ = ('cell', 'path', 'meta')

    def __init__(self, cell, path=(), meta=None):
        self.cell, self.path, self.meta = cell, path, meta

    def __repr__(self): return f'Ptr({self.cell},{self.path},{self.meta})'


class VecV:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self): return f'Vec{list(self.e)}'


class VecT(VecV):
    """a list longer than those explored: it can be counted and passed on; looking into it drops the path, and the list is
    then reported as bounded"""
    __slots__ = ('ty', 'name', 'n', 'ex', 'lens')

    def __init__(self, ty, name, n, ex, lens):
        self.ty, self.name, self.n, self.ex, self.lens = ty, name, n, ex, lens

    @property
    def e(self):
        self.ex.bounded.add((self.name, tuple(self.lens)))
        raise Fork([])

    def __repr__(self): return f'Vec<{self.name}, {self.n} or more>'


def count(v):
    """number of elements"""
    return var('len:' + v.name, v.n, 2 ** 32 - 1) if isinstance(v, VecT) else len(v.e)


class StrV:
    __slots__ = ('lit', 'key')

    def __init__(self, lit=None, key=None):
        self.lit, self.key = lit, key

    def __repr__(self): return repr(self.lit) if self.lit is not None else f'str<{self.key}>'


class Fn:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self): return f'Fn({self.ty})'


class Opq:
    __slots__ = ('tag', 'a')

    def __init__(self, tag, a=()):
        self.tag, self.a = tag, a

    def __repr__(self): return f'Opq({self.tag},{self.a})'


class _U:
    def __repr__(self): return 'UNINIT'


UNINIT = _U()

_STRID = {}


def strid(s):
    """the integer that stands for a string"""
    if s.lit is not None:
        i = _STRID.get(s.lit)
        if i is None:
            i = _STRID[s.lit] = -(len(_STRID) + 1)
        return i
    n = 'str:' + str(s.key)
    v = var(n, -(10**9), 10**18)
    if n not in _STRKEY:
        _STRKEY[n] = s
        if isinstance(s.key, tuple) and s.key[0] == 'cat' and len(s.key[1]) == 2 and s.key[1][0][0] == 'l' and s.key[1][1][0] == 'k':
            (m,) = v.t
            T.HEADED[m[0]] = (s.key[1][0][1], strid(StrV(key=s.key[1][1][1])))
    return v


_STRKEY = {}
SPLITS = {}     # name of the choice of the number of parts -> (key of the text, separator)


def str_of_id(i):
    """the string a number stands for"""
    if isint(i):
        for k, v in _STRID.items():
            if v == i:
                return StrV(lit=k)
    elif isinstance(i, Poly) and len(i.t) == 1:
        (m, c), = i.t.items()
        if c == 1 and len(m) == 1:
            s = _STRKEY.get(T.ATOMS[m[0]].name)
            if s is not None:
                return s
    raise Unsupported('string of ' + str(i))


def str_eq(a, b):
    if a.lit is not None and b.lit is not None:
        return a.lit == b.lit
    if a.lit is None and b.lit is None and a.key == b.key:
        return True
    return eq(strid(a), strid(b))


class PC:
    """path condition: a persistent linked list of literals (copying a state shares it)"""
    __slots__ = ('parent', 'e', 'id', 'depth', 'sat', 'ids', 'lists')

    def __init__(self, parent, e):
        self.parent, self.e = parent, e
        self.id = e.get_id()
        self.depth = parent.depth + 1 if parent is not None else 1
        self.sat = None      # known satisfiable
        self.lists = None

    def lits(self, stop=None):
        out = []
        n = self
        while n is not None and n is not stop:
            out.append(n.e)
            n = n.parent
        out.reverse()
        return out


_LISTS = {}


def lists_of(e):
    """the lists whose length an expression depends on"""
    i = e.get_id()
    r = _LISTS.get(i)
    if r is None:
        r = frozenset()
        if z3.is_const(e):
            n = e.decl().name() if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else ''
            if n.startswith('ch:len:'):
                r = frozenset([n[7:]])
        else:
            for x in e.children():
                r |= lists_of(x)
        _LISTS[i] = (r, e)
        return r
    return r[0]


def pc_lists(n):
    """the lists whose length a path condition depends on"""
    todo = []
    while n is not None and n.lists is None:
        todo.append(n)
        n = n.parent
    r = n.lists if n is not None else frozenset()
    for x in reversed(todo):
        r = r | lists_of(x.e)
        x.lists = r
    return r


def pc_lits(n, stop=None):
    return n.lits(stop) if n is not None else []


class State:
    __slots__ = ('mem', 'pcn', 'store', 'pre', 'choices', 'ctr', 'log', 'notes', 'dead', 'queries', 'qg', 'soft')

    def __init__(self):
        self.mem = {}
        self.pcn = None
        self.store = {}      # ns -> list of (key, value)   (current)
        self.pre = {}        # ns -> list of (key, value)   (as first read)
        self.choices = {}
        self.soft = frozenset()      # choices that a merge made symbolic again
        self.ctr = 0
        self.log = []        # events in order: ('w', ns, key, value), ('snap', ...), ('hist', ...)
        self.qg = {}         # name of a query -> when it was made, if not always
        self.queries = {}    # name -> (key, ty, request, answer): external answers used so far
        self.notes = {}
        self.dead = False

    @property
    def pc(self):
        return pc_lits(self.pcn)

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.pcn = self.pcn
        s.store = {k: list(v) for k, v in self.store.items()}
        s.pre = {k: list(v) for k, v in self.pre.items()}
        s.choices = dict(self.choices)
        s.soft = self.soft
        s.ctr = self.ctr
        s.log = list(self.log)
        s.queries = dict(self.queries)
        s.qg = dict(self.qg)
        s.notes = dict(self.notes)
        s.dead = self.dead
        return s

    def knows(self, i):
        n = self.pcn
        while n is not None:
            if n.id == i:
                return True
            n = n.parent
        return False

    def assume(self, c):
        if c is True:
            return True
        if c is False:
            self.dead = True
            return False
        if not self.knows(c.get_id()):
            self.pcn = PC(self.pcn, c)
        return True

    def fresh(self):
        self.ctr += 1
        return self.ctr

    def alloc(self, v):
        c = ('h', self.fresh())
        self.mem[c] = v
        return c


class Feas:
    """incremental satisfiability of path conditions, linear over monomials"""

    def __init__(self, timeout=1500):
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.stack = []      # PC nodes
        self.seen = [set()]
        self.n = 0
        self.checks = 0
        self.t = 0.0
        self.model = None

    def sync(self, node):
        path = []
        n = node
        while n is not None and not (n.depth <= len(self.stack) and self.stack[n.depth - 1] is n):
            path.append(n)
            n = n.parent
        d = n.depth if n is not None else 0
        if d < len(self.stack):
            self.s.pop(len(self.stack) - d)
            del self.stack[d:]
            del self.seen[d + 1:]
        for n in reversed(path):
            self.s.push()
            ax, seen = closure_axioms([n.e], skip=self.seen[-1])
            for a in ax:
                self.s.add(a)
            self.s.add(n.e)
            self.stack.append(n)
            self.seen.append(seen)

    def feasible(self, node):
        self.n += 1
        if node is None or node.sat:
            return True
        if node.sat is False:
            return False
        self.checks += 1
        t = time.time()
        self.sync(node)
        r = self.s.check()
        node.sat = r != z3.unsat
        self.t += time.time() - t
        return node.sat


def choice_lit(name, k, total):
    if total == 2:
        b = boolvar('ch:' + str(name))
        return b if int(k) == 1 else Not(b)
    return eq(var('ch:' + str(name), 0, total - 1), int(k))


class Frame:
    __slots__ = ('fid', 'body', 'inst', 'cur')


TRANSPARENT = ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'core::mem::maybe_dangling::MaybeDangling',
               'std::mem::MaybeDangling', 'std::mem::maybe_dangling::MaybeDangling',
               'core::mem::MaybeDangling')
BIGNUM = {'cosmwasm_std::math::uint256::Uint256': 256, 'cosmwasm_std::math::uint512::Uint512': 512,
          'astroport::uints::U256': 256, 'cosmwasm_std::math::int256::Int256': -256,
          'bnum::buint::BUint': 0, 'cosmwasm_std::math::int512::Int512': -512}


def without_keys(name):
    """a name without the keys of map entries in it"""
    out, depth, start = [], 0, 0
    if '|' not in name or '[' not in name:
        return name
    for i, x in enumerate(name):
        if x == '[':
            if depth == 0:
                start = i
            depth += 1
        elif x == ']' and depth:
            depth -= 1
            if depth == 0 and '|' not in name[start:i]:
                out.append(name[start:i + 1])
        elif not depth:
            out.append(x)
    return ''.join(out)


class Ex:
    def __init__(self, sess, models, contracts=None):
        self.s = sess
        self.models = models
        self.contracts = contracts or {}
        self.feas = Feas()
        self.aborts = []
        self.keep_aborts = False
        self.fid = 0
        self.steps = 0
        self.calls = {}
        self.inlined = set()
        self.maxvisits = 140
        self.lens = {}          # policy: name-substring -> list of lengths of symbolic vectors
        self.default_lens = (0, 1, 2)
        self.bounded = set()    # vectors whose length was bounded (name, lens)
        self.deadline = None
        self.model_cache = {}
        self.path_budget = 200000
        self.variants_policy = {}   # enum base name -> allowed variant names (restriction is reported)
        self.tydepth = 0
        self.hooks = {}
        self.used_models = set()
        self.queries_succeed = False     # only explore successful external queries (failures revert or are handled)
        self.addresses_valid = False
        self.key_heads = {}     # map -> texts that its keys begin with
        self.pins = []          # values held by running models: roots for the merge
        self.presence = {}               # namespace -> True/False: assumed (non-)existence in the initial store
        self.initial = {}                # namespace -> f(st, key, ty) giving the initial value
        self.mcache = {}
        self.stack = []
        self.forks = {}
        self.cur_norm = ''
        self.merge_on = True
        self.split = {}
        self.fixed = {}          # enum name -> variant name (a scenario of the entry point)
        self.arg_ty = {}
        self.symbin_ty, self.key_ty, self.val_ty = {}, {}, {}
        self.symbin_inst, self.symbin_pb, self.chlg_ns = {}, {}, {}
        self.merged = [0, 0]

    def method(self, crate, trait, name, *tys):
        k = (trait, name) + tys
        if k not in self.mcache:
            r = self.s.q('method', crate, trait, name, *tys)
            self.mcache[k] = self.s.reg(r) if r else None
        r = self.mcache[k]
        if r is None:
            raise Unsupported(f'cannot resolve {trait}::{name}')
        return r

    def initial_presence(self, st, ns, key):
        p = self.presence.get(ns, self.presence.get('*'))
        return p(st, key) if callable(p) else p

    def mk_initial(self, st, ns, key, ty):
        f = self.initial.get(ns)
        if f is not None:
            v = f(self, st, key, ty)
            if v is not None:
                return v
        nm = 'st:' + ns
        if key[0] or key[1]:
            nm += '[' + self.models.cname(key) + ']'
        return self.mk(ty, nm)

    def choose(self, st, name, opts, total):
        """case split on a named finite choice (variant, length, presence); kept as a fact of the path"""
        c = st.choices.get(name)
        if c is not None:
            return c
        fx = self.fixed.get(name)
        if isinstance(fx, int):
            opts = (fx,)
            total = 1
        if len(opts) == 1 and total == 1:
            st.choices[name] = opts[0]
            return opts[0]
        soft = name in st.soft

        def alt(k):
            def f(s):
                s.choices[name] = k
                s.assume(choice_lit(name, k, total))
                if soft:
                    return self.feas.feasible(s.pcn)
            return f
        if len(opts) == 1:
            alt(opts[0])(st)
            return opts[0]
        raise Fork([alt(k) for k in opts])

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.s.ty(i)

    def base(self, i):
        t = self.ty(i)
        return t.get('base') if t['k'] == 'adt' else t['k']

    def is_transparent(self, tid):
        t = self.ty(tid)
        return t['k'] == 'adt' and t['base'] in TRANSPARENT

    # ------------------------------------------------------------ symbolic values
    def mk(self, ty, name, st=None):
        t = self.ty(ty)
        k = t['k']
        if k == 'uint':
            return var(name, 0, 2 ** t['bits'] - 1)
        if k == 'int':
            return var(name, -2 ** (t['bits'] - 1), 2 ** (t['bits'] - 1) - 1)
        if k == 'bool':
            fx = self.fixed.get(name)
            return boolvar(name) if fx is None else fx
        if k == 'char':
            return var(name, 0, 0x10ffff)
        if k == 'str':
            return StrV(key=name)
        if k == 'tuple':
            return St(ty, [self.mk(x, f'{name}.{i}') for i, x in enumerate(t['tys'])])
        if k == 'array':
            return VecV([self.mk(t['ty'], f'{name}[{i}]') for i in range(t['len'])])
        if k == 'adt':
            b = t['base']
            if b == 'std::string::String':
                return StrV(key=name)
            if b in BIGNUM:
                n = BIGNUM[b]
                if n > 0:
                    return St(ty, [var(name, 0, 2 ** n - 1)])
                if n < 0:
                    return St(ty, [var(name, -2 ** (-n - 1), 2 ** (-n - 1) - 1)])
                raise Unsupported('symbolic bnum')
            if t['kind'] == 'struct' and len(t['variants'][0]['fields']) == 1 and b.startswith('cosmwasm_std::math'):
                return St(ty, [self.mk(t['variants'][0]['fields'][0][1], name)])
            return Sym(ty, name)
        if k in ('ref', 'ptr'):
            return Sym(ty, name)
        if k in ('closure', 'fndef'):
            return self.zst(ty)
        raise Unsupported(f'symbolic value of type {t}')

    def force(self, st, v):
        """expand a lazy symbolic value one level (may raise Fork)"""
        if not isinstance(v, Sym):
            return v
        t = self.ty(v.ty)
        if t['k'] in ('ref', 'ptr'):
            cell = ('sr', v.name)
            if cell not in st.mem:
                st.mem[cell] = self.mk(t['ty'], v.name + '*')
            return Ptr(cell)
        b = t['base']
        if t['kind'] == 'struct':
            if b == 'std::vec::Vec' and self.ty(t['args'][0]) == {**self.ty(t['args'][0]), 'k': 'uint', 'bits': 8}:
                return StrV(key=v.name)         # bytes are kept as a string
            if b in ('std::vec::Vec', 'std::collections::VecDeque'):
                n = st.choices.get('len:' + v.name)
                if n is None:
                    ls = self.lens_of(v.name)
                    tail = None if isinstance(ls, list) else max(ls) + 1
                    n = self.choose(st, 'len:' + v.name, tuple(ls) + (() if tail is None else (tail,)), 10**9)
                    if n == tail:
                        return VecT(v.ty, v.name, n, self, ls)
                else:
                    ls = self.lens_of(v.name)
                    if not isinstance(ls, list) and n > max(ls):
                        return VecT(v.ty, v.name, n, self, ls)
                e = t['args'][0]
                return VecV([self.mk(e, f'{v.name}[{i}]') for i in range(n)])
            if b == 'std::boxed::Box':
                return St(v.ty, [self.mk(t['args'][0], v.name + '.box')])
            if b == 'cosmwasm_std::binary::Binary':
                return St(v.ty, [Opq('symbin', v.name)])
            if b in ('std::collections::HashMap', 'std::collections::HashSet'):
                # any entries of distinct keys, in any order
                ls = self.lens_of(v.name)
                if not isinstance(ls, list):
                    self.bounded.add((v.name, tuple(ls)))
                n = self.choose(st, 'len:' + v.name, tuple(ls), 10 ** 9)
                a = t['args']
                ks = [self.mk(a[0], f'{v.name}.key[{i}]') for i in range(n)]
                for i in range(n):
                    for j in range(i):
                        st.assume(Not(self.models.veq(self, st, ks[i], ks[j])))
                if b.endswith('Map'):
                    ks = [St('kv', [k, self.mk(a[1], f'{v.name}.val[{i}]')]) for i, k in enumerate(ks)]
                return St(v.ty, [VecV(ks)])
            if b in ('std::collections::BTreeMap', 'std::collections::BTreeSet'):
                raise Unsupported('symbolic ' + b)
            return St(v.ty, [self.mk(ft, f'{v.name}.{fn}') for fn, ft in t['variants'][0]['fields']])
        if t['kind'] == 'enum':
            c = st.choices.get(v.name)
            if c is None:
                n = len(t['variants'])
                pol = self.variants_policy.get(t['base'])
                fx = self.fixed.get(v.name)
                if fx is not None:
                    pol = fx if isinstance(fx, (tuple, list)) else (fx,)
                    sp = self.split.get(v.name)
                    if sp is not None and set(sp) != {x['name'] for x in t['variants']}:
                        raise Unsupported(f'the split of {v.name} misses variants')
                idx = [i for i in range(n) if pol is None or t['variants'][i]['name'] in pol]
                c = self.choose(st, v.name, tuple(idx), n)
            vr = t['variants'][c]
            return En(v.ty, c, [self.mk(ft, f'{v.name}.{vr["name"]}.{fn}') for fn, ft in vr['fields']])
        raise Unsupported('force ' + b)

    def lens_of(self, name):
        """the lengths a symbolic list is explored for"""
        full = name
        lens, at = None, -1
        name = without_keys(name)
        for pat, l in self.lens.items():        # the pattern that matches last in the name
            if pat in name and (pat != 'info.funds' or name == pat):
                i = name.rindex(pat) + len(pat)
                if i > at:
                    lens, at = l, i
        if lens is None:
            lens = self.default_lens
        if lens[0] in ('exact', 'always'):
            if lens[0] == 'exact':
                self.bounded.add((full, lens[1:]))      # 'always': no other length can occur
            return list(lens[1:])
        return tuple(lens)

    # ------------------------------------------------------------ memory
    def get_in(self, st, v, path):
        for i in path:
            v = self.force(st, v)
            if isinstance(v, (St, En)):
                v = v.f[i]
            elif isinstance(v, VecV):
                if i >= len(v.e):
                    raise Unsupported('index out of range in read')
                v = v.e[i]
            else:
                raise Unsupported(f'projection {i} of {v!r}')
        return v

    def read(self, st, cell, path):
        try:
            v = st.mem[cell]
        except KeyError:
            return UNINIT if not path else self._bad(cell, path)
        return self.get_in(st, v, path) if path else v

    def _bad(self, cell, path):
        raise Unsupported(f'read of dead cell {cell} {path}')

    def load0(self, st, p):
        """value behind a pointer, not expanded"""
        return self.load(st, p) if p.meta is not None else self.read(st, p.cell, p.path)

    def load(self, st, p):
        """value behind a pointer (the slice it denotes, if it has a range)"""
        p = self.force(st, p)
        if not isinstance(p, Ptr):
            raise Unsupported(f'deref of {p!r}')
        v = self.force(st, self.read(st, p.cell, p.path))
        if p.meta is not None:
            s, n = p.meta
            if isinstance(v, VecT) and isint(s) and s == 0 and not isint(n):
                pass
            elif isinstance(v, VecV):
                v = VecV(v.e[s:s + n])
            else:
                raise Unsupported('sub-slice of ' + repr(v))
        return v

    def deref(self, st, v):
        """strip references"""
        v = self.force(st, v)
        while isinstance(v, Ptr):
            v = self.load(st, v)
            v = self.force(st, v)
        return v

    def set_in(self, st, v, path, nv):
        if not path:
            return nv
        i = path[0]
        v = self.force(st, v)
        if isinstance(v, St):
            f = list(v.f)
            while len(f) <= i:
                f.append(UNINIT)
            f[i] = self.set_in(st, f[i], path[1:], nv)
            return St(v.ty, f)
        if isinstance(v, En):
            f = list(v.f)
            while len(f) <= i:
                f.append(UNINIT)
            f[i] = self.set_in(st, f[i], path[1:], nv)
            return En(v.ty, v.v, f)
        if isinstance(v, VecV):
            e = list(v.e)
            e[i] = self.set_in(st, e[i], path[1:], nv)
            return VecV(e)
        if v is UNINIT or v is None:
            f = [UNINIT] * (i + 1)
            f[i] = self.set_in(st, UNINIT, path[1:], nv)
            return St(None, f)
        raise Unsupported(f'write into {v!r}')

    def write(self, st, cell, path, nv):
        if not path:
            st.mem[cell] = nv
        else:
            st.mem[cell] = self.set_in(st, st.mem.get(cell, UNINIT), path, nv)

    def store_ptr(self, st, p, nv):
        p = self.force(st, p)
        if p.meta is not None:
            s, n = p.meta
            v = self.force(st, self.read(st, p.cell, p.path))
            nv = VecV(v.e[:s] + nv.e + v.e[s + n:])
        self.write(st, p.cell, p.path, nv)

    # ------------------------------------------------------------ places
    def loc(self, st, fr, place):
        l, proj = place
        cell, path, meta = (fr.fid, l), (), None
        ty = fr.body['locals'][l]
        for p in proj:
            k = p[0]
            if k == '*':
                v = self.force(st, self.read(st, cell, path))
                t = self.ty(ty)
                if isinstance(v, Ptr):
                    cell, path, meta = v.cell, v.path, v.meta
                elif isinstance(v, St) and t['k'] == 'adt' and t['box']:
                    path = path + (0,)
                else:
                    raise Unsupported(f'deref of {v!r} in {fr.inst["norm"]}')
                ty = t['args'][0] if t['k'] == 'adt' else t['ty']
            elif k == '.':
                if not self.is_transparent(ty):
                    path = path + (p[1],)
                ty = p[2]
                meta = None
            elif k == '[':
                i = st.mem[(fr.fid, p[1])]
                s0, n = self._range(st, cell, path, meta)
                if not isint(i):
                    i = self.concretize(st, i, n)
                path = path + (s0 + i,)
                ty = self.ty(ty)['ty']
                meta = None
            elif k == 'c':
                s0, n = self._range(st, cell, path, meta)
                path = path + ((s0 + n - p[1]) if p[3] else (s0 + p[1]),)
                ty = self.ty(ty)['ty']
                meta = None
            elif k == 's':
                s0, n = self._range(st, cell, path, meta)
                end = n - p[2] if p[3] else p[2]
                meta = (s0 + p[1], end - p[1])
            elif k == 'v':
                pass
            elif k == 'o':
                ty = p[1]
        return cell, path, meta, ty

    def _range(self, st, cell, path, meta):
        if meta is not None:
            return meta
        v = self.force(st, self.read(st, cell, path))
        return (0, count(v) if isinstance(v, VecV) else len(v.e))

    def concretize(self, st, i, n):
        """case split on the value of a symbolic index 0 <= i < n"""
        if isint(i):
            return i

        def alt(k):
            def f(s):
                s.assume(eq(i, k))
                s.choices[('ix', i)] = k
                return self.feas.feasible(s.pcn)
            return f
        c = st.choices.get(('ix', i))
        if c is not None:
            return c
        raise Fork([alt(k) for k in range(n)])

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'cp' or k == 'mv':
            pl = o[1]
            if not pl[1]:
                return st.mem.get((fr.fid, pl[0]), UNINIT)
            cell, path, meta, ty = self.loc(st, fr, pl)
            v = self.read(st, cell, path)
            if meta is not None:
                v = VecV(self.force(st, v).e[meta[0]:meta[0] + meta[1]])
            return v
        if k == 'k':
            return self.const(st, o[1])
        if k == 'rt':
            return False if 'Overflow' not in o[1] else True
        raise Unsupported(o)

    def const(self, st, c):
        ty = c['ty']
        return self.const_val(st, ty, c['v'])

    def const_val(self, st, ty, v):
        t = self.ty(ty)
        if 'zst' in v:
            if t['k'] == 'fndef':
                return Fn(ty)
            if t['k'] == 'tuple':
                return St(ty, [])
            if t['k'] == 'adt' and t['kind'] == 'enum':
                return En(ty, 0, [])
            if t['k'] == 'array':
                return VecV([])
            return self.zst(ty)
        if 'i' in v:
            return int(v['i'])
        if 'b' in v:
            return v['b']
        if 'str' in v:
            return StrV(lit=v['str'])
        if 'bytes' in v:
            return VecV(v['bytes'])
        if 'arr' in v:
            e = t.get('ty')
            return VecV([self.const_val(st, e, x) for x in v['arr']])
        if 's' in v:
            if t['k'] == 'tuple':
                return St(ty, [self.const_val(st, x, y) for x, y in zip(t['tys'], v['s'])])
            if t['k'] == 'closure':
                return St(ty, [self.const_val(st, x, y) for x, y in zip(t['upvars'], v['s'])])
            b = t['base']
            if b in BIGNUM:
                return St(ty, [self._bigconst(v, BIGNUM[b])])
            if b == 'std::string::String' or b == 'std::vec::Vec':
                # only the empty value can be a constant
                return StrV(lit='') if b.endswith('String') else VecV([])
            fs = t['variants'][0]['fields']
            if b in TRANSPARENT:
                return self.const_val(st, fs[0][1], v['s'][0])
            return St(ty, [self.const_val(st, f[1], y) for f, y in zip(fs, v['s'])])
        if 'v' in v:
            fs = t['variants'][v['v']]['fields']
            return En(ty, v['v'], [self.const_val(st, f[1], y) for f, y in zip(fs, v['f'])])
        if 'ref' in v:
            inner = t['ty']
            key = ('const', ty, repr(v))
            if key not in st.mem:
                st.mem[key] = None
                st.mem[key] = self.const_val(st, inner, v['ref'])
            return Ptr(key)
        if 'fn' in v:
            i = self.s.reg(v['fn'])
            return Fn(i['ty'])
        if 'addr' in v:
            return Opq('addr', v['addr'])
        return Opq('const', repr(v))

    def _bigconst(self, v, bits):
        while 's' in v:
            v = v['s'][0]
        n = 0
        for i, d in enumerate(v['arr']):
            n |= int(d['i']) << (64 * i)
        if bits < 0 and n >> (-bits - 1):
            n -= 1 << -bits
        return n

    def zst(self, ty):
        t = self.ty(ty)
        if t['k'] == 'closure':
            return St(ty, [self.zst(x) for x in t['upvars']])
        if t['k'] == 'adt' and t['kind'] == 'struct':
            return St(ty, [self.zst(f[1]) for f in t['variants'][0]['fields']])
        if t['k'] == 'tuple':
            return St(ty, [self.zst(x) for x in t['tys']])
        if t['k'] == 'fndef':
            return Fn(ty)
        return Opq('zst', ty)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'reborrow':
            cell, path, meta, ty = self.loc(st, fr, r[2])
            return Ptr(cell, path, meta)
        if k == 'agg':
            kk = r[1]
            ops = [self.operand(st, fr, o) for o in r[2]]
            if kk[0] == 'tuple':
                return St(dty, ops)
            if kk[0] == 'array':
                return VecV(ops)
            if kk[0] == 'adt':
                t = self.ty(kk[1])
                if t['kind'] == 'enum':
                    return En(kk[1], kk[2], ops)
                if t['base'] in TRANSPARENT:
                    return ops[0]
                return St(kk[1], ops)
            if kk[0] == 'closure':
                return St(kk[1], ops)
            if kk[0] == 'rawptr':
                p = ops[0]
                if isinstance(p, Ptr) and len(ops) > 1 and isint(ops[1]):
                    s0 = p.meta[0] if p.meta else 0
                    return Ptr(p.cell, p.path, (s0, ops[1]))
                return p
            raise Unsupported('aggregate ' + kk[0])
        if k == 'bin':
            if r[1] == 'Cmp':
                self.ord_ty = dty
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4])
        if k == 'cbin':
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            v = {'Add': add, 'Sub': sub, 'Mul': mul}[r[1]](a, b)
            lo, hi = self.int_range(r[4])
            return St(dty, [v, Not(And(le(lo, v), le(v, hi)))])
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if isbool(v):
                    return Not(v)
                t = self.ty(r[3])
                if t['k'] == 'uint':
                    return sub(2 ** t['bits'] - 1, v)
                return sub(-1, v)
            if r[1] == 'Neg':
                return mul(v, -1)
            if r[1] == 'PtrMetadata':
                p = self.force(st, v)
                return self._range(st, p.cell, p.path, p.meta)[1]
            raise Unsupported('unop ' + r[1])
        if k == 'cast':
            return self.cast(st, fr, r, dty)
        if k == 'discr':
            cell, path, meta, ty = self.loc(st, fr, r[1])
            v = self.force(st, self.read(st, cell, path))
            if not isinstance(v, En):
                t = self.ty(ty)
                if v is UNINIT and t['k'] == 'adt' and t['kind'] == 'enum':
                    # only one variant can exist, the assignment was elided
                    l = [x for x in t['variants'] if not any(self.ty(f[1])['k'] == 'never' for f in x['fields'])]
                    if len(l) == 1:
                        return l[0]['discr']
                raise Unsupported(f'discriminant of {v!r}')
            return self.ty(v.ty)['variants'][v.v]['discr'] if v.ty is not None else v.v
        if k == 'len':
            cell, path, meta, ty = self.loc(st, fr, r[1])
            return self._range(st, cell, path, meta)[1]
        if k == 'rep':
            v = self.operand(st, fr, r[1])
            return VecV([v] * r[2])
        raise Unsupported('rvalue ' + k)

    def int_range(self, ty):
        t = self.ty(ty)
        if t['k'] == 'uint':
            return 0, 2 ** t['bits'] - 1
        if t['k'] == 'int':
            return -2 ** (t['bits'] - 1), 2 ** (t['bits'] - 1) - 1
        if t['k'] == 'char':
            return 0, 0x10ffff
        raise Unsupported(f'range of {t}')

    def wrap(self, v, ty):
        lo, hi = self.int_range(ty)
        l, h = bounds(v)
        if l >= lo and h <= hi:
            return v
        n = hi - lo + 1
        return add(fmod(sub(v, lo), n), lo)

    def binop(self, st, op, a, b, ty):
        if isinstance(a, Sym):
            a = self.force(st, a)
        if isinstance(b, Sym):
            b = self.force(st, b)
        if op in ('Eq', 'Ne'):
            if isinstance(a, (Ptr, Opq)) or isinstance(b, (Ptr, Opq)):
                r = isinstance(a, Ptr) and isinstance(b, Ptr) and (a.cell, a.path) == (b.cell, b.path)
            else:
                r = eq(a, b)
            return r if op == 'Eq' else Not(r)
        if op == 'Lt':
            return lt(a, b) if not isbool(a) else And(Not(a), b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if isbool(a) or isbool(b):
            if op == 'BitAnd':
                return And(a, b)
            if op == 'BitOr':
                return Or(a, b)
            if op == 'BitXor':
                return Not(eq(a, b))
        if op in ('Add', 'AddUnchecked'):
            return self.wrap(add(a, b), ty)
        if op in ('Sub', 'SubUnchecked'):
            return self.wrap(sub(a, b), ty)
        if op in ('Mul', 'MulUnchecked'):
            return self.wrap(mul(a, b), ty)
        if op in ('Div', 'Rem'):
            la, _ = bounds(a)
            lb, _ = bounds(b)
            if la >= 0 and lb >= 0:
                if not (isint(b)):
                    st.assume(lt(0, b))
                return fdiv(a, b) if op == 'Div' else fmod(a, b)
            if isint(a) and isint(b):
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return q if op == 'Div' else a - b * q
            sa = self.decide(st, le(0, a))
            sb = self.decide(st, le(0, b))
            q = fdiv(a if sa else mul(a, -1), b if sb else mul(b, -1))
            q = q if sa == sb else mul(q, -1)
            return q if op == 'Div' else sub(a, mul(b, q))
        if op == 'Cmp':
            return self.ordering(st, a, b)
        if isint(a) and isint(b):
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
            if op == 'BitXor':
                return a ^ b
            if op in ('Shl', 'ShlUnchecked'):
                return self.wrap(a << b, ty)
            if op in ('Shr', 'ShrUnchecked'):
                return a >> b
        if op == 'BitAnd' and (isint(a) or isint(b)):
            x, m = (a, b) if isint(b) else (b, a)
            if m >= 0 and (m & (m + 1)) == 0 and bounds(x)[0] >= 0:
                return fmod(x, m + 1)
        if op in ('Shl', 'ShlUnchecked') and isint(b):
            return self.wrap(mul(a, 1 << b), ty)
        if op in ('Shr', 'ShrUnchecked') and isint(b):
            return fdiv(a, 1 << b)
        lo, hi = self.int_range(ty)
        return ufun(op, (a, b), lo, hi)

    def decide(self, st, c):
        """case split on a boolean"""
        if isinstance(c, bool):
            return c
        i, j = c.get_id(), Not(c).get_id()
        n = st.pcn
        while n is not None:
            if n.id == i:
                return True
            if n.id == j:
                return False
            n = n.parent

        def yes(s):
            s.assume(c)
            return self.feas.feasible(s.pcn)

        def no(s):
            s.assume(Not(c))
            return self.feas.feasible(s.pcn)
        raise Fork([yes, no])

    def ordering_ty(self):
        return None

    def ordering(self, st, a, b):
        if self.decide(st, lt(a, b)):
            return En(self.ord_ty, 0)
        if self.decide(st, eq(a, b)):
            return En(self.ord_ty, 1)
        return En(self.ord_ty, 2)

    ord_ty = None

    def cast(self, st, fr, r, dty):
        kind, o, ty, oty = r[1], r[2], r[3], r[4]
        if kind == 'BoxDerefTransmute':
            pl = o[1]
            # address of the box contents: drop the trailing field projections down to the Box itself
            proj = list(pl[1])
            while proj:
                l2 = [pl[0], proj]
                cell, path, meta, t = self.loc_ty(st, fr, l2)
                if self.ty(t)['k'] == 'adt' and self.ty(t)['box']:
                    return Ptr(cell, path + (0,))
                proj = proj[:-1]
            cell, path, meta, t = self.loc_ty(st, fr, [pl[0], []])
            return Ptr(cell, path + (0,))
        v = self.operand(st, fr, o)
        if kind == 'IntToInt':
            if isbool(v):
                return ite(v, 1, 0)
            if isinstance(v, En):
                v = self.ty(v.ty)['variants'][v.v]['discr']
            return self.wrap(v, ty)
        if kind.startswith('PointerCoercion'):
            if 'ClosureFnPointer' in kind:
                return v
            return v
        if kind in ('PtrToPtr', 'Subtype'):
            return v
        if kind == 'Transmute':
            if isinstance(v, (Ptr, St, En, Opq, Fn)):
                return v
            if isint(v) or isinstance(v, Poly):
                return v
            return v
        raise Unsupported('cast ' + kind)

    def loc_ty(self, st, fr, place):
        # location without following transparent erasure problems
        l, proj = place
        cell, path, meta = (fr.fid, l), (), None
        ty = fr.body['locals'][l]
        if not proj:
            return cell, path, meta, ty
        # only used for `(x.f.g.0.0.0)`: the last non-internal prefix is found by the caller
        return self.loc_soft(st, fr, place)

    def loc_soft(self, st, fr, place):
        l, proj = place
        cell, path, meta = (fr.fid, l), (), None
        ty = fr.body['locals'][l]
        for p in proj:
            t = self.ty(ty)
            if p[0] == '.':
                if t['k'] == 'adt' and t['box']:
                    return cell, path, meta, ty
                if not self.is_transparent(ty):
                    path = path + (p[1],)
                ty = p[2]
            elif p[0] == '*':
                v = self.force(st, self.read(st, cell, path))
                if isinstance(v, Ptr):
                    cell, path, meta = v.cell, v.path, v.meta
                else:
                    path = path + (0,)
                ty = t['args'][0] if t['k'] == 'adt' else t['ty']
            elif p[0] == 'v':
                pass
            else:
                raise Unsupported('loc_soft')
        return cell, path, meta, ty

    # ------------------------------------------------------------ calls
    def call_inst(self, st, inst, args, fnty=None, untuple=False):
        """all outcomes of calling an instance"""
        import time
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        norm = inst['norm']
        self.calls[norm] = self.calls.get(norm, 0) + 1
        c = self.contracts.get(norm)
        if c is not None:
            return self.retry(st, lambda s: c(self, s, inst, args))
        m = self.model_cache.get(inst['id'], 0)
        if m == 0:
            m = self.models.lookup(self, inst)
            self.model_cache[inst['id']] = m
        if m is not None:
            self.cur_norm = norm
            # what only the model holds is still in use
            self.pins.append(args)
            try:
                return self.retry(st, lambda s: m(self, s, inst, args))
            finally:
                self.pins.pop()
        # calls of closures through the Fn* traits
        if untuple:
            tup = self.force(st, args[-1])
            args = list(args[:-1]) + list(tup.f)
        if inst['kind'] in ('item', 'shim') and (inst['has_body'] or inst['kind'] == 'shim'):
            if inst['empty']:
                return [(st, St(None, []))]
            return self.run(st, inst, args)
        rt = self.ty(inst['sig'][1])
        if rt['k'] == 'adt':
            # tuple constructors used as functions
            nm = norm.rsplit('::', 1)[-1]
            if rt['kind'] == 'enum':
                for i, v in enumerate(rt['variants']):
                    if v['name'] == nm and len(v['fields']) == len(args):
                        return [(st, En(inst['sig'][1], i, args))]
            elif rt['base'].rsplit('::', 1)[-1] == nm:
                return [(st, St(inst['sig'][1], args))]
        raise Unsupported('no body and no model: ' + norm + f' ({inst["kind"]})')

    def retry(self, st, f):
        """run a model, re-running it in refined states when it asks for a case split"""
        out = []
        todo = [st]
        while todo:
            s = todo.pop()
            s0 = s.copy()
            try:
                r = f(s)
            except Fork as fk:
                k = ('model', self.cur_norm, self.stack[-1] if self.stack else '')
                self.forks[k] = self.forks.get(k, 0) + 1
                for a in fk.alts:
                    s2 = s0.copy()
                    if a(s2) is not False and not s2.dead:
                        todo.append(s2)
                continue
            if r is None:
                raise Unsupported('model returned None')
            out.extend(r)
        return out

    def call_value(self, st, f, args):
        """call a closure / fn item / fn pointer value with the given (untupled) arguments"""
        f0 = f
        v = self.force(st, f)
        depth = 0
        while isinstance(v, Ptr):
            f0 = v
            v = self.force(st, self.load(st, v))
            depth += 1
        if isinstance(v, Fn):
            t = self.ty(v.ty)
            i = t['inst']
            if i is None:
                raise Unsupported('unresolved fn value')
            return self.call_inst(st, self.s.reg(i), list(args), v.ty)
        if isinstance(v, St) and v.ty is not None and self.ty(v.ty)['k'] == 'closure':
            t = self.ty(v.ty)
            i = t['mutt'] or t['once']
            i = self.s.reg(i)
            b = self.s.body(i['id'])
            selfty = self.ty(b['locals'][1])
            if selfty['k'] == 'ref':
                if not isinstance(f0, Ptr):
                    f0 = Ptr(st.alloc(v))
                return self.run(st, i, [f0] + list(args))
            return self.run(st, i, [v] + list(args))
        raise Unsupported(f'call of {v!r}')

    def call_ty(self, st, fnty, args):
        t = self.ty(fnty)
        inst = t['inst']
        if inst is None:
            raise Unsupported('unresolved call ' + t['def'])
        inst = self.s.reg(inst)
        d = t['def']
        if d in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            tup = self.force(st, args[1])
            return self.call_value(st, args[0], list(tup.f))
        return self.call_inst(st, inst, args, fnty)

    # ------------------------------------------------------------ bodies
    def run(self, st, inst, args):
        body = self.s.body(inst['id'])
        if body is None:
            raise Unsupported('no MIR for ' + inst['norm'])
        self.inlined.add(inst['norm'])
        self.stack.append(inst['norm'])
        try:
            out = self.run0(st, inst, body, args)
            if len(out) > 1 and self.merge_on:
                out = merge.merge(self, out)
            return out
        except (Unsupported, IndexError, AttributeError, TypeError, KeyError, AssertionError) as e:
            if not getattr(e, 'mirstack', None):
                e.mirstack = list(self.stack)
            raise
        finally:
            self.stack.pop()

    def run0(self, st, inst, body, args):
        self.fid += 1
        fr = Frame()
        fr.fid, fr.body, fr.inst = self.fid, body, inst
        if body['argc'] != len(args):
            if body['argc'] == 1 + len(args) - 1 and False:
                pass
            # rust-call ABI
            if len(args) == 2 and body['argc'] != 2:
                tup = self.force(st, args[1])
                args = [args[0]] + list(tup.f)
            if body['argc'] != len(args):
                raise Unsupported(f'arity of {inst["norm"]}')
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        out = []
        blocks = body['blocks']
        work = [(st, 0, 0, {})]
        while work:
            st, bb, si, vis = work.pop()
            while True:
                try:
                    res = self.block(st, fr, blocks, bb, si, vis)
                except Fork as fk:
                    # statement index at which the exception was raised is kept in fr._si
                    bb, si = fr.cur
                    self.forks[(fr.inst['norm'], bb)] = self.forks.get((fr.inst['norm'], bb), 0) + 1
                    for a in fk.alts[::-1]:
                        s2 = st.copy()
                        if a(s2) is not False and not s2.dead:
                            work.append((s2, bb, si, dict(vis)))
                    break
                # res: list of (state, next block) | ('ret', state)
                if res is None:
                    break
                if len(res) > 1:
                    k = (fr.inst['norm'], bb, blocks[bb][2])
                    self.forks[k] = self.forks.get(k, 0) + 1
                if len(res) == 1:
                    st, nb = res[0]
                    if nb == -1:
                        self.finish(st, fr, out)
                        break
                    bb, si = nb, 0
                    continue
                for s2, nb in res[::-1]:
                    if nb == -1:
                        self.finish(s2, fr, out)
                    else:
                        work.append((s2, nb, 0, dict(vis)))
                break
            if len(out) + len(work) > self.path_budget:
                raise Unsupported('path budget')
        return out

    def finish(self, st, fr, out):
        ret = st.mem.get((fr.fid, 0), UNINIT)
        if ret is UNINIT:
            ret = St(None, [])
        fid = fr.fid
        keep = None
        for k in [k for k in st.mem if k[0] == fid]:
            del st.mem[k]
        out.append((st, ret))

    def abort(self, st, fr, msg):
        if self.keep_aborts:
            self.aborts.append((st, fr.inst['norm'] if fr else '?', msg))

    def block(self, st, fr, blocks, bb, si, vis):
        stmts, term, line = blocks[bb]
        n = len(stmts)
        if si == 0:
            c = vis.get(bb, 0) + 1
            vis[bb] = c
            h = self.hooks.get(fr.inst['norm'])
            if h is not None:
                r = h(self, st, fr, bb, c)
                if r is not None:
                    return r
            if c > self.maxvisits:
                raise Unsupported(f'loop in {fr.inst["norm"]} exceeds {self.maxvisits} iterations')
        mem = st.mem
        while si < n:
            fr.cur = (bb, si)
            self.steps += 1
            s = stmts[si]
            k = s[0]
            if k == '=':
                pl = s[1]
                if not pl[1]:
                    mem[(fr.fid, pl[0])] = self.rvalue(st, fr, s[2], fr.body['locals'][pl[0]])
                else:
                    cell, path, meta, ty = self.loc(st, fr, pl)
                    v = self.rvalue(st, fr, s[2], ty)
                    if meta is not None and isinstance(v, VecV):
                        self.store_ptr(st, Ptr(cell, path, meta), v)
                    else:
                        self.write(st, cell, path, v)
            elif k == 'setd':
                cell, path, meta, ty = self.loc(st, fr, s[1])
                v = self.read(st, cell, path)
                self.write(st, cell, path, En(ty, s[2], v.f if isinstance(v, (En, St)) else ()))
            elif k == 'assume':
                pass
            else:
                raise Unsupported('statement ' + k)
            si += 1
        fr.cur = (bb, n)
        k = term[0]
        if k == 'goto':
            return [(st, term[1])]
        if k == 'drop':
            return [(st, term[2])]
        if k == 'return':
            return [(st, -1)]
        if k == 'switch':
            v = self.operand(st, fr, term[1])
            v = self.force(st, v) if isinstance(v, Sym) else v
            if isbool(v):
                if isinstance(v, bool):
                    iv = 1 if v else 0
                    for val, t in term[2]:
                        if int(val) == iv:
                            return [(st, t)]
                    return [(st, term[3])]
                res = []
                used = []
                for val, t in term[2]:
                    c = v if int(val) else Not(v)
                    used.append(c)
                    self._branch(st, c, t, res)
                rest = And(*[Not(c) for c in used])
                if rest is not False and len(used) < 2:
                    self._branch(st, rest, term[3], res)
                return res or None
            if isint(v):
                t4 = self.ty(term[4])
                if v < 0 and t4['k'] == 'int':
                    v += 2 ** t4['bits']
                for val, t in term[2]:
                    if int(val) == v:
                        return [(st, t)]
                return [(st, term[3])]
            if isinstance(v, Poly):
                res = []
                rest = []
                for val, t in term[2]:
                    c = eq(v, int(val))
                    self._branch(st, c, t, res)
                    rest.append(Not(c))
                self._branch(st, And(*rest), term[3], res)
                return res or None
            raise Unsupported(f'switch on {v!r}')
        if k == 'assert':
            c = self.operand(st, fr, term[1])
            if not term[2]:
                c = Not(c)
            if c is False:
                self.abort(st, fr, term[3])
                return None
            if c is not True and self.keep_aborts:
                s2 = st.copy()
                s2.assume(Not(c))
                self.abort(s2, fr, term[3])
            st.assume(c)
            return [(st, term[4])]
        if k == 'call':
            f = term[1]
            if term[4] is None:      # a call that does not return
                self.abort(st, fr, 'diverging call')
                return None
            args = [self.operand(st, fr, a) for a in term[2]]
            if f[0] == 'k':
                fty = f[1]['ty']
                outs = self.call_ty(st, fty, args) if self.ty(fty)['k'] == 'fndef' else self.call_value(st, self.const(st, f[1]), args)
            else:
                outs = self.call_value(st, self.operand(st, fr, f), args)
            res = []
            dst = term[3]
            for s2, v in outs:
                if v is PANIC:
                    self.abort(s2, fr, 'panic')
                    continue
                if s2.dead:
                    continue
                if not dst[1]:
                    s2.mem[(fr.fid, dst[0])] = v
                else:
                    cell, path, meta, ty = self.loc(s2, fr, dst)
                    self.write(s2, cell, path, v)
                res.append((s2, term[4]))
            return res or None
        if k == 'unreachable':
            return None
        if k == 'abort':
            return None
        raise Unsupported('terminator ' + k)

    def _branch(self, st, c, t, res):
        if c is False:
            return
        if c is True:
            res.append((st, t))
            return
        s2 = st.copy()
        s2.assume(c)
        if s2.pcn is not st.pcn and not self.feas.feasible(s2.pcn):
            return
        res.append((s2, t))


import merge      # noqa: E402


class _P:
    def __repr__(self): return 'PANIC'


PANIC = _P()


_TEXT_OF = {}


def same_text_axioms(names):
    """equal texts are both valid addresses (denominations) or both not; texts that begin alike are equal exactly when the rests are"""
    if len(_TEXT_OF) != len(_STRKEY):
        for v in _STRKEY.values():
            i = strid(v)
            _TEXT_OF[repr(i)] = i
    out = []
    for pre in ('addr_valid:', 'denom_valid:'):
        l = sorted(n for n in names if n.startswith(pre) and n[len(pre):] in _TEXT_OF)
        for i, a in enumerate(l):
            for b in l[:i]:
                c = T.eq(_TEXT_OF[a[len(pre):]], _TEXT_OF[b[len(pre):]])
                if c is not False and not isinstance(c, bool):
                    out.append(z3.Or(z3.Not(c), z3.Bool(a) == z3.Bool(b)))
    heads = {}
    for ix, (h, rest) in T.HEADED.items():
        if T.ATOMS[ix].name in names:
            heads.setdefault(h, []).append((T.ATOMS[ix].z, rest))
    for l in heads.values():
        for i, (z, r) in enumerate(l):
            for y, q in l[:i]:
                c = T.eq(r, q)
                out.append((z == y) == (z3.BoolVal(c) if isinstance(c, bool) else c))
    return out

"""Symbolic values.  All values are immutable; a shared reference is represented by the value it
points at (sound because the pointee cannot change while the borrow lives); a mutable reference is
a MutRef to a store location and a projection path."""

import z3
from mir import Str, Unsupported



class Moved:
    def __repr__(self):
        return 'MOVED'


MOVED = Moved()
_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return f'{p}!{_cnt[0]}'


_loc = [0]


def fresh_loc(p):
    _loc[0] += 1
    return f'{p}@{_loc[0]}'


def cnt_now():
    return _cnt[0]


class Rope:
    __slots__ = ('p', '_t')

    def __init__(self, pieces):
        out = []
        for x in pieces:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
        self.p = tuple(out)
        self._t = None

    def term(self):
        if self._t is None:
            if not self.p:
                self._t = lit('')
            else:
                ts = [lit(x) if isinstance(x, str) else x for x in self.p]
                t = ts[-1]
                for x in reversed(ts[:-1]):
                    t = CAT(x, t)
                self._t = t
        return self._t

    def lit(self):
        if not self.p:
            return ''
        if len(self.p) == 1 and isinstance(self.p[0], str):
            return self.p[0]
        return None

    def __add__(self, o):
        return Rope(self.p + o.p)

    def __repr__(self):
        return 'Rope(' + ' ++ '.join(repr(x) if isinstance(x, str) else str(x) for x in self.p) + ')'


CAT = z3.Function('cat', Str, Str, Str)
STRLEN = z3.Function('strlen', Str, z3.IntSort())
NTH = z3.Function('byte_at', Str, z3.IntSort(), z3.IntSort())
LITS = {}
LITID = z3.Function('literal_id', Str, z3.IntSort())
LITLIST = []
LIT_SIZES = []      # change counters of the hooks below
LIT_EXTRA = []      # hooks: literal -> extra axioms


def lit(s):
    if s not in LITS:
        LITS[s] = z3.Const('lit:' + repr(s), Str)
        LITLIST.append(s)
    return LITS[s]


def lit_ax(n):
    """distinct literals are distinct strings; their length is known"""
    s = LITLIST[n]
    t = LITS[s]
    out = [LITID(t) == n]
    if all(ord(c) < 128 for c in s):
        out.append(STRLEN(t) == len(s))
        for h in LIT_EXTRA:
            out += h(s, t)
    return out


def rope(x):
    if isinstance(x, Rope):
        return x
    if isinstance(x, str):
        return Rope([x])
    if z3.is_expr(x) and x.sort() == Str:
        # un-cat
        return Rope(_uncat(x))
    raise Unsupported('not a string: %r' % (x,))


_LITREV = {}


def _uncat(t):
    out = []
    while z3.is_app(t) and t.decl().eq(CAT):
        out += _uncat(t.arg(0))
        t = t.arg(1)
    n = t.decl().name() if z3.is_app(t) else ''
    if n.startswith('lit:') and t.num_args() == 0:
        import ast
        out.append(ast.literal_eval(n[4:]))
    else:
        out.append(t)
    return out


class Agg:
    __slots__ = ('tid', 'var', 'f')

    def __init__(self, tid, var, f):
        self.tid, self.var, self.f = tid, var, tuple(f)

    def __repr__(self):
        return f'Agg#{self.tid}.{self.var}{self.f!r}'


class Dt:
    __slots__ = ('tid', 't')

    def __init__(self, tid, t):
        self.tid, self.t = tid, t

    def __repr__(self):
        return f'Dt({self.t})'


class IteV(Dt):
    """c ? a : b of an enum type, a and b in different (known or term) forms"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, tid, t, c, a, b):
        Dt.__init__(self, tid, t)
        self.c, self.a, self.b = c, a, b


class SeqC:
    """concrete-length sequence"""
    __slots__ = ('e', 'et')

    def __init__(self, e, et):
        self.e, self.et = tuple(e), et

    def __repr__(self):
        return f'SeqC{self.e!r}'


class SeqS:
    """symbolic sequence: length term + z3 array Int -> sort(et)"""
    __slots__ = ('n', 'arr', 'et', 'tag')

    def __init__(self, n, arr, et, tag=None):
        self.n, self.arr, self.et, self.tag = n, arr, et, tag

    def __repr__(self):
        return f'SeqS({self.n},{self.arr})'


class SeqT:
    """abstract sequence value (uninterpreted sort with len/nth)"""
    __slots__ = ('t', 'et')

    def __init__(self, t, et):
        self.t, self.et = t, et

    def __repr__(self):
        return f'SeqT({self.t})'


class MapV:
    """finite map: dom : K->Bool, map : K->V, size, optional known enumeration of its keys"""
    __slots__ = ('dom', 'map', 'kt', 'vt', 'keys', 'n')

    def __init__(self, dom, map, kt, vt, keys=None, n=None):
        self.dom, self.map, self.kt, self.vt, self.keys, self.n = dom, map, kt, vt, keys, n

    def __repr__(self):
        return f'MapV({self.dom},{self.map})'


class MutRef:
    __slots__ = ('loc', 'path')

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, tuple(path)

    def __repr__(self):
        return f'MutRef({self.loc},{self.path})'


class FnVal:
    __slots__ = ('fid',)

    def __init__(self, fid):
        self.fid = fid

    def __repr__(self):
        return f'FnVal({self.fid})'


class Nat:
    """native (library) value: kind + immutable attributes"""
    __slots__ = ('k', 'a')

    def __init__(self, k, **a):
        self.k = k
        self.a = a

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def with_(self, **kw):
        d = dict(self.a)
        d.update(kw)
        return Nat(self.k, **d)

    def __repr__(self):
        return f'<{self.k} {self.a!r}>'


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def zint(v):
    if isinstance(v, bool):
        raise Unsupported('bool as int')
    if isinstance(v, int):
        return z3.IntVal(v)
    return v


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def norm(t):
    """fold z3 constants back to Python"""
    if isinstance(t, (bool, int)):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def And(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def rope_eq(a, b):
    a, b = rope(a), rope(b)
    pa, pb = list(a.p), list(b.p)
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0], pb[0] = x[n:], y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
            pa.pop(0)
            pb.pop(0)
            continue
        break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            pa[-1], pb[-1] = x[:-n], y[:-n]
            if not pa[-1]:
                pa.pop()
            if not pb[-1]:
                pb.pop()
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
            pa.pop()
            pb.pop()
            continue
        break
    if not pa and not pb:
        return True
    la, lb = all(isinstance(x, str) for x in pa), all(isinstance(x, str) for x in pb)
    if la and lb:
        return ''.join(pa) == ''.join(pb)
    if not pa and any(isinstance(x, str) for x in pb) or not pb and any(isinstance(x, str) for x in pa):
        return False
    return Rope(pa).term() == Rope(pb).term()


def memo(f):
    """a function of terms and values: same arguments, same result"""
    cache = {}

    def g(*a):
        k = tuple(x.get_id() if isinstance(x, z3.AstRef) else id(x) for x in a)
        c = cache.get(k)
        if c is None:
            if len(cache) > 20000:
                cache.clear()
            c = cache[k] = (a, f(*a))
        return c[1]
    return g

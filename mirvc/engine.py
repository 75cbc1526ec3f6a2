"""Verification-condition generator: symbolic execution of the MIR of /repo's functions.

Every function body is executed from a state that satisfies its contract's precondition; calls go
to a contract (when one has been discharged), to the callee's own MIR body, or to a model of a
library function (models.py).  Loops over symbolic collections are cut by invariants."""
import itertools
import sys
import time
import z3
from mir import Prog, Str, Unsupported
from values import *

sys.setrecursionlimit(20000)
MAXPATHS = 6000
UNROLL = 90


class St:
    __slots__ = ('pc', 'pcs', 'store', 'tr', 'held', 'now', 'uni', 'gr', 'taint', 'memo')

    def __init__(self):
        self.pc = []
        self.pcs = set()
        self.store = {}
        self.tr = ()
        self.held = ()
        self.now = None
        self.uni = ()
        self.gr = {}
        self.taint = frozenset()
        self.memo = {}

    def copy(self):
        s = St.__new__(St)
        s.pc = list(self.pc)
        s.pcs = set(self.pcs)
        s.store = dict(self.store)
        s.tr, s.held, s.now, s.uni, s.taint = self.tr, self.held, self.now, self.uni, self.taint
        s.gr = dict(self.gr)
        s.memo = dict(self.memo)
        return s


class Ev:
    """trace event"""
    __slots__ = ('k', 'a', 'held', 'at')

    def __init__(self, k, held, at, **a):
        self.k, self.held, self.at, self.a = k, held, at, a

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f'{self.k}{self.a!r}@{self.at}'


class Disc:
    """discriminant of an enum value"""
    __slots__ = ('v', 'tid')

    def __init__(self, v, tid):
        self.v, self.tid = v, tid


class Havoc:
    def __repr__(self):
        return 'HAVOC'


HAVOC = Havoc()


class Solver:
    """incremental satisfiability of conjunctions via assumption literals"""

    def __init__(self):
        self.reset()
        self.cache = {}
        self.calls = 0
        self.time = 0.0

    def reset(self):
        self.cache = {}
        self.lits_of = {}
        self.stk = None
        self.nq = 0

    def litax(self):
        """one formula with the axioms of all string literals seen so far"""
        k = (len(LITLIST), *(f() for f in LIT_SIZES))
        if self.lits_of.get('k') != k:
            fs = []
            for n in range(len(LITLIST)):
                fs += lit_ax(n)
            self.lits_of['f'] = z3.And(*fs) if fs else z3.BoolVal(True)
            self.lits_of['k'] = k
        return self.lits_of['f']

    def solver(self, fs, timeout=4000):
        s = z3.SimpleSolver()
        s.set('timeout', timeout)
        s.add(self.litax(), *fs)
        return s

    def inc(self, fs, timeout):
        """check with the assertion stack kept from the previous, usually similar, query"""
        la = self.litax()
        if self.stk is None or self.nq > 400:
            self.s = z3.SimpleSolver()
            self.stk = []       # levels: lists of formulas
            self.nq = 0
        self.nq += 1
        s = self.s
        n = 0
        todo = [la] + fs
        k = 0
        for lv in self.stk:
            m = len(lv)
            if k + m <= len(todo) and all(a is b or a.get_id() == b.get_id() for a, b in zip(lv, todo[k:k + m])):
                n += 1
                k += m
            else:
                break
        if len(self.stk) > n:
            s.pop(len(self.stk) - n)
            del self.stk[n:]
        if k < len(todo):
            rest = todo[k:]
            # the last formula is usually the question: give it a level of its own
            for part in ([rest[:-1]] if len(rest) > 1 else []) + [rest[-1:]]:
                s.push()
                s.add(*part)
                self.stk.append(part)
        s.set('timeout', timeout)
        return s.check()

    def sat(self, fs, timeout=4000):
        """True/False/None(unknown)"""
        key = frozenset(f.get_id() for f in fs)
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        t = time.time()
        self.calls += 1
        c = self.inc(fs, timeout)
        self.time += time.time() - t
        r = True if c == z3.sat else False if c == z3.unsat else None
        self.cache[key] = (r, list(fs))
        return r


class Panic:
    __slots__ = ('msg', 'at')

    def __init__(self, msg, at):
        self.msg, self.at = msg, at

    def __repr__(self):
        return f'Panic({self.msg!r} at {self.at})'


class Stop:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f'Stop({self.why})'


class Ret:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'Ret({self.v!r})'


class Eng:
    def __init__(self, prog, bounded=True):
        import models
        self.P = prog
        self.bounded = bounded
        self.solver = Solver()
        self.frames = itertools.count(1)
        self.fstack = []
        self.models = models.Models(self)
        self.contracts = {}
        self.contract_used = {}
        self.lock_content = None        # hook: (eng, st, name, tid) -> value
        self.loop_inv = []              # generators of candidate loop invariants
        self.loop_log = {}
        self.obl = []                   # side obligations found while executing
        self.npaths = 0
        self.entered = set()
        self.prefix = {}                # string -> set of prefixes tested
        self.extra_axioms = []
        self.unsup = []
        self.lenient = True             # unknown library functions become havoc + taint
        self.deadline = None
        self.str_reg = {}
        self.nosolve = False
        self.keepalive = []
        self.rcache = {}

    # ================= facts =========================================
    def assume(self, st, *fs):
        for f in fs:
            if f is True:
                continue
            if f is False:
                f = z3.BoolVal(False)
            if z3.is_and(f):
                self.assume(st, *f.children())
                continue
            i = f.get_id()
            if i in st.pcs or z3.is_true(f):
                continue
            st.pcs.add(i)
            st.pc.append(f)

    def known(self, st, c):
        """True/False/None syntactically"""
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in st.pcs:
            return True
        n = c.arg(0) if z3.is_not(c) else z3.Not(c)
        if n.get_id() in st.pcs:
            return False
        return None

    def feasible(self, st, c=True):
        k = self.known(st, c)
        if k is False:
            return False
        if k is True and c is not True or self.nosolve:
            return True
        fs = st.pc if c is True else st.pc + [c]
        return self.solver.sat(fs, 800) is not False

    def branch(self, st, c):
        """[(state, bool)]; the input state may be reused"""
        c = self.simp(c)
        k = self.known(st, c)
        if k is not None:
            return [(st, k)]
        t = self.feasible(st, c)
        f = not t or self.feasible(st, Not(c))      # the path itself is feasible
        r = []
        if t and f:
            s2 = st.copy()
            self.assume(st, c)
            self.assume(s2, Not(c))
            return [(st, True), (s2, False)]
        if t:
            self.assume(st, c)
            return [(st, True)]
        if f:
            self.assume(st, Not(c))
            return [(st, False)]
        return []

    def simp(self, c):
        if isinstance(c, bool):
            return c
        return norm(z3.simplify(c)) if _small(c) else c

    def must(self, st, c):
        """is c implied by the path condition?"""
        k = self.known(st, c)
        if k is not None:
            return k
        return self.solver.sat(st.pc + [Not(c)]) is False

    def add_uni(self, st, tag, fn):
        st.uni = st.uni + ((tag, fn),)
        for t in st.gr.get(tag, ()):
            self.assume(st, fn(st, t))

    def add_term(self, st, tag, t):
        if isinstance(t, int):
            t = z3.IntVal(t)
        if tag[0] == 'key' and z3.is_app(t) and t.num_args() == 1:
            r = t.arg(0)
            if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_SELECT and z3.is_app(r.arg(1)) and r.arg(1).decl().name().endswith('.byname'):
                return      # the name of the row of a name is that name
        g = st.gr.get(tag, ())
        n = t.get_id()
        if any(x.get_id() == n for x in g):
            return
        st.gr[tag] = g + (t,)
        for tg, fn in st.uni:
            if tg == tag:
                self.assume(st, fn(st, t))

    def link(self, st, a, b):
        """facts about elements named b are also wanted at the indices of a"""
        def f(s, j):
            self.add_term(s, b, j)
            return True
        self.add_uni(st, a, f)

    def event(self, st, k, **a):
        st.tr = st.tr + (Ev(k, st.held, self.here(), **a),)

    def here(self):
        return self.fstack[-1] if self.fstack else ('?', 0)

    def taint(self, st, why):
        st.taint = st.taint | {why}

    # ================= values <-> terms ===============================
    def unit(self, tid=None):
        return Agg(tid, 0, ())

    def from_term(self, t, tid):
        P = self.P
        tid = P.strip(tid)
        ty = P.types[tid]
        k = ty['k']
        if k == 'bool' or k in ('int', 'char'):
            return norm(t)
        if P.is_str(tid):
            return rope(t)
        if P.is_vec(tid) is not None:
            return SeqT(t, P.is_vec(tid))
        if k == 'adt' and ty['name'] in P.INTLIKE:
            return norm(t)
        return Dt(tid, t)

    def to_term(self, v, tid):
        P = self.P
        tid = P.strip(tid)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if z3.is_expr(v):
            return v
        if isinstance(v, Rope):
            return v.term()
        if isinstance(v, Dt):
            return v.t
        if isinstance(v, SeqT):
            return v.t
        if isinstance(v, Agg):
            s, cs = P.dt(tid)
            ctor = cs[v.var][0]
            fs = P.variants(tid)[v.var][2]
            return ctor(*[self.to_term(x, ft) for x, (_, ft) in zip(v.f, fs)])
        if isinstance(v, SeqC):
            s = P.sort(tid)
            t = z3.Const(f'{s.name()}.nil', s)
            es = P.sort(v.et)
            cons = z3.Function(f'{s.name()}.cons', es, s, s)
            for x in reversed(v.e):
                t = cons(self.to_term(x, v.et), t)
            return t
        if isinstance(v, SeqS):
            s = P.sort(tid)
            mk = z3.Function(f'{s.name()}.mk', z3.IntSort(), z3.ArraySort(z3.IntSort(), P.sort(v.et)), s)
            return mk(zint(v.n), v.arr)
        if isinstance(v, Nat):
            t = v.a.get('t')
            if t is not None:
                return t
            s = P.sort(tid)
            return z3.Const(fresh_name('op_' + v.k), s)
        if isinstance(v, MutRef):
            raise Unsupported('mutable reference stored in a datatype')
        raise Unsupported(f'to_term {v!r}')

    RANGE = {}

    def int_range(self, st, t, tid):
        ty = self.P.types[tid]
        if ty['k'] == 'int':
            w, s = ty['w'], ty['s']
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            self.assume(st, t >= lo, t <= hi)
        elif ty['k'] == 'char':
            self.assume(st, t >= 0, t <= 0x10FFFF)

    def fresh(self, st, tid, name):
        """an arbitrary value of type tid"""
        P = self.P
        ty = P.types[tid]
        if ty['k'] in ('ref', 'ptr') and ty['mut']:
            loc = ('heap', fresh_loc(name))
            st.store[loc] = self.fresh(st, ty['e'], name)
            return MutRef(loc)
        tid = P.strip(tid)
        ty = P.types[tid]
        k = ty['k']
        if k == 'bool':
            return z3.Bool(fresh_name(name))
        if k in ('int', 'char'):
            t = z3.Int(fresh_name(name))
            self.int_range(st, t, tid)
            return t
        if P.is_str(tid):
            if k == 'array' and ty.get('len'):
                pass
            return Rope([z3.Const(fresh_name(name), Str)])
        e = P.is_vec(tid)
        if e is not None:
            return self.fresh_seq(st, e, name)
        m = P.is_map(tid)
        if m:
            return self.fresh_map(st, m[0], m[1], name)
        if k == 'adt':
            n = ty['name']
            if n in P.INTLIKE:
                t = z3.Int(fresh_name(name))
                if 'Duration' in n:
                    self.assume(st, t >= 0, t <= self.models.DMAX)
                elif 'Instant' in n:
                    self.assume(st, t >= self.models.IMIN, t <= self.models.IMAX)
                else:
                    self.assume(st, t >= self.models.SMIN, t <= self.models.SMAX)
                return t
            if n.endswith('sync::Mutex'):
                return Nat('mutex', name=name, ty=ty['args'][0])
            if n.endswith('sync::Condvar'):
                return Nat('condvar', name=name)
            if n.endswith('VecDeque'):
                return Nat('deque', et=ty['args'][0], e=None)
            if ty['exp']:
                if not ty['enum'] and self.has_native(tid):
                    short = ty['name'].split('::')[-1]
                    vs = P.variants(tid)
                    return Agg(tid, 0, [self.fresh(st, ft, f'{short}.{fn}') for fn, ft in vs[0][2]])
                v = Dt(tid, z3.Const(fresh_name(name), P.sort(tid)))
                self.dt_ranges(st, v)
                return v
        if k == 'closure':
            return Agg(tid, 0, [self.fresh(st, ft, f'{name}.up{n}') for n, ft in enumerate(ty['f'])])
        if k == 'fndef':
            return FnVal(ty['fn'])
        if k == 'tuple':
            vs = P.variants(tid)[0][2]
            return Agg(tid, 0, [self.fresh(st, ft, f'{name}.{fn}') for fn, ft in vs])
        return Dt(tid, z3.Const(fresh_name(name), P.sort(tid)))

    def has_native(self, tid, seen=()):
        """does the type (transitively) contain something without a z3 sort?"""
        P = self.P
        tid = P.strip(tid)
        if tid in seen:
            return False
        ty = P.types[tid]
        if ty['k'] == 'adt':
            n = ty['name']
            if P.is_map(tid) or n.endswith('sync::Mutex') or n.endswith('Condvar') or n.endswith('VecDeque') or n.endswith('MutexGuard'):
                return True
            e = P.is_vec(tid)
            if e is not None:
                # vectors of tuples of program data are kept as native sequences at struct level
                return True if P.types[P.strip(e)]['k'] == 'tuple' and any(
                    P.types[P.strip(x)]['k'] == 'adt' and P.types[P.strip(x)]['exp'] for x in P.types[P.strip(e)]['f']) else False
            if ty['exp']:
                return any(self.has_native(ft, seen + (tid,)) for _, _, fs in P.variants(tid) for _, ft in fs)
        if ty['k'] in ('tuple', 'closure'):
            return any(self.has_native(ft, seen + (tid,)) for ft in ty['f'])
        return False

    def dt_ranges(self, st, v, depth=0):
        """machine ranges of integers / instants directly inside a datatype constant"""
        P = self.P
        if depth > 3:
            return
        s, cs = P.dt(v.tid)
        vs = P.variants(v.tid)
        for n, (vn, _, fs) in enumerate(vs):
            for m, (fn, ft) in enumerate(fs):
                x = cs[n][2][m](v.t)
                self.range_of_term(st, x, ft, depth, cs[n][1](v.t) if len(vs) > 1 else True)

    def range_of_term(self, st, x, ft, depth=0, guard=True):
        if depth == 0 and guard is True and z3.is_expr(x):
            k = (x.get_id(), ft)
            c = self.rcache.get(k)
            if c is None:
                tmp = St()
                self.range_of_term_(tmp, x, ft)
                c = self.rcache[k] = (x, tmp.pc)
            self.assume(st, *c[1])
            return
        self.range_of_term_(st, x, ft, depth, guard)

    def range_of_term_(self, st, x, ft, depth=0, guard=True):
        P = self.P
        ft = P.strip(ft)
        ty = P.types[ft]
        M = self.models
        if ty['k'] == 'int':
            w, sg = ty['w'], ty['s']
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            self.assume(st, Implies(guard, z3.And(x >= lo, x <= hi)))
        elif ty['k'] == 'adt' and ty['name'] in P.INTLIKE:
            n = ty['name']
            lo, hi = (0, M.DMAX) if 'Duration' in n else (M.IMIN, M.IMAX) if 'Instant' in n else (M.SMIN, M.SMAX)
            self.assume(st, Implies(guard, z3.And(x >= lo, x <= hi)))
        elif (ty['k'] == 'adt' and ty['exp'] or ty['k'] == 'tuple') and not P.is_str(ft):
            s, cs = P.dt(ft)
            vs = P.variants(ft)
            if depth > 3:
                return
            for n, (vn, _, fs) in enumerate(vs):
                for m, (fn, f2) in enumerate(fs):
                    self.range_of_term(st, cs[n][2][m](x), f2, depth + 1,
                                       And(guard, cs[n][1](x) if len(vs) > 1 else True))

    def fresh_seq(self, st, e, name):
        n = z3.Int(fresh_name(name + '.len'))
        self.assume(st, n >= 0, n <= (1 << 60))
        arr = z3.Const(fresh_name(name + '.arr'), z3.ArraySort(z3.IntSort(), self.P.sort(e)))
        return SeqS(n, arr, e, tag=fresh_name('tag'))

    def fresh_map(self, st, kt, vt, name):
        P = self.P
        dom = z3.Const(fresh_name(name + '.dom'), z3.ArraySort(P.sort(kt), z3.BoolSort()))
        mp = z3.Const(fresh_name(name + '.map'), z3.ArraySort(P.sort(kt), P.sort(vt)))
        return MapV(dom, mp, kt, vt)

    # ---- structured access --------------------------------------------
    def field(self, v, i, var=0, ft=None):
        if isinstance(v, Agg):
            if v.tid is not None and len(self.P.variants(v.tid)) > 1 and v.var != var:
                raise Unsupported('field of wrong variant')
            return v.f[i]
        if isinstance(v, IteV):
            for x, y in ((v.a, v.b), (v.b, v.a)):
                if isinstance(y, Agg) and y.var != var:
                    return self.field(x, i, var, ft)
        if isinstance(v, Dt):
            ty = self.P.types[self.P.strip(v.tid)]
            if ty['k'] == 'adt' and not ty['exp']:
                if ft is None:
                    raise Unsupported('opaque field')
                fn = z3.Function(f'{v.t.sort().name()}.{i}', v.t.sort(), self.P.sort(ft))
                return self.from_term(fn(v.t), ft)
            s, cs = self.P.dt(v.tid)
            fs = self.P.variants(self.P.strip(v.tid))[var][2]
            t = v.t
            if z3.is_app(t) and t.decl().eq(cs[var][0]):
                return self.from_term(t.arg(i), fs[i][1])
            return self.from_term(cs[var][2][i](t), fs[i][1])
        if isinstance(v, Nat):
            h = getattr(self.models, 'fld_' + v.k, None)
            if h:
                return h(v, i)
            raise Unsupported(f'field {i} of {v.k}')
        raise Unsupported(f'field {i} of {v!r}')

    def explode(self, v, var=0):
        """Dt -> Agg (assuming variant var)"""
        if isinstance(v, Agg):
            return v
        if isinstance(v, Dt):
            n = len(self.P.variants(self.P.strip(v.tid))[var][2])
            return Agg(self.P.strip(v.tid), var, [self.field(v, i, var) for i in range(n)])
        raise Unsupported(f'explode {v!r}')

    def is_variant(self, v, var):
        """condition: enum value v is in variant index var"""
        if isinstance(v, Agg):
            return v.var == var
        if isinstance(v, IteV):
            return Or(And(v.c, self.is_variant(v.a, var)), And(Not(v.c), self.is_variant(v.b, var)))
        if isinstance(v, Dt):
            s, cs = self.P.dt(v.tid)
            if z3.is_app(v.t):
                for n, c in enumerate(cs):
                    if v.t.decl().eq(c[0]):
                        return n == var
            if len(cs) == 1:
                return var == 0
            return cs[var][1](v.t)
        if isinstance(v, Rope):
            # Cow<str>: not distinguished
            raise Unsupported('discriminant of a string')
        raise Unsupported(f'is_variant {v!r}')

    def disc_term(self, d):
        vs = self.P.variants(self.P.strip(d.tid))
        if isinstance(d.v, Agg):
            return vs[d.v.var][1]
        r = z3.IntVal(vs[-1][1])
        for n in range(len(vs) - 2, -1, -1):
            r = z3.If(zbool(self.is_variant(d.v, n)), z3.IntVal(vs[n][1]), r)
        return r

    def seq_len(self, v):
        if isinstance(v, SeqC):
            return len(v.e)
        if isinstance(v, SeqS):
            return v.n
        if isinstance(v, SeqT):
            f = z3.Function(f'{v.t.sort().name()}.len', v.t.sort(), z3.IntSort())
            return f(v.t)
        if isinstance(v, Rope):
            return self.models.strlen(v)
        raise Unsupported(f'len of {v!r}')

    def seq_get(self, v, i):
        if isinstance(v, SeqC):
            if is_int(i):
                return v.e[i]
            if not v.e:
                raise Unsupported('index into empty sequence')
            ts = [self.to_term(x, v.et) for x in v.e]
            r = ts[-1]
            for n in range(len(ts) - 2, -1, -1):
                r = z3.If(i == n, ts[n], r)
            return self.from_term(r, v.et)
        if isinstance(v, SeqS):
            return self.from_term(z3.Select(v.arr, zint(i)), v.et)
        if isinstance(v, SeqT):
            f = z3.Function(f'{v.t.sort().name()}.arr', v.t.sort(), z3.ArraySort(z3.IntSort(), self.P.sort(v.et)))
            return self.from_term(z3.Select(f(v.t), zint(i)), v.et)
        if isinstance(v, Rope):
            return NTH(v.term(), zint(i))
        raise Unsupported(f'index of {v!r}')

    def seq_set(self, v, i, x):
        if isinstance(v, SeqC):
            if is_int(i):
                return SeqC(v.e[:i] + (x,) + v.e[i + 1:], v.et)
            out = []
            for n, e in enumerate(v.e):
                out.append(self.from_term(z3.If(i == n, self.to_term(x, v.et), self.to_term(e, v.et)), v.et))
            return SeqC(out, v.et)
        if isinstance(v, SeqS):
            return SeqS(v.n, z3.Store(v.arr, zint(i), self.to_term(x, v.et)), v.et, v.tag)
        raise Unsupported(f'store into {v!r}')

    # ---- locations ------------------------------------------------------
    def load(self, st, loc):
        try:
            return st.store[loc]
        except KeyError:
            raise Unsupported(f'uninitialised location {loc}')

    def get_path(self, st, v, path):
        for p in path:
            if isinstance(v, MutRef):
                v = self.deref(st, v)
            if p[0] == 'f':
                v = self.field(v, p[1], p[2], p[3])
            else:
                v = self.seq_get(v, p[1])
        return v

    def set_path(self, st, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == 'f':
            if v is None or v is MOVED:
                if len(p) > 4 and p[4] is not None and isinstance(p[4], int):
                    n = len(self.P.variants(self.P.strip(p[4]))[p[2]][2])
                    a = Agg(self.P.strip(p[4]), p[2], [None] * n)
                else:
                    raise Unsupported('assignment to field of uninitialised value')
            else:
                if isinstance(v, Dt):
                    ty = self.P.types[self.P.strip(v.tid)]
                    if ty['k'] == 'adt' and not ty['exp']:
                        return Dt(v.tid, z3.Const(fresh_name('upd'), v.t.sort()))   # opaque library struct
                a = self.explode(v, p[2])
            i = p[1]
            y = self.set_path(st, a.f[i], path[1:], x)
            return Agg(a.tid, a.var, a.f[:i] + (y,) + a.f[i + 1:])
        return self.seq_set(v, p[1], self.set_path(st, self.seq_get(v, p[1]), path[1:], x))

    def deref(self, st, r):
        while isinstance(r, MutRef):
            r = self.get_path(st, self.load(st, r.loc), r.path)
        return r

    def store_to(self, st, loc, path, x):
        if loc[0] == 'mutex' and not path and ('ghost', 'lost') in st.store:
            old = st.store.get(loc)
            if x is False or z3.is_expr(x) and z3.is_bool(x):
                g = st.store[('ghost', 'lost')].v
                if z3.is_expr(old) and z3.is_bool(old) or old is True:
                    st.store[('ghost', 'lost')] = Nat('lost', v=Or(g, And(old, Not(x))))
        if path:
            st.store[loc] = self.set_path(st, st.store.get(loc), path, x)
        else:
            st.store[loc] = x

    def assign_ref(self, st, r, x):
        cur = self.get_path(st, self.load(st, r.loc), r.path) if True else None
        if isinstance(cur, MutRef):
            return self.assign_ref(st, cur, x)
        self.store_to(st, r.loc, r.path, x)

    # ---- places ----------------------------------------------------------
    TRANSPARENT = ('Box', 'Arc', 'Unique', 'NonNull', 'BoxRaw', 'MaybeUninit', 'ManuallyDrop', 'MaybeDangling', 'Pin')

    def transparent(self, tid):
        ty = self.P.types[tid]
        if ty['k'] != 'adt':
            return False
        n = ty['name'].split('::')[-1]
        return ty['box'] or n in self.TRANSPARENT

    def walk(self, st, fr, body, place, want_loc=False):
        """-> (value, loc, path, tid); loc None when reached through a shared snapshot"""
        l, projs = place
        loc, path = (fr, l), ()
        tid = body['locals'][l]
        v = st.store.get(loc, MOVED)
        var = 0
        P = self.P
        for p in projs:
            if p == '*':
                if isinstance(v, MutRef):
                    loc, path = v.loc, v.path
                    v = self.get_path(st, st.store.get(loc, MOVED), path) if path else st.store.get(loc, MOVED)
                ty = P.types[tid]
                if ty['k'] in ('ref', 'ptr'):
                    tid = ty['e']
                elif ty['k'] == 'adt' and ty['args']:
                    tid = ty['args'][0]
                var = 0
                continue
            if isinstance(v, MutRef):       # auto-deref through Box<..&mut..>-like wrappers
                if not self.transparent(tid):
                    loc, path = v.loc, v.path
                    v = self.get_path(st, self.load(st, loc), path)
            k = p[0]
            if k == 'd':
                var = p[1]
                continue
            if k == 'f':
                if self.transparent(tid):
                    tid = p[2]
                    continue
                pe = ('f', p[1], var, p[2], tid)
                path = path + (pe,)
                if v is MOVED or v is None:
                    v = None
                else:
                    v = self.field(v, p[1], var, p[2])
                tid = p[2]
                var = 0
                continue
            if k == 'i':
                idx = self.load(st, (fr, p[1]))
            elif k == 'c':
                if p[3]:
                    n = self.seq_len(v)
                    idx = n - p[1]
                    idx = norm(idx) if not is_int(idx) else idx
                else:
                    idx = p[1]
            elif k == 's':
                if not isinstance(v, SeqC):
                    raise Unsupported('subslice of symbolic sequence')
                to = len(v.e) - p[2] if p[3] else p[2]
                v = SeqC(v.e[p[1]:to], v.et)
                loc = None
                continue
            elif k == 'o':
                tid = p[1]
                continue
            else:
                raise Unsupported(f'projection {p}')
            path = path + (('i', idx),)
            et = P.types[P.strip(tid)]
            v = self.seq_get(v, idx)
            if et['k'] in ('slice', 'array'):
                tid = et['e']
            elif P.is_vec(tid) is not None:
                tid = P.is_vec(tid)
            var = 0
        return v, loc, path, tid

    def place_ty(self, body, place):
        l, projs = place
        tid = body['locals'][l]
        for p in projs:
            if p == '*':
                ty = self.P.types[tid]
                tid = ty['e'] if ty['k'] in ('ref', 'ptr') else ty['args'][0] if ty['k'] == 'adt' else tid
            elif p[0] == 'f':
                tid = p[2]
            elif p[0] in 'ic':
                ty = self.P.types[self.P.strip(tid)]
                tid = ty['e'] if 'e' in ty else self.P.is_vec(tid)
            elif p[0] == 'o':
                tid = p[1]
        return tid

    def op_ty(self, body, o):
        return self.place_ty(body, o[1]) if o[0] in ('cp', 'mv') else o[1] if o[0] == 'k' else None

    def operand(self, st, fr, body, o):
        k = o[0]
        if k in ('cp', 'mv'):
            v, loc, path, tid = self.walk(st, fr, body, o[1])
            if v is MOVED or v is None:
                raise Unsupported(f'read of uninitialised place {o[1]} in {self.here()}')
            if k == 'mv' and not o[1][1]:
                st.store[(fr, o[1][0])] = MOVED
            return v
        if k == 'k':
            return self.const(st, o[2], o[1])
        if k == 'rc':
            return False     # runtime checks (ub_checks etc.)
        raise Unsupported(f'operand {o}')

    def const(self, st, c, tid):
        k = c['k']
        P = self.P
        if k == 'int':
            return int(c['v'])
        if k == 'bool':
            return bool(int(c['v']))
        if k == 'str':
            return Rope([c['v']])
        if k == 'bytes':
            return Rope([bytes(c['v']).decode('latin-1')])
        if k == 'fn':
            return FnVal(c['fn'])
        if k == 'ref':
            return self.const(st, c['v'], P.types[tid].get('e', tid) if P.types[tid]['k'] in ('ref', 'ptr') else tid)
        if k == 'zst':
            ty = P.types[P.strip(tid)]
            if ty['k'] in ('fndef',):
                return FnVal(ty['fn'])
            if ty['k'] == 'closure':
                return Agg(P.strip(tid), 0, ())
            if ty['k'] == 'tuple':
                return Agg(P.strip(tid), 0, ())
            if ty['k'] == 'adt' and ty['exp'] and not ty['enum']:
                return Agg(P.strip(tid), 0, [self.const(st, {'k': 'zst'}, ft) for _, ft in P.variants(P.strip(tid))[0][2]])
            if ty['k'] == 'array' and P.is_bytes(ty['e']):
                return Rope([])
            if P.is_vec(tid) is not None:
                return SeqC([], P.is_vec(tid))
            return Dt(P.strip(tid), z3.Const(f'zst:{P.tname(tid)[:60]}', P.sort(tid)))
        if k == 'agg':
            t2 = P.strip(tid)
            ty = P.types[t2]
            if ty['k'] == 'adt' and ty['name'] in P.INTLIKE:
                fs = c['f']
                # Duration { secs, nanos }
                def ints(x):
                    if x['k'] == 'int':
                        return [int(x['v'])]
                    if x['k'] == 'agg':
                        return sum([ints(y) for y in x['f']], [])
                    return []
                xs = ints(c)
                return xs[0] * 10**9 + (xs[1] if len(xs) > 1 else 0)
            if ty['k'] == 'adt' and ty['exp']:
                fs = P.variants(t2)[c['var']][2]
                return Agg(t2, c['var'], [self.const(st, x, ft) for x, (_, ft) in zip(c['f'], fs)])
            if ty['k'] == 'tuple':
                return Agg(t2, 0, [self.const(st, x, ft) for x, ft in zip(c['f'], ty['f'])])
            return Dt(t2, z3.Const(f'const:{P.tname(tid)[:60]}:{hash(repr(c))}', P.sort(t2)))
        if k == 'arr':
            e = P.is_vec(tid)
            xs = c.get('f') or c.get('v') or c.get('e') or []
            return SeqC([self.const(st, x, e) for x in xs], e)
        if k == 'static':
            return Nat('static', name=c.get('n', '?'))
        if k == 'unk':
            t2 = P.strip(tid)
            return Dt(t2, z3.Const(f'const:{P.tname(tid)[:60]}', P.sort(t2)))
        raise Unsupported(f'const {c}')

    # ---- rvalues ---------------------------------------------------------
    def rvalue(self, st, fr, body, rv, dty):
        """-> value (no forks; overflow flags are symbolic)"""
        k = rv[0]
        P = self.P
        if k == 'use':
            return self.operand(st, fr, body, rv[1])
        if k == 'ref':
            v, loc, path, tid = self.walk(st, fr, body, rv[1])
            m = rv[2]
            if m == 0:
                if v is MOVED or v is None:
                    raise Unsupported(f'shared ref to uninitialised {rv[1]}')
                if isinstance(v, MutRef) and False:
                    return v
                return v
            if isinstance(v, MutRef) and not path and loc == (fr, rv[1][0]) and rv[1][1]:
                return v
            if loc is None:
                raise Unsupported('mutable borrow through a shared snapshot')
            return MutRef(loc, path)
        if k in ('bin', 'chk'):
            a = self.operand(st, fr, body, rv[2])
            b = self.operand(st, fr, body, rv[3])
            at = self.op_ty(body, rv[2])
            r = self.binop(st, rv[1], a, b, at, k == 'chk')
            if k == 'chk':
                return Agg(P.strip(dty), 0, r)
            return r
        if k == 'un':
            a = self.operand(st, fr, body, rv[2])
            if rv[1] == 'Not':
                if isinstance(a, bool) or z3.is_expr(a) and z3.is_bool(a):
                    return Not(a)
                raise Unsupported('bitwise not')
            if rv[1] == 'Neg':
                return -a
            if rv[1] == 'PtrMetadata':
                return self.seq_len(self.deref(st, a))
            raise Unsupported(f'unop {rv[1]}')
        if k == 'disc':
            v, loc, path, tid = self.walk(st, fr, body, rv[1])
            if isinstance(v, MutRef):
                v = self.deref(st, v)
            return Disc(v, P.strip(tid))
        if k == 'len':
            v, loc, path, tid = self.walk(st, fr, body, rv[1])
            return self.seq_len(self.deref(st, v))
        if k == 'cast':
            if rv[1] == 'BoxDerefTransmute':
                # raw pointer to a box's contents: keep the location so that writes reach it
                v, loc, path, tid = self.walk(st, fr, body, rv[2][1])
                if v is not MOVED and isinstance(v, MutRef):
                    return v
                return MutRef(loc, path)
            a = self.operand(st, fr, body, rv[2])
            ft, tt = self.op_ty(body, rv[2]), rv[3]
            if isinstance(a, Disc):
                a = self.disc_term(a)
            fk, tk = P.types[ft]['k'], P.types[tt]['k']
            if tk == 'int' and fk in ('int', 'char', 'bool'):
                if fk == 'bool':
                    return int(a) if isinstance(a, bool) else z3.If(a, z3.IntVal(1), z3.IntVal(0))
                w, s = P.types[tt]['w'], P.types[tt]['s']
                if is_int(a):
                    x = a % (1 << w)
                    return x - (1 << w) if s and x >= (1 << (w - 1)) else x
                fw = P.types[ft].get('w', 32)
                if w > fw or (w == fw and P.types[ft].get('s', 0) == s) or (fk == 'char' and w >= 32):
                    return a
                return a % (1 << w) if not s else a
            if tk == 'int' and fk in ('ptr', 'ref'):
                return 0          # address: only used by alignment / null checks
            return a
        if k == 'rep':
            a = self.operand(st, fr, body, rv[1])
            n = rv[2]
            if P.is_str(dty):
                return Nat('bytebuf', n=n, t=None, loc=None) if False else Rope(['\0' * int(n)])
            e = P.is_vec(dty)
            return SeqC([a] * int(n), e)
        if k == 'agg':
            what, tid, var, ops = rv[1], rv[2], rv[3], rv[4]
            vs = [self.operand(st, fr, body, o) for o in ops]
            if what == 'array':
                if P.is_str(dty):
                    return Rope([''.join(chr(x) for x in vs)]) if all(is_int(x) for x in vs) else Rope([z3.Const(fresh_name('bytes'), Str)])
                return SeqC(vs, P.is_vec(dty))
            if what == 'tuple':
                return Agg(P.strip(dty), 0, vs)
            if what == 'rawptr':
                return vs[0]
            if what == 'closure':
                return Agg(P.strip(tid if isinstance(tid, int) else dty), 0, vs)
            t2 = tid if isinstance(tid, int) else dty
            if self.transparent(t2) and len(vs) >= 1:
                return vs[0]
            return Agg(P.strip(t2), var or 0, vs)
        raise Unsupported(f'rvalue {k}')

    def binop(self, st, op, a, b, tid, chk):
        P = self.P
        if isinstance(a, Disc):
            a = self.disc_term(a)
        if isinstance(b, Disc):
            b = self.disc_term(b)
        isb = isinstance(a, bool) or (z3.is_expr(a) and z3.is_bool(a))
        if op in ('Eq', 'Ne'):
            if isb:
                r = (a == b) if isinstance(a, bool) and isinstance(b, bool) else z3.simplify(zbool(a) == zbool(b))
            elif is_int(a) and is_int(b):
                r = a == b
            elif is_int(a) or z3.is_expr(a):
                r = zint(a) == zint(b)
                if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
                    r = True
            else:
                raise Unsupported(f'compare {a!r} {b!r}')
            r = norm(r)
            return Not(r) if op == 'Ne' else r
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            r = {'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
            return norm(r)
        if isb:
            if op == 'BitAnd':
                return And(a, b)
            if op == 'BitOr':
                return Or(a, b)
            if op == 'BitXor':
                return Not(norm(z3.simplify(zbool(a) == zbool(b))))
        ty = P.types[tid]
        w, s = ty.get('w', 64), ty.get('s', 0)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[base]()
            if chk or 'WithOverflow' in op:
                if is_int(r):
                    return [r, not (lo <= r <= hi)]
                if base == 'Add' and w >= 64 and (is_int(b) and b == 1 or is_int(a) and a == 1):
                    # machine arithmetic: 64-bit and wider counters incremented by one do not wrap
                    self.assume(st, r <= hi)
                    return [r, False]
                if base == 'Add' and not s and w >= 64 and self.must(st, r <= hi):
                    return [r, False]
                return [r, Or(r < lo, r > hi)]
            if is_int(r):
                return r if lo <= r <= hi else r % (1 << w)
            return r
        if base in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr') and is_int(a) and is_int(b):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b, 'Shl': (a << b) % (1 << w), 'Shr': a >> b}[base]
        if base in ('Div', 'Rem') :
            if is_int(a) and is_int(b) and b != 0:
                return a // b if base == 'Div' else a % b
            if not s:
                return zint(a) / zint(b) if base == 'Div' else zint(a) % zint(b)
        if base == 'Cmp':
            # three-way comparison
            raise Unsupported('Cmp')
        raise Unsupported(f'binop {op}')

    # ================= execution ======================================
    def run(self, fid, args, st):
        self.npaths = 0
        return self.exec_fn(fid, args, st)

    def call_value(self, f, args, st, dty=None):
        """call a closure / fn item value with a list of arguments"""
        sv = (getattr(self, 'cur_dty', None), getattr(self, 'cur_atys', None))
        self.cur_dty, self.cur_atys = dty, []
        try:
            return self._call_value(f, args, st)
        finally:
            self.cur_dty, self.cur_atys = sv

    def _call_value(self, f, args, st):
        if isinstance(f, FnVal):
            return self.exec_fn(f.fid, list(args), st)
        if isinstance(f, MutRef):
            g = self.deref(st, f)
            if isinstance(g, FnVal):
                return self.exec_fn(g.fid, list(args), st)
            fid = self.P.types[g.tid]['fn']
            return self.exec_fn(fid, [f] + list(args), st)
        if isinstance(f, Agg):
            ty = self.P.types[f.tid]
            if ty['k'] != 'closure':
                raise Unsupported('call of non-closure')
            fid = ty['fn']
            b = self.P.fns[fid]['body']
            self_ty = self.P.types[b['locals'][1]]
            if self_ty['k'] == 'ref' and self_ty['mut']:
                loc = ('heap', fresh_loc('clo'))
                st.store[loc] = f
                return self.exec_fn(fid, [MutRef(loc)] + list(args), st)
            return self.exec_fn(fid, [f] + list(args), st)
        raise Unsupported(f'call of {f!r}')

    def exec_fn(self, fid, args, st):
        f = self.P.fns[fid]
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        if self.inpipe and fid in self.opaque and self.inpipe[0] is not None:
            return self.opaque_call(fid, f, args, st)
        c = self.contracts.get(fid)
        if c is not None:
            r = c(self, fid, args, st)
            if r is not None:
                self.contract_used[fid] = self.contract_used.get(fid, 0) + 1
                return r
        body = f['body']
        m = self.models.override(f, args)
        if m is not None:
            return m(st, f, args)
        if not body:
            return self.models.call(st, fid, f, args)
        if len(self.fstack) > 60:
            raise Unsupported('recursion too deep')
        self.entered.add(fid)
        fr = next(self.frames)
        st.store = {k: v for k, v in st.store.items() if v is not MOVED}
        base = (st.tr, st.held, st.uni, st.taint, len(st.pc), st.gr, st.store.copy(), fr, len(self.fstack))
        argc = body['argc']
        if len(args) != argc:
            # closure called with a tuple of arguments (call_once shims) or spread
            if len(args) == 2 and isinstance(args[1], Agg) and len(args[1].f) == argc - 1:
                args = [args[0]] + list(args[1].f)
            else:
                raise Unsupported(f'arity {len(args)} vs {argc} for {f["name"]}')
        elif argc == 2 and body.get('spread') == 2:
            pass
        for n, a in enumerate(args):
            st.store[(fr, n + 1)] = a
        depth = len(self.fstack)
        res = self.exec_from(fid, fr, st, 0, {}, None)
        if depth and self.merge and len(res) > 2 and f['name'].startswith('pizauth::') and not self.nosolve:
            res = self.merge_results(f, base, res)
        return res

    # Inside iterator pipelines a side-effect free function of (guard, version) is not expanded:
    # its result is an unknown function of the locked state, the version and the evaluation,
    # restricted by its contract.  Its precondition (the version is current) is an obligation.
    opaque = {}
    inpipe = ()
    pipeclks = []       # pipelines whose functions may read the clock

    def opaque_call(self, fid, f, args, st):
        ts = []
        idt = None
        S = None
        for a in args:
            v = self.deref(st, a) if isinstance(a, MutRef) else a
            if isinstance(v, Agg) and any(isinstance(x, Nat) and x.k == 'guard' for x in v.f):
                g = [x for x in v.f if isinstance(x, Nat)][0]
                S = st.store[('mutex', g.name)]
            elif isinstance(v, Dt) and v.tid == self.L.idty:
                idt = self.L.id_of(v.t)
                ts.append(idt)
            elif isinstance(v, (Rope, Dt, SeqT)):
                ts.append(v.term() if isinstance(v, Rope) else v.t)
            elif is_int(v) or z3.is_expr(v):
                ts.append(zint(v))
        cnt, mp, d = self.L.parts(S)
        ts += [mp.map, d.arr, zint(d.n)]
        rt = f['body']['locals'][0]
        rs = self.P.sort(rt)
        ts.insert(0, z3.IntVal(self.inpipe[0]))
        r = z3.Function('opaque:' + f['name'], *[t.sort() for t in ts], rs)(*ts)
        if idt is not None and not self.nosolve:
            ok, ix = self.L.has_id(S, idt)
            self.obl.append((f'{f["name"]}: called with a current version', st.copy(), ok, idt, S))
        c = self.opaque[fid]
        if c is not None:
            fact = c(self, st, S, idt, r)
            if fact is not None:
                self.assume(st, fact)
        v = self.from_term(r, rt)
        if isinstance(v, Dt):
            self.range_of_term(st, r, rt)
        return [(st, Ret(v))]

    merge = True
    WEAK = 24
    NOISE = ('loop', 'loopexit', 'now', 'readline', 'read', 'unknown')

    def shape(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Agg) and v.tid is not None:
            return ('agg', v.tid, v.var) + tuple(self.shape(x) for x in v.f)
        if isinstance(v, Agg):
            return ('agg', len(v.f)) + tuple(self.shape(x) for x in v.f)
        if isinstance(v, Nat) and v.k == 'err':
            return ('err',) + tuple((k, self.shape(x)) for k, x in sorted(v.a.items()) if k != 'src')
        if isinstance(v, (Rope, Dt, SeqT)) or is_int(v):
            return type(v).__name__ if not is_int(v) else 'int'
        if z3.is_expr(v):
            return 'int' if v.sort() == z3.IntSort() else str(v.sort())
        return ('id', id(v))

    def merge_val(self, conds, vs):
        a = vs[0]
        if not any(self.changed(a, x) for x in vs[1:]):
            return a
        if isinstance(a, Agg):
            return Agg(a.tid, a.var, [self.merge_val(conds, [x.f[n] for x in vs]) for n in range(len(a.f))])
        if isinstance(a, Nat):
            return Nat('err', **{k: self.merge_val(conds, [x.a[k] for x in vs]) for k in a.a if k != 'src'})

        def tm(x):
            return x.term() if isinstance(x, Rope) else x.t if isinstance(x, (Dt, SeqT)) else zint(x) if is_int(x) else x
        t = tm(vs[-1])
        if conds is None:
            t = z3.Const(fresh_name('merged'), t.sort())
        else:
            for c, x in list(zip(conds, vs))[-2::-1]:
                t = z3.If(zbool(c), tm(x), t)
        if isinstance(a, Rope):
            return Rope([t])
        if isinstance(a, Dt):
            return Dt(a.tid, t)
        if isinstance(a, SeqT):
            return SeqT(t, a.et)
        return t

    def merge_results(self, f, base, res):
        """join paths that differ only in local decisions: no events, no new facts about all
        elements, results of the same shape"""
        tr, held, uni, taint, n0, gr0, store0, fr, _ = base
        groups, out = {}, []
        tags = {t for t, _ in uni}
        for s, r in res:
            if isinstance(r, Ret) and s.held == held and s.uni[:len(uni)] == uni \
                    and all(t not in tags for t, _ in s.uni[len(uni):]) and all(ev.k in self.NOISE for ev in s.tr[len(tr):]):
                ch = [k for k in s.store if k in store0 and s.store[k] is not store0[k]]
                if not any(k not in s.store for k in store0):
                    key = (self.shape(r.v), tuple((k, self.shape(s.store[k])) for k in sorted(ch, key=repr)))
                    groups.setdefault(repr(key), []).append((s, r, ch))
                    continue
            out.append((s, r))
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0][:2])
                continue
            common = set.intersection(*[{x.get_id() for x in s.pc[n0:]} for s, _, _ in g])
            both = [x for x in g[0][0].pc[n0:] if x.get_id() in common]
            for x, _, _ in g:
                x.uni = uni
            conds = [And(*[x for x in s.pc[n0:] if x.get_id() not in common]) for s, _, _ in g]
            weak = len(g) > self.WEAK
            s = max(g, key=lambda x: len(x[0].tr))[0].copy()
            for x, _, _ in g:
                s.taint = s.taint | x.taint
            s.pc = s.pc[:n0]
            s.pcs = {x.get_id() for x in s.pc}
            self.assume(s, *both)
            if weak:
                s.gr['weak'] = s.gr.get('weak', ()) + (f['name'],)
            else:
                self.assume(s, zbool(Or(*conds)))
            c2 = None if weak else conds
            v = self.merge_val(c2, [r.v for _, r, _ in g])
            for k in g[0][2]:
                s.store[k] = self.merge_val(c2, [x.store[k] for x, _, _ in g])
            s.memo = {k: x for k, x in s.memo.items() if all(k in y.memo and y.memo[k] is x for y, _, _ in g)}
            gr = s.gr
            s.gr = dict(gr0)
            if 'weak' in gr:
                s.gr['weak'] = gr['weak']
            for x, _, _ in g:
                for tag, ts in x.gr.items():
                    if tag == 'weak':
                        continue
                    if isinstance(tag, tuple) and tag[0] in ('ix', 'key'):
                        for t in ts:
                            self.add_term(s, tag, t)
                    elif tag not in s.gr:
                        s.gr[tag] = ts
            out.append((s, Ret(v)))
        return out

    def exec_from(self, fid, fr, st, start, abstracted, only_loop):
        """run from block `start`.  With only_loop=(head, blocks): stop at back edges / exits and
        return [(st, ('back'|('exit', bb)|outcome))]."""
        P = self.P
        f = P.fns[fid]
        body = f['body']
        blocks = body['blocks']
        loops = P.loops(fid)
        work = [(st, start, {}, {})]
        out = []
        first = True

        def purge(h, snap):
            work[:] = [w for w in work if w[3].get(h) is not snap]
            out[:] = [o for o in out if o[2].get(h) is not snap]

        def cut_loop(st, h, visits, heads):
            snap = heads[h]
            purge(h, snap)
            for s2, r in self.abstract_loop(fid, fr, snap.copy(), h, loops[h]):
                hs = {k: v for k, v in heads.items() if k != h}
                if isinstance(r, tuple) and r[0] == 'exit':
                    work.append((s2, r[1], {k: v for k, v in visits.items() if k != h}, hs))
                else:
                    out.append((s2, r, hs))
        while work:
            st, bb, visits, heads = work.pop()
            if only_loop and not first:
                if bb == only_loop[0]:
                    out.append((st, 'back', heads))
                    continue
                if bb not in only_loop[1]:
                    out.append((st, ('exit', bb), heads))
                    continue
            if bb in loops and not (only_loop and first):
                L = loops[bb]
                n = visits.get(bb, 0)
                mode = self.loop_mode(fid, fr, st, bb, L, n)
                if mode == 'abstract':
                    for s2, r in self.abstract_loop(fid, fr, st, bb, L):
                        if isinstance(r, tuple) and r[0] == 'exit':
                            work.append((s2, r[1], {k: v for k, v in visits.items() if k != bb}, heads))
                        else:
                            out.append((s2, r, heads))
                    first = False
                    continue
                if mode == 'watch' and n and bb in heads and len(st.pc) > len(heads[bb].pc) + 0 and self.decided(st, heads[bb]):
                    cut_loop(st, bb, visits, heads)
                    first = False
                    continue
                visits = dict(visits)
                visits[bb] = n + 1
                for h, L2 in loops.items():
                    if h != bb and h in L and h in visits:
                        del visits[h]
                if mode == 'watch' and bb not in heads:
                    heads = dict(heads)
                    heads[bb] = st.copy()
            first = False
            self.fstack.append((f['name'], blocks[bb]['l']))
            try:
                res = self.exec_block(fid, fr, st, body, bb)
            finally:
                self.fstack.pop()
            # undecided loop exit in a watched loop -> cut the loop instead of unrolling
            cut = None
            if len(res) > 1 and heads:
                for h, snap in heads.items():
                    L = loops[h]
                    if bb in L:
                        t = [r for _, r in res if isinstance(r, int)]
                        if any(x not in L for x in t) and any(x in L for x in t) and blocks[bb]['t'][0] == 'sw':
                            cut = h
                            break
            if cut is not None:
                cut_loop(st, cut, visits, heads)
                continue
            for s2, r in res:
                if isinstance(r, int):
                    work.append((s2, r, visits, heads))
                else:
                    if isinstance(r, Ret):
                        for k in [k for k in s2.store if k[0] == fr]:
                            del s2.store[k]
                    out.append((s2, r, heads))
            self.npaths += max(0, len(res) - 1)
            if self.npaths > MAXPATHS:
                raise Unsupported(f'more than {MAXPATHS} paths')
        return [(s, r) for s, r, _ in out]

    # ---- loops --------------------------------------------------------
    def decided(self, st, snap):
        """did the loop body take decisions (or have effects) since the loop was entered?"""
        return len(st.tr) > len(snap.tr) or any(not z3.is_implies(f) for f in st.pc[len(snap.pc):])

    def loop_iters(self, fid, fr, st, L):
        body = self.P.fns[fid]['body']
        res = []
        for b in L:
            for _, s in body['blocks'][b]['s']:
                if s[0] == '=' and s[2][0] == 'ref' and s[2][2] == 1:
                    l = s[2][1][0]
                    v = st.store.get((fr, l))
                    if isinstance(v, Nat) and v.k == 'iter' and (l, v) not in res:
                        res.append((l, v))
                    elif isinstance(v, Agg) and v.tid is not None and self.P.types[v.tid].get('name', '').endswith('ops::Range'):
                        res.append((l, v))
        return res

    def loop_mode(self, fid, fr, st, head, L, n):
        its = self.loop_iters(fid, fr, st, L)
        if any(isinstance(v, Nat) and self.models.iter_symbolic(v) for _, v in its):
            return 'abstract'
        if n == 0 and any(isinstance(v, Agg) and is_int(v.f[0]) and is_int(v.f[1]) and v.f[1] - v.f[0] > 4 for _, v in its):
            return 'abstract'
        if its:
            if n > UNROLL:
                raise Unsupported('unrolling bound')
            return 'unroll'
        blocks = self.P.fns[fid]['body']['blocks']
        if all(s in L for b in L for s in self.P.succs(blocks[b])):
            return 'abstract'       # no exit: a server loop
        if n > 14:
            return 'abstract'
        return 'watch'

    def changed(self, a, b):
        if a is b:
            return False
        if a is MOVED and b is MOVED:
            return False
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a != b
        if z3.is_expr(a) and z3.is_expr(b):
            return not a.eq(b)
        if type(a) != type(b):
            return True
        if isinstance(a, Rope):
            return rope_eq(a, b) is not True
        if isinstance(a, Dt):
            return not a.t.eq(b.t)
        if isinstance(a, Agg):
            return a.tid != b.tid or a.var != b.var or len(a.f) != len(b.f) or any(self.changed(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, SeqC):
            return len(a.e) != len(b.e) or any(self.changed(x, y) for x, y in zip(a.e, b.e))
        if isinstance(a, SeqS):
            return self.changed(a.n, b.n) or not a.arr.eq(b.arr)
        if isinstance(a, SeqT):
            return not a.t.eq(b.t)
        if isinstance(a, MapV):
            return not (a.dom.eq(b.dom) and a.map.eq(b.map))
        if isinstance(a, MutRef):
            return a.loc != b.loc or len(a.path) != len(b.path) or repr(a.path) != repr(b.path)
        if isinstance(a, FnVal):
            return a.fid != b.fid
        if isinstance(a, Disc):
            return self.changed(a.v, b.v)
        if isinstance(a, Nat):
            if a.k != b.k or set(a.a) != set(b.a):
                return True
            return any(self.changed(a.a[x], b.a[x]) for x in a.a)
        if isinstance(a, tuple):
            return len(a) != len(b) or any(self.changed(x, y) for x, y in zip(a, b))
        return a != b

    # A loop that cannot be unrolled is cut: every location the body may change is replaced by an
    # arbitrary value (constrained by the loop's invariant).  A template describes which parts of
    # a location are replaced: None (unchanged), HAVOC, or ('agg', [templates]).
    def join(self, t, a, w):
        if t is HAVOC or not self.changed(a, w):
            return t
        if isinstance(a, Agg) and isinstance(w, Agg) and a.tid == w.tid and a.var == w.var and a.tid is not None \
                and len(a.f) == len(w.f) and (len(self.P.variants(a.tid)) == 1 or self.has_native(a.tid)):
            ts = t[1] if t else [None] * len(a.f)
            return ('agg', [self.join(x, y, z) for x, y, z in zip(ts, a.f, w.f)])
        return HAVOC

    def inst(self, st, t, a, tid, name):
        if t is None:
            return a
        if isinstance(t, tuple):
            fs = self.P.variants(a.tid)[a.var][2]
            return Agg(a.tid, a.var, [self.inst(st, x, y, ft, f'{name}.{fn}') for x, y, (fn, ft) in zip(t[1], a.f, fs)])
        if a is MOVED or a is None:
            return MOVED
        if isinstance(a, Nat):
            if a.k == 'iter':
                return self.models.widen_iter(st, a, name)
            h = getattr(self.models, 'widen_' + a.k, None)
            if h:
                return h(st, a, name)
            return MOVED
        if isinstance(a, (MutRef, FnVal, Disc)):
            return MOVED
        if isinstance(a, (SeqC, SeqS, SeqT)) and a.et is not None:
            return self.fresh_seq(st, a.et, name)
        if isinstance(a, MapV):
            return self.fresh_map(st, a.kt, a.vt, name)
        if tid is None:
            if isinstance(a, Agg) and a.tid is None:
                return a
            if isinstance(a, (Agg, Dt)):
                tid = a.tid
            elif isinstance(a, Rope):
                return Rope([z3.Const(fresh_name(name), Str)])
            else:
                return MOVED
        return self.fresh(st, tid, name)

    def loc_ty(self, fid, fr, loc):
        if loc[0] == fr:
            return self.P.fns[fid]['body']['locals'][loc[1]]
        return self.loc_types.get(loc)

    loc_types = {}
    cand_cache = {}

    def havoc_locs(self, fid, fr, st, T):
        for loc, t in T.items():
            st.store[loc] = self.inst(st, t, st.store.get(loc, MOVED), self.loc_ty(fid, fr, loc), f'loop.{loc[1]}')

    def abstract_loop(self, fid, fr, s0, head, L):
        f = self.P.fns[fid]
        T = {}
        s0.memo = {}
        for rnd in range(14):
            st = s0.copy()
            mark = len(self.obl)
            self.havoc_locs(fid, fr, st, T)
            start = dict(st.store)
            grew = False
            for s2, r in self.exec_from(fid, fr, st, head, {}, (head, L)):
                if r != 'back':
                    continue
                if set(s2.held) != set(s0.held):
                    raise Unsupported('lock held differently around a loop')
                for loc in s0.store:
                    a, w = start.get(loc, MOVED), s2.store.get(loc, MOVED)
                    if a is MOVED and (w is MOVED or loc[0] == fr):
                        continue
                    t = self.join(T.get(loc), a, w)
                    if t is not T.get(loc) and repr(t) != repr(T.get(loc)):
                        T[loc] = t
                        grew = True
            del self.obl[mark:]
            if not grew:
                break
        else:
            raise Unsupported('loop fixpoint')
        # invariant: candidates that hold on entry and are preserved (Houdini)
        cands = []
        for mk in self.loop_inv:
            cands += mk(self, fid, fr, s0, T)
        if cands:
            from loopinv import filter_holding
            key = (fid, head, tuple(sorted(repr(l[1]) for l in T)))
            if key in self.cand_cache:
                cands = [c for c in cands if c.name in self.cand_cache[key]]
            cands = filter_holding(self, cands, s0, s0)
        while cands:
            st = s0.copy()
            mark = len(self.obl)
            self.havoc_locs(fid, fr, st, T)
            for c in cands:
                c.assume(self, s0, st)
            left = cands
            for s2, r in self.exec_from(fid, fr, st, head, {}, (head, L)):
                if r == 'back' and left:
                    left = filter_holding(self, left, s0, s2)
            del self.obl[mark:]
            if len(left) == len(cands):
                break
            cands = left
        if self.loop_inv:
            self.cand_cache[(fid, head, tuple(sorted(repr(l[1]) for l in T)))] = {c.name for c in cands}
        self.loop_log.setdefault((f['name'], head), set()).update(c.name for c in cands)
        # final run
        st = s0.copy()
        self.havoc_locs(fid, fr, st, T)
        for c in cands:
            c.assume(self, s0, st)
        self.event(st, 'loop', fn=f['name'], head=head)
        st.memo = {}
        out = []
        for s2, r in self.exec_from(fid, fr, st, head, {}, (head, L)):
            if r == 'back':
                out.append((s2, Stop('loop')))
            else:
                if isinstance(r, tuple):
                    self.event(s2, 'loopexit', fn=f['name'], head=head)
                out.append((s2, r))
        return out

    def loop_key(self, fid, head):
        hs = sorted(self.P.loops(fid))
        return (self.P.fns[fid]['name'], hs.index(head))

    # ---- blocks ---------------------------------------------------------
    def exec_block(self, fid, fr, st, body, bb):
        blk = body['blocks'][bb]
        P = self.P
        for line, s in blk['s']:
            self.fstack[-1] = (self.fstack[-1][0], line)
            k = s[0]
            if k == '=':
                dty = self.place_ty(body, s[1])
                v = self.rvalue(st, fr, body, s[2], dty)
                self.assign(st, fr, body, s[1], v)
            elif k == 'sd':
                v, loc, path, tid = self.walk(st, fr, body, s[1])
                raise Unsupported('SetDiscriminant')
            elif k == 'assume':
                pass
            elif k == 'unk':
                pass
        t = blk['t']
        self.fstack[-1] = (self.fstack[-1][0], blk['l'])
        k = t[0]
        if k == 'goto':
            return [(st, t[1])]
        if k == 'ret':
            return [(st, Ret(st.store.get((fr, 0), Agg(None, 0, ()))))]
        if k == 'sw':
            return self.switch(st, fr, body, t)
        if k == 'drop':
            v, loc, path, tid = self.walk(st, fr, body, t[1])
            if v is not MOVED and v is not None:
                self.drop(st, v, tid)
                if loc is not None and not path:
                    st.store[loc] = MOVED
            return [(st, t[2])]
        if k == 'assert':
            c = self.operand(st, fr, body, t[1])
            if not t[2]:
                c = Not(c)
            if t[3].startswith('misaligned') or t[3].startswith('null'):
                return [(st, t[4])]
            r = []
            for s2, b in self.branch(st, c):
                r.append((s2, t[4] if b else Panic('assert: ' + t[3], self.here())))
            return r
        if k == 'call':
            return self.call(fid, fr, st, body, t)
        if k in ('resume', 'abort'):
            return [(st, Stop('unwind'))]
        if k == 'unreach':
            return [] if not self.feasible(st) else [(st, Stop('unreachable'))]
        raise Unsupported(f'terminator {k}')

    def assign(self, st, fr, body, place, v):
        l, projs = place
        if not projs:
            st.store[(fr, l)] = v
            return
        old, loc, path, tid = self.walk(st, fr, body, place)
        if loc is None:
            raise Unsupported('assignment through a shared snapshot')
        if isinstance(old, MutRef) and projs[-1] == '*' and False:
            return self.assign_ref(st, old, v)
        self.store_to(st, loc, path, v)

    def switch(self, st, fr, body, t):
        v = self.operand(st, fr, body, t[1])
        cases, other = t[2], t[3]
        if isinstance(v, Disc):
            vs = self.P.variants(v.tid)
            if isinstance(v.v, Agg):
                d = vs[v.v.var][1]
                for val, b in cases:
                    if int(val) == d:
                        return [(st, b)]
                return [(st, other)]
            used, conds = set(), []
            for val, b in cases:
                n = [i for i, x in enumerate(vs) if x[1] == int(val)]
                if not n:
                    continue
                used.add(n[0])
                conds.append((self.is_variant(v.v, n[0]), b))
            rest = [self.is_variant(v.v, i) for i in range(len(vs)) if i not in used]
            if rest:
                conds.append((Or(*rest), other))
            return self.fork(st, conds)
        if isinstance(v, bool) or z3.is_expr(v) and z3.is_bool(v):
            tb = fb = other
            for val, b in cases:
                if int(val) == 0:
                    fb = b
                else:
                    tb = b
            return [(s2, tb if b else fb) for s2, b in self.branch(st, v)]
        if is_int(v):
            for val, b in cases:
                if int(val) == v:
                    return [(st, b)]
            return [(st, other)]
        conds = [(v == int(val), b) for val, b in cases]
        conds.append((And(*[v != int(val) for val, b in cases]), other))
        return self.fork(st, conds)

    def fork(self, st, conds):
        """conds: mutually exclusive and exhaustive [(cond, target)]"""
        out = []
        todo = [(c, b) for c, b in conds if self.known(st, c) is not False]
        feas = []
        for n, (c, b) in enumerate(todo):
            if self.known(st, c) is True:
                return [(st, b)]
        for n, (c, b) in enumerate(todo):
            if (n == len(todo) - 1 and not feas) or self.feasible(st, c):
                feas.append((c, b))
        for n, (c, b) in enumerate(feas):
            s2 = st if n == len(feas) - 1 else st.copy()
            self.assume(s2, c)
            out.append((s2, b))
        return out

    def call(self, fid, fr, st, body, t):
        c, ops, dest, tgt = t[1], t[2], t[3], t[4]
        args = [self.operand(st, fr, body, o) for o in ops]
        dty = self.place_ty(body, dest)
        here = self.here()
        if c[0] == 'fn':
            fn = self.P.fns[c[1]]
            self.cur_dty = dty
            self.cur_atys = [self.op_ty(body, o) for o in ops]
            if '{closure#' in fn['name'] and fn['body'] and len(args) == 2:
                args = self.untuple(st, fn, args)
            res = self.exec_fn(c[1], args, st)
        elif c[0] == 'ptr':
            v = self.operand(st, fr, body, c[1])
            res = self.call_value(v, args, st)
        else:
            res = self.models.unknown(st, str(c), args, dty)
        out = []
        for s2, r in res:
            if isinstance(r, Ret):
                if tgt is None:
                    out.append((s2, Stop('diverge')))
                    continue
                self.assign(s2, fr, body, dest, r.v)
                out.append((s2, tgt))
            else:
                out.append((s2, r))
        return out

    def untuple(self, st, fn, args):
        """a closure body called through Fn*::call*: arguments arrive as one tuple"""
        clo, tup = args
        rest = list(tup.f) if isinstance(tup, Agg) else [self.field(tup, i) for i in range(fn['body']['argc'] - 1)]
        t = self.P.types[fn['body']['locals'][1]]
        if t['k'] == 'ref' and t['mut'] and not isinstance(clo, MutRef):
            loc = ('heap', fresh_loc('clo'))
            st.store[loc] = clo
            clo = MutRef(loc)
        return [clo] + rest

    # ---- drop / locks ---------------------------------------------------
    def drop(self, st, v, tid=None):
        """drop an owned value; references own nothing"""
        P = self.P
        ty = P.types[tid] if tid is not None else None
        if ty is not None and ty['k'] in ('ref', 'ptr', 'int', 'bool', 'str'):
            return
        if v is None or v is MOVED:
            return
        if isinstance(v, Nat):
            if v.k == 'guard':
                self.unlock(st, v)
        elif isinstance(v, Agg):
            t2 = v.tid if v.tid is not None else tid
            fts = [None] * len(v.f)
            if t2 is not None:
                fs = P.variants(P.strip(t2))[v.var][2]
                if len(fs) == len(v.f):
                    fts = [ft for _, ft in fs]
            for x, ft in zip(v.f, fts):
                if x is not None and x is not MOVED and isinstance(x, (Agg, Nat, SeqC)):
                    self.drop(st, x, ft)
        elif isinstance(v, SeqC):
            for x in v.e:
                if isinstance(x, (Nat, Agg)):
                    self.drop(st, x, v.et)

    def unlock(self, st, g):
        if g.name not in st.held:
            return
        loc = ('mutex', g.name)
        self.event(st, 'unlock', name=g.name, content=st.store.get(loc), snap=st.copy())
        st.held = tuple(x for x in st.held if x != g.name)
        st.store.pop(loc, None)

    def lock(self, st, m):
        if m.name in st.held:
            self.event(st, 'deadlock', name=m.name)
            return None
        loc = ('mutex', m.name)
        self.loc_types[loc] = m.ty
        st.held = st.held + (m.name,)
        c = None
        if self.lock_content:
            c = self.lock_content(self, st, m.name, m.ty)
        if c is None:
            c = self.fresh(st, m.ty, 'm:' + m.name)
        st.store[loc] = c
        self.event(st, 'lock', name=m.name, content=c)
        return Nat('guard', name=m.name)


def _small(c, lim=60):
    n = 0
    todo = [c]
    while todo:
        x = todo.pop()
        n += 1
        if n > lim:
            return False
        todo += x.children()
    return True

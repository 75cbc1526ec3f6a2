"""Loop invariants.  Candidates are generated from the roles of the values a loop changes (the
locked state, a table under construction, an accumulator map, counters, the position of an
iterator); those that hold on entry and are preserved by the body are kept (Houdini).  Every
candidate kept has been discharged by the solver."""
import time
import z3
from values import *
from models import HEADER_HOST, HOSTS, is_host_field, F, I, B, SeqM, TOLD, QUEUED, QUEUED_PARTS, TOLDAT, told_of, string_parts


def filter_holding(eng, cands, s0, s):
    """the candidates that hold in s; goals over the same state are first tried together"""
    if s is s0:
        s = s0.copy()
    s.memo = dict(s.memo)
    groups, bad = {}, set()
    for n, c in enumerate(cands):
        try:
            for st, g in c.goals(s0, s):
                groups.setdefault(id(st), (st, []))[1].append((n, g))
        except (KeyError, AttributeError, TypeError, IndexError):
            bad.add(n)
    for st, gs in groups.values():
        todo = [(n, g) for n, g in gs if n not in bad and g is not True]
        while todo:
            m = model(eng, st, [zbool(g) for _, g in todo])
            if m is None:
                break
            if m == 'unknown':
                for n, g in todo:
                    if n not in bad and not must(eng, st, g):
                        bad.add(n)
                break
            out = [(n, g) for n, g in todo if not z3.is_true(m.eval(zbool(g), model_completion=True))]
            if not out:
                for n, g in todo:
                    if not must(eng, st, g):
                        bad.add(n)
                break
            bad |= {n for n, _ in out}
            todo = [(n, g) for n, g in todo if n not in bad]
    return [c for n, c in enumerate(cands) if n not in bad]


def model(eng, st, goals):
    """a model of st in which some goal fails; None when all hold"""
    if not goals:
        return None
    sv = eng.solver
    sv.calls += 1
    t = time.time()
    s = sv.solver(list(st.pc) + [z3.Not(z3.And(*goals))], 6000)
    c = s.check()
    sv.time += time.time() - t
    return None if c == z3.unsat else s.model() if c == z3.sat else 'unknown'


def must(eng, st, goal):
    if goal is True:
        return True
    return eng.solver.sat(st.pc + [z3.Not(zbool(goal))], 6000) is False


def mentions(t, prefix):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0 and x.decl().name().startswith(prefix):
            return True
        todo += x.children()
    return False


class Snap:
    """the store of a state as it is now"""

    def __init__(self, st):
        self.store = dict(st.store)


class Cand:
    def __init__(self, name, goals, assume):
        """goals(s0, s) -> [(state, goal)];  assume(s0, st)"""
        self.name, self.goals, self.do = name, goals, assume

    def holds(self, eng, s0, s):
        try:
            return all(must(eng, st, g) for st, g in self.goals(s0, s))
        except (KeyError, AttributeError, TypeError, IndexError):
            return False

    def assume(self, eng, s0, st):
        self.do(s0, st)


def seqs(v, eng):
    """any table value as (n, term of row j)"""
    if isinstance(v, SeqS):
        return v.n
    return len(v.e)


def gen(L):
    def mk(eng, fid, fr, s0, T):
        return Gen(eng, L, fid, fr, s0, T).run()
    return mk


class Gen:
    def __init__(self, eng, L, fid, fr, s0, T):
        self.e, self.L, self.fid, self.fr, self.s0, self.T = eng, L, fid, fr, s0, T
        self.P = eng.P
        self.out = []

    def val(self, s, loc):
        return s.store[loc]

    def row(self, s, d, j):
        """term of row j of a table value"""
        if isinstance(d, SeqS):
            self.e.add_term(s, ('ix', d.tag), zint(j))
            return z3.Select(d.arr, zint(j))
        ts = [self.e.to_term(x, d.et) for x in d.e]
        if not ts:
            return z3.Const('norow', self.P.sort(d.et))
        r = ts[-1]
        for n in range(len(ts) - 2, -1, -1):
            r = z3.If(zint(j) == n, ts[n], r)
        return r

    def add(self, name, goals, assume):
        self.out.append(Cand(name, goals, assume))

    def run(self):
        L, e, s0 = self.L, self.e, self.s0
        iters = []
        for loc, t in self.T.items():
            v = s0.store.get(loc)
            if isinstance(v, Nat) and v.k == 'iter':
                iters.append(loc)
        rows, states, accs, ints, vecs = [], [], [], [], []
        for loc, t in self.T.items():
            v = s0.store.get(loc)
            if isinstance(v, Agg) and v.tid == L.ls:
                states.append((loc, t))
            elif isinstance(v, (SeqC, SeqS)) and v.et is not None and self.P.strip(v.et) == L.elem:
                rows.append(loc)
            elif isinstance(v, (SeqC, SeqS)) and v.et is not None:
                vecs.append(loc)
            elif isinstance(v, MapV):
                accs.append(loc)
            elif is_int(v) or (z3.is_expr(v) and v.sort() == I):
                ints.append(loc)
        self.vecs = vecs
        for loc in ints:
            self.mono(loc)
        for loc, t in self.T.items():
            self.header(loc, iters)
        if TOLD in self.T:
            self.told(iters)
        for loc, t in states:
            self.state(loc, t, iters)
        for loc in rows:
            self.table(loc, iters, states, ints)
        for loc in vecs:
            self.vec(loc, iters)
            try:
                self.queue(loc, iters)
            except (Unsupported, KeyError, IndexError, z3.Z3Exception):
                pass
        for loc in accs:
            self.acc(loc, iters)
        return self.out

    # ---- ghost: what has been handed to threads --------------------------------
    def told(self, iters):
        e, M = self.e, self.e.models
        for it in iters:
            v = self.s0.store[it]
            sq = self.src(self.s0, it)
            if sq is None or isinstance(sq, SeqC):
                continue
            tag = sq.nm if isinstance(sq, SeqM) else sq.tag
            snap = (self.s0.store, self.s0.held)

            def fact(s, s0, h, j, v=v, sq=sq, tag=tag, it=it, snap=snap):
                """element j has been told, if its turn has come"""
                e.add_term(s, ('ix', tag), j)
                fs = []
                for dl, y, _ in M.pred_at(M.at_snap(s, snap), list(v.ops), sq, j):
                    if y is None:
                        fs.append(dl)
                        continue
                    x = told_of(M, s, y)
                    gs = [z3.Select(h.store[TOLD].ids, t) for t in x[0]] + [z3.Select(h.store[TOLD].strs, t) for t in x[1]]
                    if not gs:
                        return None
                    fs.append(And(dl, *gs))
                return Implies(And(j >= zint(self.pos(s0, it)), j < zint(self.pos(h, it))), Or(*fs))
            try:
                if fact(self.s0.copy(), self.s0, self.s0, z3.Int('probe')) is None:
                    continue
            except Exception:
                continue

            def g2(s0, s, fact=fact):
                s = s.copy()
                j = z3.Int(fresh_name('j'))
                return [(s, fact(s, s0, s, j))]

            def a2(s0, st, fact=fact, tag=tag):
                h = Snap(st)
                e.add_uni(st, ('ix', tag), lambda s, j: fact(s, s0, h, j))
            self.add(f'elements passed by {it[1]} are told', g2, a2)

            # ... and those not yet passed are not, as far as their parts name them
            if not isinstance(sq, SeqS):
                continue
            for c in string_parts(M, sq.et):
                for p in range(QUEUED_PARTS):
                    if TOLDAT + (p,) not in self.T:
                        continue

                    def notyet(s, s0, h, j, c=c, p=p, tag=tag, sq=sq, it=it):
                        e.add_term(s, ('ix', tag), j)
                        return Implies(And(j >= zint(self.pos(h, it)), j < zint(sq.n)), z3.Not(z3.Select(h.store[TOLDAT + (p,)].arr, self.part(sq, z3.Select(sq.arr, j), c))))

                    def g3(s0, s, f=notyet):
                        s = s.copy()
                        j = z3.Int(fresh_name('j'))
                        return [(s, f(s, s0, s, j))]

                    def a3(s0, st, f=notyet, tag=tag):
                        h = Snap(st)
                        e.add_uni(st, ('ix', tag), lambda s, j: f(s, s0, h, j))
                    self.add(f'elements {it[1]} has not passed are not told ({c}, {p})', g3, a3)

    # ---- counters ---------------------------------------------------------
    def header(self, loc, iters):
        """an optional text: nothing, or the value of a Host field"""
        v = self.s0.store.get(loc)
        tid = getattr(v, 'tid', None)
        if not isinstance(v, (Agg, Dt)) or tid is None or self.P.types[tid].get('k') != 'adt' or not self.P.types[tid]['name'].endswith('option::Option'):
            return
        if self.P.sort(self.P.types[tid]['args'][0]) != Str:
            return
        e = self.e
        si = [n for n, x in enumerate(self.P.variants(tid)) if x[0] == 'Some'][0]

        def ok(s):
            x = s.store[loc]
            some = e.is_variant(x, si)
            if some is False:
                return True
            return z3.Implies(zbool(some), HEADER_HOST(rope(e.field(x, 0, si)).term()))
        self.add(f'{loc[1]} is the value of a Host field, if any', lambda s0, s: [(s, ok(s))], lambda s0, st: e.assume(st, zbool(ok(st))))
        for it in iters:
            sq = self.src(self.s0, it)
            if not isinstance(sq, SeqS) or sq.arr.sort() != HOSTS.domain(0):
                continue

            e.__dict__.setdefault('host_len', {})[sq.arr.get_id()] = (sq.arr, sq.n)

            def count(s, sq=sq, it=it):
                k, x = self.pos(s, it), s.store[loc]
                some = zbool(e.is_variant(x, si))
                pv = z3.simplify(k - 1)
                e.assume(s, HOSTS(sq.arr, z3.IntVal(0)) == 0, z3.Implies(k >= 1, HOSTS(sq.arr, k) == HOSTS(sq.arr, pv) + z3.If(is_host_field(z3.Select(sq.arr, pv)), 1, 0)))
                # (the unfolding at this position)
                return HOSTS(sq.arr, k) == z3.If(some, z3.IntVal(1), z3.IntVal(0))

            def goal(s0, s, count=count):
                s = s.copy()
                return [(s, count(s))]
            self.add(f'{loc[1]} is set exactly if one of the lines so far is a Host field', goal, lambda s0, st, count=count: e.assume(st, count(st)))

    def mono(self, loc):
        e = self.e
        self.add(f'counter {loc[1]} never decreases', lambda s0, s: [(s, zint(s.store[loc]) >= zint(s0.store[loc]))],
                 lambda s0, st: e.assume(st, zint(st.store[loc]) >= zint(s0.store[loc])))

    # ---- iterator helpers ---------------------------------------------------
    def pos(self, s, it):
        return zint(s.store[it].pos)

    def src(self, s, it):
        return self.e.models.src_seq(s, self.s0.store[it])

    # ---- plain vectors ---------------------------------------------------------
    def vec(self, loc, iters):
        e = self.e

        def ln(s):
            return zint(e.seq_len(s.store[loc]))

        self.add(f'len {loc[1]} grows', lambda s0, s: [(s, ln(s) >= ln(s0))], lambda s0, st: e.assume(st, ln(st) >= ln(s0)))
        for it in iters:
            self.add(f'len {loc[1]} follows the iterator',
                     lambda s0, s: [(s, ln(s) - ln(s0) == self.pos(s, it) - self.pos(s0, it))],
                     lambda s0, st: e.assume(st, ln(st) - ln(s0) == self.pos(st, it) - self.pos(s0, it)))
            self.add(f'len {loc[1]} at most follows the iterator',
                     lambda s0, s: [(s, ln(s) - ln(s0) <= self.pos(s, it) - self.pos(s0, it))],
                     lambda s0, st: e.assume(st, ln(st) - ln(s0) <= self.pos(st, it) - self.pos(s0, it)))
        v0 = self.s0.store[loc]
        if isinstance(v0, SeqC):
            # the elements present on entry stay in front
            def g(s0, s):
                return [(s, self.eqv(s, e.seq_get(s.store[loc], k), x, v0.et)) for k, x in enumerate(v0.e)]
            if v0.e:
                self.add(f'{loc[1]} keeps its first elements', g,
                         lambda s0, st: [e.assume(st, zbool(self.eqv(st, e.seq_get(st.store[loc], k), x, v0.et))) for k, x in enumerate(v0.e)])
        # elementwise copy of the iterated sequence behind the elements present on entry
        for it in iters:
            sq = self.src(self.s0, it)
            if not isinstance(sq, SeqS):
                continue

            def rel(s, s0, j):
                d = s.store[loc]
                sv = self.e.models.seq_item(s, sq, j - ln(s0) + self.pos(s0, it))
                if isinstance(d, SeqS):
                    e.add_term(s, ('ix', d.tag), j)
                x = e.seq_get(d, j) if isinstance(d, SeqS) else e.from_term(self.row(s, d, j), d.et)
                return self.eqpair(s, x, sv)
            try:
                probe = rel(self.s0.copy(), self.s0, z3.Int('probe')) is not None
            except Exception:
                probe = False
            if not probe:
                continue

            def g2(s0, s):
                s = s.copy()
                j = z3.Int(fresh_name('j'))
                e.assume(s, j >= ln(s0), j < ln(s))
                return [(s, rel(s, s0, j))]

            def a2(s0, st):
                d = st.store[loc]
                e.add_uni(st, ('ix', d.tag), lambda s, j: Implies(And(j >= ln(s0), j < d.n), rel2(s, s0, d, j)))

            def rel2(s, s0, d, j):
                sv = self.e.models.seq_item(s, sq, j - ln(s0) + self.pos(s0, it))
                return self.eqpair(s, e.seq_get(d, j), sv)
            self.add(f'{loc[1]} copies the iterated elements', g2, a2)

    def eqv(self, s, a, b, et):
        return norm(self.e.to_term(a, et) == self.e.to_term(b, et))

    def eqpair(self, s, a, b):
        e, P = self.e, self.P
        if isinstance(a, Rope) and isinstance(b, Rope):
            return rope_eq(a, b)
        ta, tb = getattr(a, 'tid', None), getattr(b, 'tid', None)
        if isinstance(a, (Agg, Dt)) and isinstance(b, (Agg, Dt)) and ta is not None and tb is not None:
            fa, fb = P.variants(P.strip(ta))[0][2], P.variants(P.strip(tb))[0][2]
            if len(P.variants(P.strip(ta))) == 1 and len(fa) == len(fb):
                gs = [self.eqpair(s, e.field(a, i), e.field(b, i)) for i in range(len(fa))]
                return None if any(g is None for g in gs) else And(*gs)
        return None

    # ---- the locked state ---------------------------------------------------
    def state(self, loc, t, iters):
        e, L = self.e, self.L
        t = t[1] if isinstance(t, tuple) else [t] * 3
        v0 = self.s0.store[loc]
        c0, m0, d0 = L.parts(v0)

        def cnt(s):
            return zint(L.parts(s.store[loc])[0])

        def tab(s):
            return L.parts(s.store[loc])[2]
        if t[L.fcount] is not None:
            self.add('version counter never decreases', lambda s0, s: [(s, cnt(s) >= zint(c0))],
                     lambda s0, st: e.assume(st, cnt(st) >= zint(c0)))
            # machine arithmetic: the 128-bit version counter does not wrap
        if t[L.fdetails] is None or not isinstance(d0, SeqS):
            return

        def sk(s):
            k = ('sk', loc, id(self))
            if k not in s.memo:
                s2 = s.copy()
                j = z3.Int(fresh_name('j'))
                d = tab(s2)
                e.assume(s2, j >= 0, j < zint(e.seq_len(d)))
                s.memo[k] = (s2, j, self.row(s2, d, j), self.row(s2, d0, j))
            return s.memo[k]

        def size_a(s0, st):
            e.assume(st, tab(st).n == zint(d0.n))
            e.link(st, ('ix', d0.tag), ('ix', tab(st).tag))
        self.add('table keeps its size', lambda s0, s: [(s, zint(e.seq_len(tab(s))) == zint(d0.n))], size_a)

        def uni(name, f):
            """f(state, j, new row, old row) for every row"""
            def g(s0, s):
                s, j, r, r0 = sk(s)
                return [(s, f(s, s, j, r, r0))]

            def a(s0, st):
                d = tab(st)
                h = Snap(st)
                e.add_uni(st, ('ix', d.tag), lambda s, j: Implies(And(j >= 0, j < d.n), f(h, s, j, z3.Select(d.arr, j), self.row(s, d0, j))))
            self.add(name, g, a)
        uni('every row keeps its name', lambda h, s, j, r, r0: L.el_name(r) == L.el_name(r0))
        uni('a changed row has a new version', lambda h, s, j, r, r0: Or(r == r0, And(L.el_id(r) >= zint(c0), L.el_id(r) < cnt(h))))
        uni('a changed row has a new version, announcements aside', lambda h, s, j, r, r0: Or(r == L.renotified(r0, r), And(L.el_id(r) >= zint(c0), L.el_id(r) < cnt(h))))
        uni('versions are below the counter', lambda h, s, j, r, r0: And(L.el_id(r) >= 0, L.el_id(r) < cnt(h)))
        for n, v in enumerate(L.tv):
            uni(f'rows in state {v[0]} stay so', lambda h, s, j, r, r0, n=n: Implies(L.is_ts(L.el_ts(r0), L.tv[n][0]), L.is_ts(L.el_ts(r), L.tv[n][0])))
            uni(f'rows in state {v[0]} are unchanged', lambda h, s, j, r, r0, n=n: Implies(L.is_ts(L.el_ts(r0), L.tv[n][0]), r == r0))
            for fn, ft in v[2]:
                if len(self.P.variants(L.tsty)[n][2]):
                    uni(f'rows in state {v[0]} keep their {fn}', lambda h, s, j, r, r0, n=n, fn=fn: Implies(
                        And(L.is_ts(L.el_ts(r0), L.tv[n][0]), L.is_ts(L.el_ts(r), L.tv[n][0])), L.ts_f(L.el_ts(r), L.tv[n][0], fn) == L.ts_f(L.el_ts(r0), L.tv[n][0], fn)))
        for it in iters:
            uni('rows not yet visited are unchanged', lambda h, s, j, r, r0: Implies(j >= self.pos(h, it), r == r0))
            sq = self.src(self.s0, it)
            if isinstance(sq, SeqM) and sq.what == 'kv' and self.P.strip(sq.mv.vt) == L.tsty:
                mv = sq.mv

                def frommap(h, s, j, r, r0):
                    nm = L.el_name(r0)
                    e.models.map_key_term(s, mv, nm)
                    return Or(r == r0, And(z3.Select(mv.dom, nm), L.el_ts(r) == z3.Select(mv.map, nm)))
                uni('a changed row takes its state from the map', frommap)

                def done(h, s, j, r, r0):
                    nm = L.el_name(r0)
                    n, KE, KI, tag = e.models.map_enum(s, mv)
                    e.models.map_key_term(s, mv, nm)
                    e.add_term(s, ('ix', tag), KI(nm))
                    return Implies(And(z3.Select(mv.dom, nm), KI(nm) < self.pos(h, it)), And(r != r0, L.el_ts(r) == z3.Select(mv.map, nm)))
                uni('rows named by visited keys are set from the map', done)

                def todo(h, s, j, r, r0):
                    nm = L.el_name(r0)
                    n, KE, KI, tag = e.models.map_enum(s, mv)
                    e.models.map_key_term(s, mv, nm)
                    return Implies(And(z3.Select(mv.dom, nm), KI(nm) >= self.pos(h, it)), r == r0)
                uni('rows named by keys not yet visited are unchanged', todo)

        try:
            self.announce(loc, v0, uni, iters)
        except (Unsupported, KeyError, IndexError, z3.Z3Exception):
            pass

        def dist_g(s0, s):
            s = s.copy()
            i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
            d = tab(s)
            e.assume(s, i >= 0, i < j, j < zint(e.seq_len(d)))
            ri, rj = self.row(s, d, i), self.row(s, d, j)
            self.row(s, d0, i), self.row(s, d0, j)
            return [(s, L.el_id(ri) != L.el_id(rj))]

        def dist_a(s0, st):
            d = tab(st)
            fx = F(fresh_name('inj'), I, I)
            e.add_uni(st, ('ix', d.tag), lambda s, j: Implies(And(j >= 0, j < d.n), fx(L.el_id(z3.Select(d.arr, j))) == j))
        self.add('versions are distinct', dist_g, dist_a)

    # ---- announcing pending authentications ------------------------------------
    def announce(self, loc, v0, uni, iters):
        e, L = self.e, self.L
        if TOLD not in self.s0.store:
            return
        nows = [x.t for x in self.s0.tr if x.k == 'now'][-2:]
        hascmd = L.optt(L.conf_f(v0, 'auth_notify_cmd'))
        same = lambda r, r0: L.el_ts(r) == L.el_ts(r0)
        uni('every row keeps its version', lambda h, s, j, r, r0: L.el_id(r) == L.el_id(r0))
        for t in nows:
            uni('a row changes only by being announced when due', lambda h, s, j, r, r0, t=t: Or(same(r, r0), And(L.announce_due(v0, r0, t), L.el_ts(r) == L.announced_ts(L.el_ts(r0), t))))
            for it in iters:
                uni('visited rows that are due are announced', lambda h, s, j, r, r0, t=t, it=it: Implies(
                    And(j < self.pos(h, it), L.announce_due(v0, r0, t)), L.el_ts(r) == L.announced_ts(L.el_ts(r0), t)))
                for vl in self.vecs:
                    for c in string_parts(e.models, self.s0.store[vl].et):
                        def queued(h, s, j, r, r0, c=c, vl=vl, t=t, it=it):
                            w = z3.Select(h.store[QUEUED + (c,)].arr, L.el_name(r0))
                            d = h.store[vl]
                            x = self.row(s, d, w) if not mentions(j, 'queued') or not isinstance(d, SeqS) else z3.Select(d.arr, w)
                            return Implies(And(j < self.pos(h, it), L.announce_due(v0, r0, t), hascmd[0]),
                                           And(w >= 0, w < zint(e.seq_len(d)), self.part(d, x, c) == L.el_name(r0)))
                        uni(f'the account is queued when announced ({c})', queued)

    def part(self, d, x, c):
        return self.P.dt(self.P.strip(d.et))[1][0][2][c](x)

    def queue(self, loc, iters):
        """every element put into the vector belongs to an account which was due"""
        e, L = self.e, self.L
        if TOLD not in self.s0.store:
            return
        cs = string_parts(e.models, self.s0.store[loc].et)
        old = [v for v in self.s0.store.values() if isinstance(v, Agg) and v.tid == L.ls]
        if not cs or not old or not L.idx_fns(old[-1]):
            return
        S = old[-1]
        c0, m0, d0 = L.parts(S)
        idxN = L.idx_fns(S)[1]
        cmd = L.optt(L.conf_f(S, 'auth_notify_cmd'))

        def sk(s):
            m = ('skq', loc, id(self))
            if m not in s.memo:
                s2 = s.copy()
                k = z3.Int(fresh_name('k'))
                d = s2.store[loc]
                e.assume(s2, k >= 0, k < zint(e.seq_len(d)))
                s.memo[m] = (s2, k, d, self.row(s2, d, k))
            return s.memo[m]

        def uni(name, f):
            def g(s0, s):
                s, k, d, r = sk(s)
                return [(s, f(s, k, d, r))]

            def a(s0, st):
                d = st.store[loc]
                e.add_uni(st, ('ix', d.tag), lambda s, k: Implies(And(k >= 0, k < d.n), f(s, k, d, z3.Select(d.arr, k))))
            self.add(name, g, a)
        for c in cs:
            def once(s0, s, c=c):
                s, k, d, r = sk(s)
                return [(s, z3.Select(s.store[QUEUED + (c,)].arr, self.part(d, r, c)) == k)]

            def aonce(s0, st, c=c):
                d, q = st.store[loc], st.store[QUEUED + (c,)].arr
                e.add_uni(st, ('ix', d.tag), lambda s, k: Implies(And(k >= 0, k < d.n), z3.Select(q, self.part(d, z3.Select(d.arr, k), c)) == k))
            self.add(f'nothing is queued twice ({c})', once, aonce)
            for it in iters:
                def seen(s0, s, c=c, it=it):
                    s, k, d, r = sk(s)
                    nm = self.part(d, r, c)
                    e.models.map_key_term(s, m0, nm)
                    e.add_term(s, ('ix', d0.tag), idxN(nm))
                    return [(s, And(z3.Select(m0.dom, nm), idxN(nm) < self.pos(s, it)))]

                def aseen(s0, st, c=c, it=it):
                    d, h = st.store[loc], Snap(st)

                    def f(s, k):
                        nm = self.part(d, z3.Select(d.arr, k), c)
                        return Implies(And(k >= 0, k < d.n), And(z3.Select(m0.dom, nm), idxN(nm) < self.pos(h, it)))
                    e.add_uni(st, ('ix', d.tag), f)
                self.add(f'what is queued belongs to visited rows ({c})', seen, aseen)
        nows = [x.t for x in self.s0.tr if x.k == 'now'][-2:]
        for t in nows:
            for c in cs:
                def of(s, k, d, x, c=c, t=t, more=lambda d, x, r0: []):
                    nm = self.part(d, x, c)
                    e.models.map_key_term(s, m0, nm)
                    i = idxN(nm)
                    e.add_term(s, ('ix', d0.tag), i)
                    r0 = z3.Select(d0.arr, i)
                    return And(z3.Select(m0.dom, nm), i >= 0, i < zint(d0.n), L.el_name(r0) == nm, L.announce_due(S, r0, t), *more(d, x, r0))
                uni(f'what is queued belongs to an account that is due ({c})', of)
                us = L.ts_f(L.el_ts(z3.Select(d0.arr, 0)), 'Pending', 'url').sort()
                ss = [self.P.sort(ft) for _, ft in self.P.variants(self.P.strip(self.s0.store[loc].et))[0][2]]
                for c2 in range(len(ss)):
                    if c2 != c and ss[c2] == us:
                        uni(f'what is queued has the URL of the account ({c}, {c2})', lambda s, k, d, x, of=of, c2=c2: of(
                            s, k, d, x, more=lambda d, x, r0: [self.part(d, x, c2) == L.ts_f(L.el_ts(r0), 'Pending', 'url')]))
                    if c2 != c and ss[c2] == cmd[1].sort():
                        uni(f'what is queued has the command ({c}, {c2})', lambda s, k, d, x, of=of, c2=c2: of(
                            s, k, d, x, more=lambda d, x, r0: [cmd[0], self.part(d, x, c2) == cmd[1]]))

    # ---- a table under construction -----------------------------------------
    def table(self, loc, iters, states, ints):
        e, L = self.e, self.L

        def tab(s):
            return s.store[loc]

        def ln(s):
            return zint(e.seq_len(s.store[loc]))
        # the version counter: of the state, or the local that counts along
        cnts = []
        for sl, t in states:
            cnts.append((lambda s, sl=sl: zint(L.parts(s.store[sl])[0]), sl))
        for il in ints:
            cnts.append((lambda s, il=il: zint(s.store[il]), None))
        old = None
        for sl, v in self.s0.store.items():
            if isinstance(v, Agg) and v.tid == L.ls:
                old = v
        for it in iters:
            sq = self.src(self.s0, it)
            def one(s0, st):
                e.assume(st, ln(st) == self.pos(st, it))
                if isinstance(sq, SeqM):
                    e.link(st, ('ix', sq.nm), ('ix', tab(st).tag))
                elif isinstance(sq, SeqS):
                    e.link(st, ('ix', sq.tag), ('ix', tab(st).tag))
            self.add('one row per element visited', lambda s0, s: [(s, ln(s) == self.pos(s, it))], one)

            def uni(name, f):
                def g(s0, s):
                    m = ('sk', loc, id(self))
                    if m not in s.memo:
                        s2 = s.copy()
                        j = z3.Int(fresh_name('j'))
                        e.assume(s2, j >= 0, j < ln(s2))
                        s.memo[m] = (s2, j, self.row(s2, tab(s2), j))
                    s, j, r = s.memo[m]
                    return [(s, f(s, s, j, r))]

                def a(s0, st):
                    d = tab(st)
                    h = Snap(st)
                    e.add_uni(st, ('ix', d.tag), lambda s, j: Implies(And(j >= 0, j < d.n), f(h, s, j, z3.Select(d.arr, j))))
                self.add(name, g, a)

            if isinstance(sq, SeqM):
                def named(h, s, j, r):
                    e.add_term(s, ('ix', sq.nm), j)
                    k = z3.Select(sq.KE, j)
                    e.models.map_key_term(s, sq.mv, k)
                    return And(j < sq.n, L.el_name(r) == k)
                uni('row j carries the name of key j', named)
            elif isinstance(sq, SeqS) and self.P.strip(sq.et) == L.elem:
                uni('row j carries the name of source row j', lambda h, s, j, r: L.el_name(r) == L.el_name(self.row(s, sq, j)))
                uni('row j copies source row j', lambda h, s, j, r: r == self.row(s, sq, j))
            uni('new rows are Empty', lambda h, s, j, r: L.is_ts(L.el_ts(r), 'Empty'))
            for cf, sl in cnts:
                c00 = cf(self.s0)
                uni('versions are below the counter', lambda h, s, j, r, cf=cf: And(L.el_id(r) >= 0, L.el_id(r) < cf(h)))
            if old is not None:
                c0, m0, d0 = L.parts(old)
                if isinstance(d0, SeqS) and L.idx_fns(old):
                    idxI, idxN = L.idx_fns(old)

                    def keep(h, s, j, r):
                        nm = L.el_name(r)
                        e.models.map_key_term(s, m0, nm)
                        e.add_term(s, ('ix', d0.tag), idxN(nm))
                        r0 = z3.Select(d0.arr, idxN(nm))
                        newmap = sq.mv if isinstance(sq, SeqM) else None
                        if newmap is None or self.P.strip(newmap.vt) != L.accty:
                            return False
                        same = And(z3.Select(m0.dom, nm), L.seceq(z3.Select(m0.map, nm), z3.Select(newmap.map, nm)))
                        return z3.If(zbool(same), r == r0, z3.And(L.el_id(r) >= zint(c0), L.is_ts(L.el_ts(r), 'Empty')))
                    uni('a row is kept exactly when the security settings are unchanged', keep)
                    uni('a row is kept or new', lambda h, s, j, r: Or(And(L.el_id(r) >= zint(c0)), self.oldrow(s, L, m0, d0, idxN, r)))

            def dist_g(s0, s):
                s = s.copy()
                i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
                d = tab(s)
                e.assume(s, i >= 0, i < j, j < ln(s))
                ri, rj = self.row(s, d, i), self.row(s, d, j)
                return [(s, L.el_id(ri) != L.el_id(rj))]

            def dist_a(s0, st):
                d = tab(st)
                fx = F(fresh_name('inj'), I, I)
                e.add_uni(st, ('ix', d.tag), lambda s, j: Implies(And(j >= 0, j < d.n), fx(L.el_id(z3.Select(d.arr, j))) == j))
            self.add('versions are distinct', dist_g, dist_a)

    def oldrow(self, s, L, m0, d0, idxN, r):
        nm = L.el_name(r)
        self.e.models.map_key_term(s, m0, nm)
        self.e.add_term(s, ('ix', d0.tag), idxN(nm))
        return And(z3.Select(m0.dom, nm), r == z3.Select(d0.arr, idxN(nm)))

    # ---- accumulator maps keyed by account name -------------------------------
    def acc(self, loc, iters):
        e, L, P = self.e, self.L, self.P
        v0 = self.s0.store[loc]
        for it in iters:
            sq = self.src(self.s0, it)
            if not (isinstance(sq, SeqS) and P.strip(sq.et) == L.elem):
                continue

            # domain: exactly names of visited rows satisfying phi -- expressed with the row of a name
            old = None
            for sl, v in self.s0.store.items():
                if isinstance(v, Agg) and v.tid == L.ls:
                    old = v
            if old is None or not L.idx_fns(old):
                continue
            c0, m0, d0 = L.parts(old)
            idxI, idxN = L.idx_fns(old)

            def uni(name, f):
                def g(s0, s):
                    s = s.copy()
                    k = z3.Const(fresh_name('k'), Str)
                    mv = s.store[loc]
                    e.models.map_key_term(s, mv, k)
                    e.models.map_key_term(s, m0, k)
                    e.add_term(s, ('ix', d0.tag), idxN(k))
                    if v0.dom is not mv.dom:
                        e.models.map_key_term(s, v0, k)
                    self.keys_of(s, k)
                    return [(s, f(s, s, k, mv))]

                def a(s0, st):
                    mv = st.store[loc]
                    h = Snap(st)

                    def inst(s, k):
                        e.models.map_key_term(s, m0, k)
                        e.add_term(s, ('ix', d0.tag), idxN(k))
                        return f(h, s, k, mv)
                    e.add_uni(st, ('key', mv.dom.get_id()), inst)
                self.add(name, g, a)

            def src_ok(h, s, k):
                i = idxN(k)
                return And(i >= 0, i < self.pos(h, it), i < zint(d0.n), L.el_name(z3.Select(d0.arr, i)) == k)
            uni('keys are names of visited rows', lambda h, s, k, mv: Implies(z3.Select(mv.dom, k), src_ok(h, s, k)))
            uni('all visited rows have a key', lambda h, s, k, mv: Implies(And(z3.Select(m0.dom, k), idxN(k) < self.pos(h, it)), z3.Select(mv.dom, k)))
            for kn, mk in Gen.key_guesses:
                ph = mk(L, e, old, self.s0)
                if ph is not None:
                    uni(kn, lambda h, s, k, mv, ph=ph: Implies(And(idxN(k) < self.pos(h, it), ph(s, k)), z3.Select(mv.dom, k)))
            for vn, val in self.guesses(old):
                uni(f'values are {vn}', lambda h, s, k, mv, val=val: Implies(z3.Select(mv.dom, k), val(s, k, z3.Select(mv.map, k))))

    def keys_of(self, s, k):
        for loc, v in self.s0.store.items():
            if isinstance(v, MapV):
                self.e.models.map_key_term(s, v, k)
            elif isinstance(v, Agg) and v.tid is not None:
                for x in v.f:
                    if isinstance(x, MapV):
                        self.e.models.map_key_term(s, x, k)

    value_guesses = []      # property modules add (name, fn(L, eng, old)->pred(s, k, value)|None)

    key_guesses = []

    def guesses(self, old):
        out = []
        for nm, mk in Gen.value_guesses:
            p = mk(self.L, self.e, old, self.s0)
            if p is not None:
                out.append((nm, p))
        return out

"""The lock-protected state: representation invariant, rely and guarantee.

Roles are resolved from types, not from names of fields or functions:
  LockedState  = the type inside the mutex that holds the account configuration and the token table
  count        = its machine-integer field (next version number)
  config       = its struct field holding the map  name -> account
  details      = its table of (name, version, token state)
"""
import z3
from mir import Unsupported
from values import *
from engine import Ret
from models import F, I, B, And, Or, Not, Implies


class LState:
    def __init__(self, eng):
        self.e = eng
        P = self.P = eng.P
        self.ls = None
        for i, t in enumerate(P.types):
            if t and t['k'] == 'adt' and t['exp'] and not t['enum'] and t['name'].startswith('pizauth::'):
                r = self._roles(i)
                if r:
                    self.ls = i
                    (self.fcount, self.fconfig, self.fdetails, self.elem, self.iname, self.iid, self.its,
                     self.idty, self.tsty, self.confty, self.faccts, self.accty) = r
                    break
        if self.ls is None:
            raise Unsupported('no locked state type found')
        self.av = P.variants(self.accty)[0][2]
        self.tv = P.variants(self.tsty)
        self.acc_name = [n for n, (fn, ft) in enumerate(self.av) if fn == 'name'][0]
        self.frozen = {}
        self.rowc = {}
        self.renot = {}
        self.keep = []

    def _roles(self, i):
        P = self.P
        fs = P.variants(i)[0][2]
        cnt = cfg = det = None
        for n, (fn, ft) in enumerate(fs):
            t = P.types[P.strip(ft)]
            if t['k'] == 'int':
                cnt = n
            e = P.is_vec(ft)
            if e is not None and P.types[P.strip(e)]['k'] in ('tuple', 'adt'):
                det = (n, P.strip(e))
            if t['k'] == 'adt' and t['exp'] and not t['enum'] and any(P.is_map(x) for _, x in P.variants(P.strip(ft))[0][2]):
                cfg = (n, P.strip(ft))
        if cnt is None or cfg is None or det is None:
            return None
        efs = P.variants(det[1])[0][2]
        nm = idn = ts = None
        for n, (fn, ft) in enumerate(efs):
            t = P.types[P.strip(ft)]
            if P.is_str(ft):
                nm = n
            elif t['k'] == 'adt' and t['enum']:
                ts = (n, P.strip(ft))
            elif t['k'] == 'adt':
                idn = (n, P.strip(ft))
        if nm is None or idn is None or ts is None:
            return None
        for n, (fn, ft) in enumerate(P.variants(cfg[1])[0][2]):
            mp = P.is_map(ft)
            if mp:
                return cnt, cfg[0], det[0], det[1], nm, idn[0], ts[0], idn[1], ts[1], cfg[1], n, P.strip(mp[1])
        return None

    # ---- accessors on terms -------------------------------------------
    def acc(self, tid, var, n):
        return self.P.dt(tid)[1][var][2][n]

    def el_name(self, t):
        return self.acc(self.elem, 0, self.iname)(t)

    def el_idv(self, t):
        return self.acc(self.elem, 0, self.iid)(t)

    def el_id(self, t):
        return self.id_of(self.el_idv(t))

    def id_of(self, idv):
        return self.acc(self.idty, 0, 0)(idv)

    def mk_id(self, t):
        return self.P.dt(self.idty)[1][0][0](t)

    def el_ts(self, t):
        return self.acc(self.elem, 0, self.its)(t)

    def a_name(self, t):
        return self.acc(self.accty, 0, self.acc_name)(t)

    def a_field(self, t, name):
        for n, (fn, ft) in enumerate(self.av):
            if fn == name:
                return self.acc(self.accty, 0, n)(t)
        raise Unsupported('account field ' + name)

    def ts_var(self, name):
        for n, v in enumerate(self.tv):
            if v[0] == name:
                return n
        raise Unsupported('token state ' + name)

    def is_ts(self, t, name):
        return self.P.dt(self.tsty)[1][self.ts_var(name)][1](t)

    def ts_f(self, t, var, name):
        n = self.ts_var(var)
        for k, (fn, ft) in enumerate(self.tv[n][2]):
            if fn == name:
                return self.acc(self.tsty, n, k)(t)
        raise Unsupported(f'token state field {name}')

    def renotified(self, r0, r1):
        """the row r0 as another thread may leave it without changing its version: it may have noted
        (as r1 has it) when the pending authentication was last announced"""
        k = (r0.get_id(), r1.get_id())
        if k in self.renot:
            return self.renot[k][2]
        cons = self.P.dt(self.elem)[1][0]
        n = self.ts_var('Pending')
        ts0, ts1 = self.el_ts(r0), self.el_ts(r1)
        pend = self.P.dt(self.tsty)[1][n]
        ts = pend[0](*[a(ts1 if fn == 'last_notification' else ts0) for a, (fn, _) in zip(pend[2], self.tv[n][2])])
        r = z3.If(pend[1](ts0), cons[0](*[ts if i == self.its else a(r0) for i, a in enumerate(cons[2])]), r0)
        self.renot[k] = (r0, r1, r)
        return r

    # ---- announcements of pending authentications --------------------------
    def conf_f(self, S, name):
        """term of a field of the configuration of a state"""
        n, ft = [(n, ft) for n, (fn, ft) in enumerate(self.P.variants(self.confty)[0][2]) if fn == name][0]
        return self.e.to_term(self.e.field(S.f[self.fconfig], n), ft)

    def optt(self, t):
        """(is Some, value, Some constructor) of an Option term"""
        s = t.sort()
        for k in range(s.num_constructors()):
            c = s.constructor(k)
            if c.arity() == 1:
                return s.recognizer(k)(t), s.accessor(k, 0)(t), c
        raise Unsupported('option sort')

    @memo
    def announce_due(self, S, r0, t):
        """a pending authentication which was never announced or last so at least an interval before t"""
        ts = self.el_ts(r0)
        h, v, _ = self.optt(self.ts_f(ts, 'Pending', 'last_notification'))
        nx = v + self.conf_f(S, 'auth_notify_interval')
        return z3.And(self.is_ts(ts, 'Pending'), z3.Or(z3.Not(h), z3.And(nx <= 2 ** 63 * 10 ** 9 - 1, nx <= t)))

    @memo
    def announced_ts(self, ts0, t):
        n = self.ts_var('Pending')
        pend = self.P.dt(self.tsty)[1][n]
        ln = self.ts_f(ts0, 'Pending', 'last_notification')
        return pend[0](*[self.optt(ln)[2](t) if fn == 'last_notification' else a(ts0) for a, (fn, _) in zip(pend[2], self.tv[n][2])])

    # ---- parts of a value -----------------------------------------------
    def parts(self, v):
        cnt = v.f[self.fcount]
        cf = v.f[self.fconfig]
        mp = cf.f[self.faccts] if isinstance(cf, Agg) else self.e.field(cf, self.faccts)
        return cnt, mp, v.f[self.fdetails]

    def at(self, v, j):
        """term of table row j"""
        d = self.parts(v)[2]
        if isinstance(d, SeqS):
            return z3.Select(d.arr, zint(j))
        raise Unsupported('table is not symbolic')

    def account_at(self, v, name):
        return z3.Select(self.parts(v)[1].map, name)

    # ---- security-relevant equality ---------------------------------------
    def relevant(self):
        """account fields that identify where and as whom tokens are obtained: everything except
        the refresh timing settings"""
        P = self.P
        out = []
        for n, (fn, ft) in enumerate(self.av):
            t = P.types[P.strip(ft)]
            if t['k'] == 'adt' and t['name'].endswith('Option') and 'Duration' in P.tname(t['args'][0]):
                continue
            out.append(n)
        return out

    def seceq(self, a, b):
        if a.eq(b):
            return z3.BoolVal(True)
        return z3.And(*[self.acc(self.accty, 0, n)(a) == self.acc(self.accty, 0, n)(b) for n in self.relevant()])

    # ---- invariant ---------------------------------------------------------
    def fresh(self, st, name):
        """an arbitrary state satisfying the invariant"""
        e, P = self.e, self.P
        fs = []
        for n, (fn, ft) in enumerate(P.variants(self.ls)[0][2]):
            if n == self.fdetails:
                nn = z3.Int(fresh_name(name + '.n'))
                e.assume(st, nn >= 0, nn <= 1 << 40)
                arr = z3.Const(fresh_name(name + '.rows'), z3.ArraySort(I, P.sort(self.elem)))
                fs.append(SeqS(nn, arr, self.elem, fresh_name('rows')))
            else:
                fs.append(e.fresh(st, ft, name + '.' + fn))
        v = Agg(self.ls, 0, fs)
        self.assume_inv(st, v)
        return v

    def assume_inv(self, st, v, ranges=True):
        e = self.e
        cnt, mp, d = self.parts(v)
        fx = self.idx_fns(v)
        if fx:
            idxI, idxN = fx
        else:
            nm = fresh_name('idx')
            idxI = F(nm + '.byid', I, I)
            idxN = F(nm + '.byname', Str, I)
            self.frozen[(d.arr.get_id(), d.tag)] = (idxI, idxN, d.arr, d)
        st.memo[('idx', d.arr.get_id())] = (idxI, idxN)
        e.assume(st, zint(cnt) >= 0, zint(cnt) <= (1 << 127))
        n, arr = d.n, d.arr
        kp = (arr, zint(n), zint(cnt), mp.dom, mp.map)
        self.keep.append(kp)
        nm_ = tuple(x.get_id() for x in kp) + (idxI.name(),)

        def row(s, j):
            r = z3.Select(arr, j)
            name = self.el_name(r)
            idv = self.el_id(r)
            self.reg_key(s, mp, name, arr)
            if ranges:
                self.row_ranges(s, r)
            kk = (nm_, j.get_id())
            c = self.rowc.get(kk)
            if c is not None:
                return c[1]
            c = Implies(And(j >= 0, j < n),
                           z3.And(idv >= 0, idv < zint(cnt), idxI(idv) == j, idxN(name) == j,
                                  z3.Select(mp.dom, name), self.a_name(z3.Select(mp.map, name)) == name))
            self.rowc[kk] = (j, c)
            return c

        def key(s, k):
            i = idxN(k)
            if not (z3.is_app(k) and k.num_args() == 1 and z3.is_app(k.arg(0)) and k.arg(0).decl().kind() == z3.Z3_OP_SELECT and k.arg(0).arg(0).eq(arr)):
                e.add_term(s, ('ix', d.tag), i)
            kk = (nm_, 'key', k.get_id())
            c = self.rowc.get(kk)
            if c is not None:
                return c[1]
            c = Implies(z3.Select(mp.dom, k), z3.And(i >= 0, i < n, self.el_name(z3.Select(arr, i)) == k,
                                                     self.a_name(z3.Select(mp.map, k)) == k))
            self.rowc[kk] = (k, c)
            return c
        e.add_uni(st, ('ix', d.tag), row)
        e.add_uni(st, ('key', mp.dom.get_id()), key)
        return idxI, idxN

    def row_ranges(self, st, r):
        e = self.e
        m = ('ranged', r.get_id())
        if m in st.gr:
            return
        st.gr[m] = (r,)
        e.range_of_term(st, self.el_ts(r), self.tsty)

    def reg_key(self, s, mp, name, arr):
        if z3.is_app(name.arg(0)) and name.arg(0).num_args() == 2:
            ix = name.arg(0).arg(1)
            if z3.is_app(ix) and ix.decl().name().endswith('.byname'):
                return
        self.e.add_term(s, ('key', mp.dom.get_id()), name)

    def idx_fns(self, v):
        d = self.parts(v)[2]
        for (a, t), x in self.frozen.items():
            if x[2].eq(d.arr):
                return x[0], x[1]
        return None

    def touch_id(self, st, v, idt):
        """instantiate the table facts at the row an id would have"""
        d = self.parts(v)[2]
        fx = self.idx_fns(v)
        if fx:
            self.e.add_term(st, ('ix', d.tag), fx[0](idt))

    def has_id(self, v, idt):
        """(condition, row index term): version idt is in the table (v satisfies the invariant)"""
        d = self.parts(v)[2]
        ix = self.idx_fns(v)[0](idt)
        return z3.And(ix >= 0, ix < d.n, self.el_id(z3.Select(d.arr, ix)) == idt), ix

    # ---- obligations ---------------------------------------------------------
    def inv_obls(self, st, v):
        """[(name, state, goal)]: the invariant for an arbitrary value v reached in st"""
        e = self.e
        cnt, mp, d = self.parts(v)
        if isinstance(d, SeqC):
            raise Unsupported('concrete table')
        s = st.copy()
        i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
        e.assume(s, i >= 0, i < j, j < d.n)
        for x in (i, j):
            e.add_term(s, ('ix', d.tag), x)
        ri, rj = z3.Select(d.arr, i), z3.Select(d.arr, j)
        out = [('versions distinct', s, self.el_id(ri) != self.el_id(rj)),
               ('names distinct', s, self.el_name(ri) != self.el_name(rj))]
        s2 = st.copy()
        e.assume(s2, j >= 0, j < d.n)
        e.add_term(s2, ('ix', d.tag), j)
        e.add_term(s2, ('key', mp.dom.get_id()), self.el_name(rj))
        out += [('versions below the counter', s2, z3.And(self.el_id(rj) >= 0, self.el_id(rj) < zint(cnt))),
                ('every row has an account', s2, z3.And(z3.Select(mp.dom, self.el_name(rj)),
                                                        self.a_name(z3.Select(mp.map, self.el_name(rj))) == self.el_name(rj)))]
        return out

    def rely(self, st, old, new):
        """other threads ran between old (released) and new (acquired)"""
        e = self.e
        c0, m0, d0 = self.parts(old)
        c1, m1, d1 = self.parts(new)
        e.assume(st, zint(c1) >= zint(c0))
        fx = self.idx_fns(old)
        idx0 = fx[0]
        kp = (d0.arr, d1.arr, zint(d0.n), zint(d1.n), m0.map, m1.map, zint(c0))
        self.keep.append(kp)
        rk = ('rely',) + tuple(x.get_id() for x in kp) + (idx0.name(),)

        def row(s, j):
            r = z3.Select(d1.arr, j)
            i = idx0(self.el_id(r))
            e.add_term(s, ('ix', d0.tag), i)
            kk = (rk, j.get_id())
            c = self.rowc.get(kk)
            if c is not None:
                return c[1]
            nm = self.el_name(r)
            c = Implies(And(j >= 0, j < d1.n, self.el_id(r) < zint(c0)),
                        z3.And(i >= 0, i < d0.n, r == self.renotified(z3.Select(d0.arr, i), r),
                               self.seceq(z3.Select(m0.map, nm), z3.Select(m1.map, nm))))
            self.rowc[kk] = (j, c)
            return c
        e.add_uni(st, ('ix', d1.tag), row)

    def freeze(self, st, v):
        """v satisfies the invariant (obligation checked at unlock): give it index functions"""
        d = self.parts(v)[2]
        if ('idx', d.arr.get_id()) not in st.memo:
            self.assume_inv(st, v, ranges=False)

    def guar_obls(self, st, old, new):
        """what this critical section promises to the others"""
        e = self.e
        c0, m0, d0 = self.parts(old)
        c1, m1, d1 = self.parts(new)
        if new is old or (d1.arr.eq(d0.arr) and m1.map.eq(m0.map) and m1.dom.eq(m0.dom) and not z3.is_expr(c1) or c1 is c0):
            pass
        s = st.copy()
        j = z3.Int(fresh_name('j'))
        r = z3.Select(d1.arr, j)
        idt = self.el_id(r)
        e.assume(s, j >= 0, j < d1.n, idt < zint(c0))
        e.add_term(s, ('ix', d1.tag), j)
        i = self.idx_fns(old)[0](idt)
        e.add_term(s, ('ix', d0.tag), i)
        nm = self.el_name(r)
        e.add_term(s, ('key', m0.dom.get_id()), nm)
        e.add_term(s, ('key', m1.dom.get_id()), nm)
        return [('counter never decreases', st, zint(c1) >= zint(c0)),
                ('a surviving version keeps its row', s, z3.And(i >= 0, i < d0.n, r == self.renotified(z3.Select(d0.arr, i), r))),
                ('a surviving version keeps its security settings', s, self.seceq(z3.Select(m0.map, nm), z3.Select(m1.map, nm)))]

    def guard_ty(self, tid):
        """the type is (a reference to) a struct wrapping a guard of the locked state"""
        P = self.P
        t = P.types[P.strip(tid)]
        if t['k'] != 'adt' or t['enum'] or not t['exp']:
            return False
        return any('MutexGuard' in P.tname(ft) for _, _, fs in P.variants(P.strip(tid)) for _, ft in fs)

    def helpers(self):
        """functions of a shared guard and a version that are not methods of the guard: they are
        used through their contracts inside iterator pipelines"""
        P = self.P
        out = {}
        for i, f in enumerate(P.fns):
            b = f['body']
            if not b or not f['name'].startswith('pizauth::') or '{closure' in f['name']:
                continue
            tys = [b['locals'][n + 1] for n in range(b['argc'])]
            gs = [t for t in tys if self.guard_ty(t)]
            if not gs or any(P.types[t]['k'] == 'ref' and P.types[t]['mut'] for t in tys):
                continue
            if any(P.types[t]['k'] != 'ref' for t in gs):
                continue
            ids = [t for t in tys if P.strip(t) == self.idty]
            if not ids or self.guard_ty(tys[0]):
                continue
            out[i] = None
        return out

    def config_fns(self):
        """functions returning Result<configuration, _>"""
        P = self.P
        out = []
        for i, f in enumerate(P.fns):
            b = f['body']
            if not b or not f['name'].startswith('pizauth::') or '{closure' in f['name']:
                continue
            t = P.types[P.strip(b['locals'][0])]
            if t['k'] == 'adt' and t['name'].endswith('result::Result') and P.strip(t['args'][0]) == self.confty:
                out.append(i)
        return out

    def config_contract(self, eng, fid, args, st):
        """assumed by callers, proved of the function itself: the result is an error or some
        configuration in which every account is stored under its own name"""
        M = eng.models
        rt = self.P.fns[fid]['body']['locals'][0]
        s2 = st.copy()
        c = self.fresh_config(st, 'conf')
        er = z3.Const(fresh_name('conferr'), Str)
        eng.event(st, 'config', ok=True, conf=c)
        eng.event(s2, 'config', ok=False, err=er)
        return [(st, Ret(M.ok(c, rt))), (s2, Ret(M.err(Nat('err', msg=Rope([er])), rt)))]

    def fresh_config(self, st, name):
        e = self.e
        c = e.fresh(st, self.confty, name)
        self.assume_config(st, c)
        return c

    def assume_config(self, st, c):
        mp = c.f[self.faccts]
        self.e.add_uni(st, ('key', mp.dom.get_id()), lambda s, k: Implies(z3.Select(mp.dom, k), self.a_name(z3.Select(mp.map, k)) == k))

    # hook for Eng.lock
    def lock_content(self, eng, st, name, tid):
        if self.P.strip(tid) != self.ls:
            return None
        eng.models.toldat_reset(st)
        v = self.fresh(st, 'S')
        for ev in st.tr:
            if ev.k == 'unlock' and ev.name == name and ev.content is not None:
                self.freeze(st, ev.content)
                self.rely(st, ev.content, v)
        if not any(ev.k == 'lock' and ev.name == name for ev in st.tr):
            for t in st.gr.get('ids', ()):
                eng.assume(st, t >= 0, t < zint(self.parts(v)[0]))
        return v

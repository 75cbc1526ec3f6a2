"""Candidate invariants of the loops that read a configuration: where the value of a setting comes
from, what is known of a URI, and what has been checked of the accounts seen so far."""
import re
import z3
from values import *
from models import F, I, B, SeqM
from loopinv import Cand, Snap

URL_OK = F('url_ok', Str, B)


def given(name):
    """the configuration gives this setting, and this is the text it gives"""
    return F('given:' + name, Str, B)


def given_time(name):
    return F('giventime:' + name, I, B)


def given_flag(name):
    return F('givenflag:' + name, B, B)(z3.BoolVal(True))


def snake(n):
    return re.sub(r'(?<!^)([A-Z])', r'_\1', n).lower()


def scheme(ctx_sort, t):
    return F('url_scheme', ctx_sort, Str)(F('url_of', Str, ctx_sort)(t))


def url_sort(P):
    for i, t in enumerate(P.types):
        if t.get('k') == 'adt' and t['name'].endswith('::Url'):
            return P.sort(i)
    return None


def http_uri(P, t):
    us = url_sort(P)
    return z3.And(URL_OK(t), z3.Or(scheme(us, t) == lit('http'), scheme(us, t) == lit('https')))


def span_variants(P, tid):
    """[(index, name)] of the variants of an enum that carry a single position in the file"""
    t = P.types[P.strip(tid)]
    if t.get('k') != 'adt':
        return []
    vs = P.variants(P.strip(tid))
    if len(vs) < 5:
        return []
    return [(n, v[0], v[2][0][1]) for n, v in enumerate(vs) if len(v[2]) == 1 and P.tname(P.strip(v[2][0][1])) == 'Span']


def gen(L):
    def mk(eng, fid, fr, s0, T):
        if not eng.P.fns[fid]['name'].startswith('pizauth::config::'):
            return []
        return ConfGen(eng, L, fid, fr, s0, T).run()
    return mk


class ConfGen:
    def __init__(self, eng, L, fid, fr, s0, T):
        self.e, self.L, self.fid, self.fr, self.s0, self.T = eng, L, fid, fr, s0, T
        self.P = eng.P
        self.out = []

    def kind(self, tid):
        """'s' / 't' / 'os' / 'oos' / 'ot' by the type of a value"""
        P = self.P
        t = P.types[P.strip(tid)]
        if t.get('k') == 'adt' and t['name'].endswith('option::Option'):
            k = self.kind(t['args'][0])
            return 'o' + k if k else None
        if P.sort(tid) == Str:
            return 's'
        if P.tname(P.strip(tid)) == 'Duration':
            return 't'
        return None

    def run(self):
        e, P, s0 = self.e, self.P, self.s0
        iters = [l for l, v in s0.store.items() if l in self.T and isinstance(v, Nat) and v.k == 'iter']
        items, maps = [], []
        for it in iters:
            try:
                sq = e.models.src_seq(s0, s0.store[it])
            except Exception:
                continue
            if isinstance(sq, SeqS) and sq.et is not None and span_variants(P, sq.et):
                items.append((it, sq))
            elif isinstance(sq, SeqM) and P.strip(sq.mv.vt) == self.L.accty and not s0.store[it].ops:
                maps.append((it, sq))
        kinds = {}
        for loc, v in s0.store.items():
            if loc[0] != self.fr or v is MOVED or not isinstance(v, (Agg, Dt)) or v.tid is None:
                continue
            k = self.kind(v.tid)
            if k:
                kinds[loc] = k
        for loc, k in kinds.items():
            if loc in self.T and k in ('os', 'ot', 'oos'):
                for it, sq in items:
                    self.setting(loc, k, it, sq)
                if k == 'os':
                    self.uri(loc)
        for loc, v in s0.store.items():
            if loc in self.T and isinstance(v, MapV) and P.strip(v.vt) == self.L.accty:
                self.accounts(loc)
        for it, sq in maps:
            for loc, k in kinds.items():
                if loc not in self.T and k in ('oos', 'os'):
                    for tls in (True, False):
                        self.checked(it, sq, loc, k, tls)
        return self.out

    def add(self, name, goals, assume):
        self.out.append(Cand(name, goals, assume))

    def some(self, tid):
        return [n for n, x in enumerate(self.P.variants(tid)) if x[0] == 'Some'][0]

    def opt(self, v):
        """(is there a value, the value)"""
        i = self.some(v.tid)
        c = self.e.is_variant(v, i)
        return zbool(c), (None if c is False else self.e.field(v, 0, i))

    # ---- what the item just handled says -------------------------------------
    def facts(self, s, it, sq):
        e, P = self.e, self.P
        k = zint(s.store[it].pos)
        r = z3.Select(sq.arr, z3.simplify(k - 1))
        row = e.from_term(r, sq.et)
        for n, name, st in span_variants(P, sq.et):
            c = z3.And(k >= 1, zbool(e.is_variant(row, n)))
            sp = e.to_term(e.field(row, 0, n), st)
            txt = F('span_str', sp.sort(), Str)(sp)
            e.assume(s, z3.Implies(c, z3.And(given(name)(F('decoded', Str, Str)(txt)), given_time(name)(F('time_of', Str, I)(txt)), given_flag(name))))

    def setting(self, loc, k, it, sq):
        P = self.P
        for n, name, _ in span_variants(P, sq.et):
            def ok(s, name=name):
                v = s.store[loc]
                c, x = self.opt(v)
                if x is None:
                    return z3.BoolVal(True)
                if k == 'oos':
                    c2, y = self.opt(x)
                    return z3.Implies(z3.And(c, c2), given(name)(rope(y).term())) if y is not None else z3.BoolVal(True)
                return z3.Implies(c, given(name)(rope(x).term()) if k == 'os' else given_time(name)(zint(x)))

            def none(s, name=name):
                c, x = self.opt(s.store[loc])
                return z3.Implies(z3.And(c, z3.Not(self.opt(x)[0])), given_flag(name)) if x is not None else z3.BoolVal(True)
            for f, what in ((ok, 'as given for'),) + (((none, 'none only with'),) if k == 'oos' else ()):
                def goal(s0, s, f=f):
                    s = s.copy()
                    self.facts(s, it, sq)
                    return [(s, f(s))]
                self.add(f'{loc[1]} is {what} {name}', goal, lambda s0, st, f=f: self.e.assume(st, f(st)))

    def uri(self, loc):
        def ok(s):
            c, x = self.opt(s.store[loc])
            return z3.Implies(c, http_uri(self.P, rope(x).term())) if x is not None else z3.BoolVal(True)
        self.add(f'{loc[1]} is an HTTP URI', lambda s0, s: [(s, ok(s))], lambda s0, st: self.e.assume(st, ok(st)))

    # ---- the table of accounts -------------------------------------------------
    def accounts(self, loc):
        e, L = self.e, self.L
        v0 = self.s0.store[loc]
        preds = [('every account is stored under its name', lambda k, a: L.a_name(a) == k)] + [
            (f'the {f} of every account is an HTTP URI', lambda k, a, f=f: http_uri(self.P, L.a_field(a, f))) for f in ('auth_uri', 'redirect_uri', 'token_uri')]
        for name, pr in preds:
            def goal(s0, s, pr=pr):
                s = s.copy()
                mv = s.store[loc]
                k = z3.Const(fresh_name('k'), Str)
                for m in (mv, v0):
                    e.models.map_key_term(s, m, k)
                return [(s, z3.Implies(z3.Select(mv.dom, k), pr(k, z3.Select(mv.map, k))))]

            def assume(s0, st, pr=pr):
                mv = st.store[loc]
                e.add_uni(st, ('key', mv.dom.get_id()), lambda s, k: z3.Implies(z3.Select(mv.dom, k), pr(k, z3.Select(mv.map, k))))
            self.add(f'{name} ({loc[1]})', goal, assume)

    def checked(self, it, sq, loc, k, tls):
        e, L, mv = self.e, self.L, sq.mv
        us = url_sort(self.P)

        def enabled(s):
            c, x = self.opt(s.store[loc])
            if k == 'os':
                return c
            return z3.Not(z3.And(c, z3.Not(self.opt(x)[0]))) if x is not None else z3.BoolVal(True)

        def pr(h, s, key):
            n, KE, KI, tag = e.models.map_enum(s, mv)
            e.models.map_key_term(s, mv, key)
            e.add_term(s, ('ix', tag), KI(key))
            isS = scheme(us, L.a_field(z3.Select(mv.map, key), 'redirect_uri')) == lit('https')
            return z3.Implies(z3.And(z3.Select(mv.dom, key), KI(key) < zint(h.store[it].pos), isS if tls else z3.Not(isS)), enabled(self.s0))

        def goal(s0, s):
            s = s.copy()
            key = z3.Const(fresh_name('k'), Str)
            return [(s, pr(s, s, key))]

        def assume(s0, st):
            h = Snap(st)
            e.add_uni(st, ('key', mv.dom.get_id()), lambda s, key: pr(h, s, key))
        self.add(f'{loc[1]} is enabled for the accounts seen so far ({"https" if tls else "http"})', goal, assume)

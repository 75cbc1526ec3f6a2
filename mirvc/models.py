"""Assumed contracts of library functions (std, serde_json, ureq, url, chrono, ...).

Each handler states what the verifier takes for granted about one external function.  Functions
without a handler are treated as arbitrary: any result of the right type, `taint` recorded."""
import re
import z3
from mir import Str, Unsupported
from values import *

NS = 10**9
I = z3.IntSort()
B = z3.BoolSort()
FNS = {}


def F(name, *sorts):
    """the uninterpreted function of that name"""
    f = z3.Function(name, *sorts)
    FNS.setdefault(name, f)
    return f


ITOA = F('itoa', I, Str)
STRHAS = {}
BEFORE = {}
AFTER = {}
IDX = {}


def chfun(tab, nm, c, out):
    k = (nm, c)
    if k not in tab:
        tab[k] = F(f'{nm}:{c!r}', Str, out)
    return tab[k]


def HAS(c):
    return chfun(STRHAS, 'has', c, B)


def BEF(c):
    return chfun(BEFORE, 'before', c, Str)


def AFT(c):
    return chfun(AFTER, 'after', c, Str)


def IDXF(c):
    return chfun(IDX, 'firstidx', c, I)


def _lit_chars(s, t):
    return [f(t) == (c in s) for (_, c), f in STRHAS.items()]


LIT_EXTRA.append(_lit_chars)
LIT_SIZES.append(lambda: len(STRHAS))
PREFIX = F('starts_with', Str, Str, B)
SUFFIX = F('ends_with', Str, Str, B)
LOWER = F('lowercase', Str, Str)
TRIM = F('trim', Str, Str)
TRIMEND = F('trim_end', Str, Str)
TRIMSTART = F('trim_start', Str, Str)
EQIGN = F('eq_ignore_case', Str, Str, B)
UTF8 = F('utf8', Str, B)
HEADER_HOST = F('value_of_host_header', Str, B)
SUBSTR = F('substr', Str, I, I, Str)
JSON_OK = F('json_ok', Str, B)
PARSEU = F('parse_u64', Str, I)
PARSEU_OK = F('parse_u64_ok', Str, B)
B64 = F('b64url', Str, Str)
SHA = F('sha256', Str, Str)
DECRYPT_OK = F('aead_ok', Str, Str, Str, B)
DECRYPT = F('aead_open', Str, Str, Str, Str)
ENCRYPT = F('aead_seal', Str, Str, Str, Str)


def canon(name):
    n = re.sub(r"'[a-z_]+\b,? ?", '', name)
    if n.startswith('<'):
        # <X as Y>::m
        depth, i = 0, 0
        for i, ch in enumerate(n):
            if ch == '<':
                depth += 1
            elif ch == '>' and n[i - 1] != '-':
                depth -= 1
                if depth == 0:
                    break
        inner, rest = n[1:i], n[i + 1:]
        parts = _split_as(inner)
        x = _base(parts[0])
        if len(parts) > 1:
            return f'{x} as {_base(parts[1])}{_strip(rest)}'
        return x + _strip(rest)
    m = re.search(r'<impl (.*)>::([A-Za-z0-9_]+)$', n)
    if m:
        inner, meth = m.group(1), m.group(2)
        if ' for ' in inner:
            t, x = inner.split(' for ', 1)
            return f'{_base(x)} as {_base(t)}::{meth}'
        return f'{_base(inner)}::{meth}'
    n = _strip(n)
    p = n.split('::')
    return '::'.join(p[-2:])


def _split_as(s):
    d = 0
    for i, c in enumerate(s):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return [s[:i], s[i + 4:]]
    return [s]


def _strip(s):
    out, d = '', 0
    i = 0
    while i < len(s):
        if s.startswith('::<', i):
            d += 1
            i += 3
            continue
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out += c
        i += 1
    return out


def _base(s):
    s = s.strip()
    while s.startswith('&'):
        s = s[1:].strip()
        if s.startswith('mut '):
            s = s[4:]
    if s.startswith('[') or s.startswith('('):
        return s
    s = _strip(s)
    return s.split('::')[-1]


HANDLERS = {}
OVERRIDES = {}


def m(*names):
    def d(fn):
        for n in names:
            HANDLERS[n] = fn
        return fn
    return d


def ov(*names):
    def d(fn):
        for n in names:
            OVERRIDES[n] = fn
        return fn
    return d


class Models:
    DMAX = (1 << 64) * NS - 1
    IMIN, IMAX = -(1 << 63) * NS, ((1 << 63) - 1) * NS + NS - 1
    SMIN, SMAX = -(1 << 63) * NS, ((1 << 63) - 1) * NS + NS - 1

    def __init__(self, eng):
        self.e = eng
        self.P = eng.P
        self.canon = {}
        self.used = {}
        self.unknown_used = {}
        self.enums = {}
        self.displays = None

    # ---- dispatch ------------------------------------------------------
    def key(self, f):
        n = f['name']
        if n not in self.canon:
            self.canon[n] = canon(n)
        return self.canon[n]

    def override(self, f, args):
        k = self.key(f)
        h = OVERRIDES.get(k)
        if h is None and k.endswith(' as Clone::clone'):
            h = ident
        if h is None and len(args) == 2 and k.endswith(('PartialEq::eq', 'PartialEq::ne')) and 'option::Option<' in f['full'].split(' as ')[0]:
            h = self.option_eq(k, args)
        if h is None and k.endswith(' as Debug::fmt'):
            h = debug_fmt
        if h is None and '::serialize' in f['name'] or '::deserialize' in f['name'] and f['body']:
            h = None
        if h is None:
            return None
        return lambda st, f, a: self.wrap(st, h(self, st, f, a))

    def option_eq(self, k, args):
        """derived equality of an Option of a plain type is equality of values"""
        P = self.P
        vs = [self.e.deref(None, x) if not isinstance(x, MutRef) else None for x in args]
        tid = None
        for v in vs:
            if not isinstance(v, (Dt, Agg)) or v.tid is None:
                return None
            t = P.types[P.strip(v.tid)]
            if t['k'] != 'adt' or not t['name'].endswith('option::Option'):
                return None
            x = P.strip(t['args'][0])
            if not (P.is_str(x) or P.types[x]['k'] in ('int', 'bool', 'char')):
                return None
            if tid is None:
                tid = P.strip(v.tid)
            elif P.sort(P.strip(v.tid)) != P.sort(tid):
                return None

        def h(M, st, f, a):
            t = norm(M.e.to_term(vs[0], tid) == M.e.to_term(vs[1], tid))
            return Not(t) if k.endswith('ne') else t
        return h

    def wrap(self, st, r):
        if isinstance(r, list):
            return r
        from engine import Ret
        return [(st, Ret(r))]

    def call(self, st, fid, f, args):
        k = self.key(f)
        h = HANDLERS.get(k)
        if h is None:
            for suf, hh in SUFFIXES:
                if k.endswith(suf):
                    h = hh
                    break
        if h is None:
            return self.unknown(st, k, args, self.e.cur_dty)
        self.used[k] = self.used.get(k, 0) + 1
        try:
            return self.wrap(st, h(self, st, f, args))
        except Soft as ex:
            return self.unknown(st, k + ': ' + str(ex), args, self.e.cur_dty)

    def unknown(self, st, name, args, dty):
        e = self.e
        if not e.lenient:
            raise Unsupported('no model for ' + name)
        self.unknown_used[name] = self.unknown_used.get(name, 0) + 1
        e.taint(st, name)
        for n, a in enumerate(args):
            if isinstance(a, MutRef):
                cur = e.get_path(st, e.load(st, a.loc), a.path)
                if isinstance(cur, Nat) and cur.k in ('mutex', 'guard', 'condvar'):
                    raise Unsupported('unknown function mutates ' + cur.k + ': ' + name)
                t = e.cur_atys[n] if n < len(e.cur_atys) and e.cur_atys[n] is not None else None
                if t is None:
                    raise Unsupported('unknown function with mutable argument: ' + name)
                e.store_to(st, a.loc, a.path, e.fresh(st, self.P.strip(t), 'havoc'))
        if dty is None:
            raise Unsupported('unknown function, unknown type: ' + name)
        if self.P.types[dty]['k'] == 'never':
            from engine import Stop
            return [(st, Stop('diverge'))]
        v = e.fresh(st, dty, 'ext:' + name.split('::')[-1])
        e.event(st, 'unknown', name=name, args=args)
        return self.wrap(st, v)

    # ---- construction helpers -----------------------------------------
    def variant(self, tid, name):
        t = self.P.strip(tid)
        for i, (n, _, _) in enumerate(self.P.variants(t)):
            if n == name:
                return t, i
        raise Unsupported(f'variant {name} of {self.P.tname(tid)}')

    def mk(self, tid, name, *fs):
        if tid is None:
            raise Unsupported('result type unknown')
        t, i = self.variant(tid, name)
        return Agg(t, i, fs)

    def dty(self):
        d = self.e.cur_dty
        if d is None:
            raise Unsupported('result type unknown')
        return d

    def some(self, v, tid=None):
        return self.mk(tid or self.dty(), 'Some', v)

    def none(self, tid=None):
        return self.mk(tid or self.dty(), 'None')

    def ok(self, v, tid=None):
        return self.mk(tid or self.dty(), 'Ok', v)

    def err(self, v, tid=None):
        return self.mk(tid or self.dty(), 'Err', v)

    def errty(self, tid=None):
        t, i = self.variant(tid or self.dty(), 'Err')
        return self.P.variants(t)[i][2][0][1]

    def okty(self, tid=None):
        t, i = self.variant(tid or self.dty(), 'Ok')
        return self.P.variants(t)[i][2][0][1]

    def somety(self, tid=None):
        t, i = self.variant(tid or self.dty(), 'Some')
        return self.P.variants(t)[i][2][0][1]

    def unit(self):
        return Agg(None, 0, ())

    def string_ty(self):
        return [n for n, t in enumerate(self.P.types) if t['k'] == 'adt' and t['name'].endswith('string::String')][0]

    def split(self, st, cond, yes, no):
        """fork on cond; yes/no: st -> value"""
        from engine import Ret
        out = []
        for s2, b in self.e.branch(st, cond):
            v = (yes if b else no)(s2)
            if isinstance(v, list):
                out += v
            else:
                out.append((s2, Ret(v)))
        return out

    def ite(self, st, cond, a, b, tid):
        """an enum value that depends on cond, without forking the path"""
        e = self.e
        cond = e.simp(cond)
        k = e.known(st, cond)
        if k is not None:
            return a if k else b
        tid = self.P.strip(tid)
        return IteV(tid, z3.If(cond, e.to_term(a, tid), e.to_term(b, tid)), cond, a, b)

    def okerr(self, st, okv, what='', ev=None):
        """nondeterministic Ok(okv(st)) / Err(fresh)"""
        d = self.dty()
        c = z3.Bool(fresh_name('ok:' + what))
        ety = self.errty(d)
        return self.split(st, c, lambda s: self.ok(okv(s) if callable(okv) else okv, d),
                          lambda s: self.err(self.e.fresh(s, ety, 'err:' + what), d))

    def unitv(self, tid):
        return Agg(self.P.strip(tid), 0, ())

    # ---- strings --------------------------------------------------------
    def strlen(self, v):
        v = rope(v)
        tot = 0
        for p in v.p:
            tot = tot + (len(p) if isinstance(p, str) else STRLEN(p))
        return tot

    def has_char(self, v, c):
        v = rope(v)
        cs = []
        for p in v.p:
            if isinstance(p, str):
                if c in p:
                    return True
            else:
                cs.append(self.has1(p, c))
        return Or(*cs)

    def has1(self, p, c):
        if z3.is_app(p) and p.num_args() == 1:
            n = p.decl().name()
            if n == f'before:{c!r}':
                return False
        return HAS(c)(p)

    def split_first(self, st, v, c):
        """[(st, None | (before, after))] for the first occurrence of char c in rope v"""
        v = rope(v)
        e = self.e
        out = []
        cur = st
        pre = []
        for n, p in enumerate(v.p):
            if isinstance(p, str):
                if c in p:
                    i = p.index(c)
                    out.append((cur, (Rope(pre + [p[:i]]), Rope([p[i + 1:]] + list(v.p[n + 1:])))))
                    return out
                pre.append(p)
                continue
            h = self.has1(p, c)
            nxt = None
            for s2, b in e.branch(cur, h):
                if b:
                    bf, af = BEF(c)(p), AFT(c)(p)
                    self.register_split(s2, p, c)
                    out.append((s2, (Rope(pre + [bf]), Rope([af] + list(v.p[n + 1:])))))
                else:
                    nxt = s2
            if nxt is None:
                return out
            cur = nxt
            pre.append(p)
        out.append((cur, None))
        return out

    def register_split(self, st, p, c):
        bf, af = BEF(c)(p), AFT(c)(p)
        self.e.assume(st, p == CAT(bf, CAT(lit(c), af)), Not(HAS(c)(bf)),
                      STRLEN(p) == STRLEN(bf) + 1 + STRLEN(af), STRLEN(bf) >= 0, STRLEN(af) >= 0)

    def slen_ax(self, st, v):
        for p in rope(v).p:
            if not isinstance(p, str):
                self.e.assume(st, STRLEN(p) >= 0)

    # ---- iterators ------------------------------------------------------
    def iter_of(self, st, v):
        e = self.e
        if isinstance(v, MutRef):
            v = e.deref(st, v)
        if isinstance(v, Nat) and v.k in ('iter', 'incoming'):
            return v
        if isinstance(v, (SeqC, SeqS, SeqT)):
            return Nat('iter', src=v, pos=0, ops=())
        if isinstance(v, Rope):
            return Nat('iter', src=('bytes', v), pos=0, ops=())
        if isinstance(v, MapV):
            return Nat('iter', src=('map', v), pos=0, ops=())
        if isinstance(v, Agg) and v.tid is not None and self.P.types[v.tid].get('name', '').endswith('Range'):
            return v
        raise Unsupported(f'iterate over {v!r}')

    def src_seq(self, st, it):
        """the source as a sequence value, if it is one"""
        s = it.src
        if isinstance(s, (SeqC, SeqS)):
            return s
        if isinstance(s, SeqT):
            n = self.e.seq_len(s)
            self.e.assume(st, n >= 0)
            f = F(f'{s.t.sort().name()}.arr', s.t.sort(), z3.ArraySort(I, self.P.sort(s.et)))
            return SeqS(n, f(s.t), s.et, tag=f'seqt:{s.t.get_id()}')
        if isinstance(s, tuple) and s[0] == 'map':
            return self.map_entries(st, s[1], s[2] if len(s) > 2 else 'kv')
        return None

    def iter_symbolic(self, it):
        if not isinstance(it, Nat) or it.k != 'iter':
            return False
        s = it.src
        if isinstance(s, SeqC):
            return False
        if isinstance(s, (SeqS, SeqT)):
            return True
        if isinstance(s, tuple) and s[0] == 'map':
            return s[1].keys is None
        if isinstance(s, tuple) and s[0] in ('chars', 'bytes'):
            return s[1].lit() is None
        return True

    def widen_iter(self, st, a, name):
        if isinstance(a.src, tuple) and a.src[0] in ('chars', 'bytes', 'split'):
            return a.with_(pos=z3.Int(fresh_name(name + '.pos')))
        p = z3.Int(fresh_name(name + '.pos'))
        n = None
        sq = self.src_seq(st, a)
        if sq is not None:
            n = sq.n if isinstance(sq, SeqM) else self.e.seq_len(sq)
            self.e.assume(st, p >= (a.pos if is_int(a.pos) else 0), p <= n)
        return a.with_(pos=p)

    def map_enum(self, st, mv):
        """enumeration of a map's keys: (n, KE, KI)"""
        e = self.e
        key = mv.dom.get_id()
        if key not in self.enums:
            ks = self.P.sort(mv.kt)
            nm = fresh_name('enum')
            self.enums[key] = (z3.Int(nm + '.n'), z3.Const(nm + '.keys', z3.ArraySort(I, ks)),
                               F(nm + '.idx', ks, I), nm, mv.dom)
        n, KE, KI, nm, dom = self.enums[key]
        mark = ('enum', nm)
        if mark not in st.gr:
            st.gr[mark] = ()
            e.assume(st, n >= 0, n <= 1 << 60)
            if mv.n is not None:
                e.assume(st, zint(mv.n) == n)
            e.add_uni(st, ('ix', nm), lambda s, j: Implies(And(j >= 0, j < n), And(z3.Select(dom, z3.Select(KE, j)), KI(z3.Select(KE, j)) == j)))
            e.add_uni(st, ('key', dom.get_id()), lambda s, k: Implies(z3.Select(dom, k), And(KI(k) >= 0, KI(k) < n, z3.Select(KE, KI(k)) == k)))
        return n, KE, KI, nm

    def map_key_term(self, st, mv, k):
        """register a key at which universally quantified facts about the map are needed"""
        d = mv.dom
        while True:
            self.e.add_term(st, ('key', d.get_id()), k)
            if not (z3.is_app(d) and d.decl().kind() == z3.Z3_OP_STORE):
                return
            d = d.arg(0)

    def map_entries(self, st, mv, what):
        et = None
        if mv.keys is not None:
            out = []
            for k in mv.keys:
                kv = self.e.from_term(k, mv.kt)
                out.append(kv if what == 'k' else (kv, self.map_val(st, mv, k)))
            if what == 'k':
                return SeqC(out, mv.kt)
            if what == 'v':
                return SeqC([x[1] for x in out], mv.vt)
            return SeqC([('pair',) + x for x in out], None)
        n, KE, KI, nm = self.map_enum(st, mv)
        return SeqM(n, KE, mv, what, nm)

    def map_val(self, st, mv, k):
        return self.e.from_term(z3.Select(mv.map, k), mv.vt)

    def seq_item(self, st, sq, i):
        """item i of a (symbolic or concrete) source sequence"""
        e = self.e
        if isinstance(sq, SeqM):
            k = z3.Select(sq.KE, zint(i))
            e.add_term(st, ('ix', sq.nm), zint(i))
            self.map_key_term(st, sq.mv, k)
            kv = e.from_term(k, sq.mv.kt)
            if sq.what == 'k':
                return kv
            vv = self.map_val(st, sq.mv, k)
            if sq.what == 'v':
                return vv
            return ('pair', kv, vv)
        if isinstance(sq, SeqS):
            e.add_term(st, ('ix', sq.tag), zint(i))
        return e.seq_get(sq, i)

    def pairv(self, x, tid):
        if isinstance(x, tuple) and x and x[0] == 'pair':
            return Agg(self.P.strip(tid), 0, x[1:])
        return x

    # run a closure without side effects; -> [(st, value)]
    def pure(self, st, fn, args, dty=None):
        out = []
        from engine import Ret, Stop
        n0 = len(st.tr)
        before = dict(st.store)
        for s2, r in self.e.call_value(fn, args, st, dty=dty):
            if isinstance(r, Ret):
                if any(k in s2.store and s2.store[k] is not v and v is not MOVED and self.e.changed(v, s2.store[k]) for k, v in before.items()):
                    raise Unsupported('closure that changes its environment in an iterator over a symbolic sequence')
                if len(s2.tr) != n0 and any(ev.k not in self.e.NOISE for ev in s2.tr[n0:]):
                    raise Unsupported('closure with effects in an iterator over a symbolic sequence: ' + ' '.join(ev.k for ev in s2.tr[n0:]))
                out.append((s2, r.v))
            elif isinstance(r, Stop) and r.why == 'infeasible':
                continue
            else:
                ns, self.e.nosolve = self.e.nosolve, False
                f = self.e.feasible(s2)
                self.e.nosolve = ns
                if f:
                    raise Unsupported(f'closure may not return: {r}')
        return out

    def pred_at(self, st, fns, sq, j):
        """[(delta condition, item value | None)] : result of the op pipeline at index j"""
        e = self.e
        base = st.copy()
        n0 = len(base.pc)
        ns, e.nosolve = e.nosolve, True
        try:
            return self._pred_at(base, n0, fns, sq, j)
        finally:
            e.nosolve = ns

    def _pred_at(self, base, n0, fns, sq, j):
        e = self.e
        item = self.seq_item(base, sq, j)
        todo = [(base, item)]
        for kind, fn in fns:
            nxt = []
            for s, it in todo:
                if it is None:
                    nxt.append((s, None))
                    continue
                for s2, v in self.apply_op(s, kind, fn, it):
                    nxt.append((s2, v))
            todo = nxt
        res = []
        for s, it in todo:
            res.append((And(*s.pc[n0:]) if len(s.pc) > n0 else True, it, s))
        return res

    def apply_op(self, st, kind, fn, it):
        e = self.e
        sv = e.inpipe
        e.inpipe = (self.epoch(fn),) + e.inpipe
        try:
            return self._apply_op(st, kind, fn, it)
        finally:
            e.inpipe = sv

    epochs = {}

    def epoch(self, fn):
        """identifies one construction of a pipeline stage"""
        k = id(fn)
        if k not in self.epochs:
            self.epochs[k] = (len(self.epochs), fn)
        return self.epochs[k][0]

    def _apply_op(self, st, kind, fn, it):
        """one pipeline stage on one item: [(st, item or None when dropped)]"""
        e = self.e
        if kind == 'map':
            return self.pure(st, fn, [it])
        if kind in ('filter', 'take_while', 'skip_while'):
            out = []
            for s2, v in self.pure(st, fn, [it]):
                for s3, b in e.branch(s2, v):
                    out.append((s3, it if b else None))
            return out
        if kind == 'filter_map':
            out = []
            for s2, v in self.pure(st, fn, [it]):
                out += self.opt_cases(s2, v)
            return out
        if kind in ('copied', 'cloned'):
            return [(st, it)]
        raise Unsupported('iterator stage ' + kind)

    def opt_cases(self, st, v):
        """Option value -> [(st, payload or None)]"""
        e = self.e
        if isinstance(v, Agg):
            return [(st, v.f[0] if v.f else None)]
        _, si = self.variant(v.tid, 'Some')
        out = []
        for s2, b in e.branch(st, e.is_variant(v, si)):
            out.append((s2, e.field(v, 0, si) if b else None))
        return out

    def it_next(self, st, it):
        """[(st, item|None, it')]"""
        e = self.e
        src = it.src
        if isinstance(src, tuple) and src[0] == 'range':
            _, lo, hi = src
            out = []
            for s2, b in e.branch(st, norm(zint(lo) + it.pos < zint(hi)) if not (is_int(lo) and is_int(hi) and is_int(it.pos)) else lo + it.pos < hi):
                if b:
                    out += self.run_ops(s2, it.with_(pos=it.pos + 1), lo + it.pos)
                else:
                    out.append((s2, None, it))
            return out
        if isinstance(src, tuple) and src[0] == 'chars':
            return self.chars_next(st, it)
        if isinstance(src, tuple) and src[0] == 'bytes' and src[1].lit() is not None:
            s = src[1].lit()
            if it.pos >= len(s):
                return [(st, None, it)]
            return self.run_ops(st, it.with_(pos=it.pos + 1), ord(s[it.pos]))
        if isinstance(src, tuple) and src[0] == 'split':
            return self.split_next(st, it)
        sq = self.src_seq(st, it)
        if sq is None:
            raise Unsupported(f'next on {src!r}')
        if isinstance(sq, SeqC):
            if it.pos >= len(sq.e):
                return [(st, None, it)]
            return self.run_ops(st, it.with_(pos=it.pos + 1), sq.e[it.pos])
        n = sq.n
        out = []
        if not it.ops or all(k in ('map', 'copied', 'cloned') for k, _ in it.ops):
            for s2, b in e.branch(st, norm(z3.simplify(zint(it.pos) < zint(n)))):
                if b:
                    x = self.seq_item(s2, sq, it.pos)
                    out += self.run_ops(s2, it.with_(pos=it.pos + 1), x)
                else:
                    out.append((s2, None, it.with_(pos=n)))
            return out
        raise Unsupported('filtering iterator stepped over a symbolic sequence')

    def run_ops(self, st, it, x):
        """push item x through it.ops; dropped -> continue with the next source item"""
        out = []
        todo = [(st, x, 0)]
        while todo:
            s, v, k = todo.pop(0)
            if k == len(it.ops):
                out.append((s, v, it))
                continue
            kind, fn = it.ops[k]
            if kind == 'enumerate':
                raise Unsupported('enumerate')
            for s2, y in self.apply_op_eff(s, kind, fn, v):
                if y is None:
                    if kind == 'take_while':
                        out.append((s2, None, it.with_(src=SeqC((), None), pos=0)))
                    else:
                        out += self.it_next(s2, it)
                else:
                    todo.append((s2, y, k + 1))
        return out

    def apply_op_eff(self, st, kind, fn, it):
        if kind == 'map' or kind == 'filter_map' or kind in ('filter', 'take_while'):
            from engine import Ret
            out = []
            if kind == 'filter' or kind == 'take_while':
                for s2, r in self.e.call_value(fn, [it], st):
                    if not isinstance(r, Ret):
                        raise Unsupported(f'closure outcome {r}')
                    for s3, b in self.e.branch(s2, r.v):
                        out.append((s3, it if b else None))
                return out
            for s2, r in self.e.call_value(fn, [it], st):
                if not isinstance(r, Ret):
                    raise Unsupported(f'closure outcome {r}')
                if kind == 'map':
                    out.append((s2, r.v))
                else:
                    out += self.opt_cases(s2, r.v)
            return out
        return self.apply_op(st, kind, fn, it)

    def drain_all(self, st, it):
        """all items of a concrete iterator: [(st, [items])]"""
        out = []
        todo = [(st, it, [])]
        while todo:
            s, i, acc = todo.pop()
            if len(acc) > 90:
                raise Unsupported('iterator too long')
            for s2, x, i2 in self.it_next(s, i):
                if x is None:
                    out.append((s2, acc))
                else:
                    todo.append((s2, i2, acc + [x]))
        return out

    # find/any/position/all/min over symbolic sequences -------------------
    def find_index(self, st, it, fn, negate=False, byval=True):
        """first index j>=pos whose (mapped, filtered) item satisfies fn.
        -> [(st, j|None, item|None)] with the universal fact recorded in the state"""
        e = self.e
        sq = self.src_seq(st, it)
        if sq is None:
            raise Unsupported('search in ' + repr(it.src))
        fns = [x for x in it.ops]
        if fn is not None:
            fns = fns + [('filter', fn)]
        gen = self.generic(st, fns, sq)
        if gen is not None:
            key = ('find', vkey(gen[0]), vkey(gen[1]), self.seqkey(sq), str(it.pos))
        else:
            key = ('find', self.fnkey(fns), self.seqkey(sq), str(it.pos))
        tag = sq.nm if isinstance(sq, SeqM) else sq.tag
        hit = st.memo.get(key)
        if hit is not None:
            j = hit
            if j is None:
                return [(st, None, None)]
            out = []
            for s2, x in self.item_at(st, sq, it.ops, j):
                out.append((s2, j, x))
            return out
        out = []
        n = sq.n
        snap = (st.store, st.held)
        st.store = dict(st.store)
        # found
        s1 = st.copy()
        j = z3.Int(fresh_name('j'))
        e.assume(s1, j >= zint(it.pos), j < n)
        e.add_term(s1, ('ix', tag), j)
        first = self.never(sq, fns, lambda t, j=j: And(t >= zint(it.pos), t < j), gen, snap)
        for s2, x in self.stages(s1, sq, fns, j):
            if x is None:
                continue
            if e.feasible(s2):
                s2.memo[key] = j
                e.add_uni(s2, ('ix', tag), first)
                out.append((s2, j, x))
        # not found
        s0 = st
        e.add_uni(s0, ('ix', tag), self.never(sq, fns, lambda t: And(t >= zint(it.pos), t < n), gen, snap))
        s0.memo[key] = None
        if e.feasible(s0):
            out.append((s0, None, None))
        return out

    GJ = z3.Int('generic_index')

    def generic(self, st, fns, sq):
        """(accept, reject) conditions of the pipeline at a generic index; None when evaluating it
        introduces new constants (they must differ per index)"""
        from values import cnt_now
        c0 = cnt_now()
        s = st.copy()
        s.uni = ()
        s.gr = {}
        if self.e.nosolve:
            return None
        rs = self.pred_at(s, fns, sq, self.GJ)
        if cnt_now() != c0:
            return None
        acc = Or(*[d for d, x, _ in rs if x is not None])
        rej = Or(*[d for d, x, _ in rs if x is None])
        self.e.keepalive += [x for x in (acc, rej) if z3.is_expr(x)]
        return acc, rej

    def never(self, sq, fns, rng, gen=None, snap=None):
        def fact(st, t):
            g = rng(t)
            if self.e.known(st, norm(z3.simplify(zbool(g)))) is False:
                return True
            if gen is not None:
                rej = gen[1]
                return Implies(g, z3.substitute(rej, (self.GJ, zint(t))) if z3.is_expr(rej) else rej)
            s = self.at_snap(st, snap)
            rs = self.pred_at(s, fns, sq, t)
            return Implies(g, Or(*[d for d, x, _ in rs if x is None]))
        return fact

    def at_snap(self, st, snap):
        """st with the store of the time the pipeline ran"""
        c = st.copy()
        c.uni = ()
        if snap is not None:
            c.store, c.held = dict(snap[0]), snap[1]
        return c

    def stages(self, st, sq, fns, j):
        todo = [(st, self.seq_item(st, sq, j))]
        for kind, fn in fns:
            nxt = []
            for s, x in todo:
                if x is None:
                    nxt.append((s, None))
                else:
                    nxt += self.apply_op(s, kind, fn, x)
            todo = nxt
        return todo

    def item_at(self, st, sq, ops, j):
        return [(s, x) for s, x in self.stages(st, sq, list(ops), j) if x is not None]

    def fnkey(self, fns):
        return tuple((k, vkey(f)) for k, f in fns)

    def seqkey(self, sq):
        for x in ([sq.mv.map, sq.KE] if isinstance(sq, SeqM) else [sq.arr]):
            KEEP.setdefault(x.get_id(), x)
        if isinstance(sq, SeqM):
            return ('m', sq.nm, sq.what, sq.mv.map.get_id())
        return ('s', sq.arr.get_id(), str(sq.n))

    def chars_next(self, st, it):
        """next char of a string; rope pieces: literal chars are concrete"""
        r, e = it.src[1], self.e
        if not is_int(it.pos):
            raise Unsupported('chars at symbolic position')
        off = it.pos
        # position counts concrete characters consumed of a literal prefix
        if not r.p:
            return [(st, None, it)]
        p = r.p[0]
        if isinstance(p, str):
            if off < len(p):
                return self.run_ops(st, it.with_(pos=off + 1), ord(p[off]))
            return self.it_next(st, it.with_(src=('chars', Rope(r.p[1:])), pos=0))
        if len(r.p) == 1:
            # characters of one unknown string: some, until it ends
            t, out = p, []
            self.e.assume(st, STRLEN(t) >= 0)
            more = F('char_at', Str, I, I)(t, z3.IntVal(off))
            for s2, b in self.e.branch(st, norm(STRLEN(t) > off if off == 0 else F('has_char_at', Str, I, B)(t, z3.IntVal(off)))):
                if not b:
                    out.append((s2, None, it))
                else:
                    self.e.assume(s2, more >= 0, more <= 0x10ffff)
                    out += self.run_ops(s2, it.with_(pos=off + 1), more)
            return out
        raise Soft('chars of a symbolic string')

    def split_next(self, st, it):
        _, v, c, limit = it.src
        if v is None:
            return [(st, None, it)]
        if limit == 1:
            return self.run_ops(st, it.with_(src=('split', None, c, 0)), v)
        out = []
        for s2, r in self.split_first(st, v, c):
            if r is None:
                out += self.run_ops(s2, it.with_(src=('split', None, c, 0)), v)
            else:
                out += self.run_ops(s2, it.with_(src=('split', r[1], c, limit - 1 if limit else None)), r[0])
        return out

    # display -------------------------------------------------------------
    def display(self, st, v, tid):
        """[(st, Rope)] for Display of v"""
        e, P = self.e, self.P
        if isinstance(v, MutRef):
            v = e.deref(st, v)
        if isinstance(v, Rope):
            return [(st, v)]
        t = P.types[P.strip(tid)] if tid is not None else {'k': '?'}
        if isinstance(v, bool):
            return [(st, Rope(['true' if v else 'false']))]
        if is_int(v) and t['k'] == 'char':
            return [(st, Rope([chr(v)]))]
        if is_int(v):
            return [(st, Rope([str(v)]))]
        if z3.is_expr(v) and v.sort() == I:
            if t['k'] == 'char':
                return [(st, Rope([F('chr', I, Str)(v)]))]
            return [(st, Rope([ITOA(v)]))]
        if isinstance(v, Nat) and 'msg' in v.a:
            return [(st, rope(v.a['msg']))]
        if t['k'] == 'adt' and t['name'].startswith('pizauth::'):
            fid = self.display_fn(t['name'])
            if fid is not None:
                loc = ('heap', fresh_loc('fmt'))
                st.store[loc] = Rope([])
                from engine import Ret
                out = []
                for s2, r in e.exec_fn(fid, [v, MutRef(loc)], st):
                    if not isinstance(r, Ret):
                        raise Unsupported('Display panics')
                    out.append((s2, s2.store[loc]))
                return out
        if isinstance(v, Dt) and t['k'] == 'adt' and t['name'] == 'url::Url':
            return [(st, self.urlstr(v))]
        if isinstance(v, (Dt, Agg)):
            tm = e.to_term(v, tid)
            return [(st, Rope([F('display:' + tm.sort().name(), tm.sort(), Str)(tm)]))]
        return [(st, Rope([z3.Const(fresh_name('display'), Str)]))]

    def display_fn(self, name):
        for i, f in enumerate(self.P.fns):
            if f['body'] and f['name'] == f'<{name} as std::fmt::Display>::fmt':
                return i
        return None

    def urlstr(self, u):
        return Rope([F('url_str', u.t.sort(), Str)(u.t)])


class SeqM:
    """entries of a map in iteration order"""
    __slots__ = ('n', 'KE', 'mv', 'what', 'nm')

    def __init__(self, n, KE, mv, what, nm):
        self.n, self.KE, self.mv, self.what, self.nm = n, KE, mv, what, nm


class Soft(Exception):
    """the model does not cover this use: fall back to an arbitrary result"""


KEEP = {}


def vkey(v):
    if z3.is_expr(v):
        KEEP.setdefault(v.get_id(), v)
        return ('z', v.get_id())
    if isinstance(v, Rope):
        return ('r',) + tuple(x if isinstance(x, str) else x.get_id() for x in v.p)
    if isinstance(v, Agg):
        return ('a', v.tid, v.var) + tuple(vkey(x) for x in v.f)
    if isinstance(v, Dt):
        return ('d', v.t.get_id())
    if isinstance(v, FnVal):
        return ('f', v.fid)
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, MutRef):
        return ('mr', repr(v))
    if isinstance(v, Nat):
        return ('n', v.k) + tuple((k, vkey(x)) for k, x in sorted(v.a.items()))
    if isinstance(v, (SeqC,)):
        return ('sc',) + tuple(vkey(x) for x in v.e)
    if isinstance(v, SeqS):
        return ('ss', v.arr.get_id(), str(v.n))
    if isinstance(v, SeqT):
        return ('st', v.t.get_id())
    if isinstance(v, MapV):
        return ('m', v.dom.get_id(), v.map.get_id())
    if isinstance(v, tuple):
        return tuple(vkey(x) for x in v)
    return ('?', id(v))


# =========================================================================
# handlers
# =========================================================================
def ident(M, st, f, a):
    v = a[0]
    if isinstance(v, MutRef):
        return M.e.deref(st, v)
    return v


def debug_fmt(M, st, f, a):
    return M.ok(M.unit())


SUFFIXES = [
    (' as Clone::clone', ident), (' as ToOwned::to_owned', ident), (' as AsRef::as_ref', ident),
    (' as Deref::deref', None), ('::as_str', ident), ('::as_bytes', ident), ('::as_slice', ident),
]

m('Clone::clone', 'Vec as Clone::clone', 'String as Clone::clone', 'String::as_str', 'String::as_bytes',
  'str::as_bytes', 'Vec::as_slice', 'PathBuf::as_path', 'str as ToOwned::to_owned', 'Path as ToOwned::to_owned',
  '[T] as AsRef::as_ref', 'Cow::into_owned', 'bool as Clone::clone', 'u64 as Clone::clone',
  '[T]::to_vec', 'Vec as From::from', 'String as From::from', 'str::to_owned', 'str::to_string',
  'OsString as Deref::deref', 'GenericArray::as_slice', 'GenericArray::from_slice', 'hint::must_use',
  'PathBuf as From::from', 'String::into_bytes', 'Path::to_path_buf', 'str::into_string', 'String::into_boxed_str',
  'Arc::new', 'Box::new', 'Rc::new', 'Arc::clone', 'Path::as_os_str', 'Into::into', 'Borrow::borrow', 'Arc as Clone::clone', 'Option::as_deref_noop')(ident)


@m('Arc as Deref::deref', 'Vec as Deref::deref', 'String as Deref::deref', 'PathBuf as Deref::deref', 'Box as Deref::deref', 'Deref::deref', 'Cow as Deref::deref')
def deref_(M, st, f, a):
    return ident(M, st, f, a)


@m('MutexGuard as Deref::deref')
def guard_deref(M, st, f, a):
    g = ident(M, st, f, a)
    return M.e.load(st, ('mutex', g.name))


@m('MutexGuard as DerefMut::deref_mut')
def guard_deref_mut(M, st, f, a):
    g = ident(M, st, f, a)
    return MutRef(('mutex', g.name))


@m('Vec as DerefMut::deref_mut', 'String as DerefMut::deref_mut', 'Box as DerefMut::deref_mut', '[T; N] as IndexMut::index_mut', 'Vec::as_mut_slice', 'Vec::as_mut')
def deref_mut(M, st, f, a):
    return a[0]


@m('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call', 'F as FnOnce::call_once', 'fn as FnOnce::call_once')
def fn_call(M, st, f, a):
    fv, tup = a[0], a[1] if len(a) > 1 else None
    if isinstance(fv, MutRef):
        fv = M.e.deref(st, fv)
    if not isinstance(fv, (FnVal, Agg)):
        raise Soft('call of ' + repr(fv))
    args = list(tup.f) if isinstance(tup, Agg) else [tup] if tup is not None else []
    return M.e.call_value(fv, args, st, dty=M.e.cur_dty)


# ---- mutex / condvar / threads -------------------------------------------
@m('Mutex::lock')
def mutex_lock(M, st, f, a):
    from engine import Stop
    mx = ident(M, st, f, a)
    d = M.dty()
    g = M.e.lock(st, mx)
    if g is None:
        return [(st, Stop('deadlock'))]
    return M.ok(g, d)


@m('Mutex::new')
def mutex_new(M, st, f, a):
    return Nat('mutex', name=fresh_name('newmutex'), ty=f['args'][0] if f['args'] else None, init=a[0])


@m('Condvar::new')
def condvar_new(M, st, f, a):
    return Nat('condvar', name=fresh_name('newcondvar'))


@m('Condvar::notify_one', 'Condvar::notify_all')
def notify(M, st, f, a):
    M.e.event(st, 'notify', cv=a[0].name)
    return M.unit()


# Ghost state: the versions and the strings that have been handed to spawned threads.
TOLD = ('ghost', 'told')

# ghost of a worker thread: the position at which an element with string s as part c was last put
# into a vector of tuples
QUEUED, QUEUED_PARTS = ('ghost', 'queued'), 6

# ghost of a worker thread: the strings handed to threads as part p of a closure
TOLDAT = ('ghost', 'toldat')

# ghost of a worker thread: a request to look again was cleared since the state was last looked at
LOST = ('ghost', 'lost')


def string_parts(M, et):
    """positions of the parts of an element type which are strings"""
    t = M.P.types[M.P.strip(et)]
    if t['k'] not in ('tuple', 'adt') or t['k'] == 'adt' and t['enum']:
        return []
    try:
        fs = M.P.variants(M.P.strip(et))[0][2]
        return [i for i, (fn, ft) in enumerate(fs) if i < QUEUED_PARTS and M.P.sort(ft) == Str]
    except (Unsupported, IndexError, KeyError):
        return []


def told_init(st):
    st.store[LOST] = Nat('lost', v=False)
    st.store[TOLD] = Nat('told', ids=z3.K(I, z3.BoolVal(False)), strs=z3.K(Str, z3.BoolVal(False)))
    for c in range(QUEUED_PARTS):
        st.store[QUEUED + (c,)] = Nat('queued', arr=z3.K(Str, z3.IntVal(-1)))
        st.store[TOLDAT + (c,)] = Nat('toldat', arr=z3.K(Str, z3.BoolVal(False)))


def toldat_reset(self, st):
    """nothing has been told since the state was last looked at"""
    if TOLD in st.store:
        st.store[LOST] = Nat('lost', v=False)
        for c in range(QUEUED_PARTS):
            st.store[TOLDAT + (c,)] = Nat('toldat', arr=z3.K(Str, z3.BoolVal(False)))


Models.toldat_reset = toldat_reset


def told_of(M, st, v):
    """(versions, strings) in a value handed to a thread"""
    ids, strs = [], []
    L = M.e.L

    def go(x, d):
        if isinstance(x, MutRef):
            x = M.e.deref(st, x)
        if isinstance(x, Dt) and x.tid == L.idty:
            ids.append(L.id_of(x.t))
        elif isinstance(x, Rope):
            strs.append(x.term())
        elif isinstance(x, Dt) and d < 3 and M.P.types[M.P.strip(x.tid)]['k'] == 'tuple':
            for n in range(len(M.P.variants(M.P.strip(x.tid))[0][2])):
                go(M.e.field(x, n), d + 1)
        elif isinstance(x, Agg) and d < 3 and not (x.tid is not None and M.P.types[x.tid]['k'] == 'adt'):
            for y in x.f:
                go(y, d + 1)
    go(v, 0)
    return ids, strs


def widen_told(self, st, a, name):
    return Nat('told', ids=z3.Const(fresh_name('toldids'), a.ids.sort()), strs=z3.Const(fresh_name('toldstrs'), a.strs.sort()))


Models.widen_told = widen_told


def widen_queued(self, st, a, name):
    return Nat('queued', arr=z3.Const(fresh_name('queued'), a.arr.sort()))


Models.widen_queued = widen_queued


def widen_toldat(self, st, a, name):
    return Nat('toldat', arr=z3.Const(fresh_name('toldat'), a.arr.sort()))


Models.widen_toldat = widen_toldat


def widen_lost(self, st, a, name):
    return Nat('lost', v=z3.Bool(fresh_name('lost')))


Models.widen_lost = widen_lost


def lost_now(st):
    g = st.store.get(LOST)
    return False if g is None else g.v


@m('Condvar::wait')
def cv_wait(M, st, f, a):
    g = a[1]
    d = M.dty()
    loc = ('mutex', g.name)
    M.e.event(st, 'wait', cv=a[0].name, name=g.name, dur=None, content=st.store.get(loc), lost=lost_now(st))
    st.store[loc] = M.e.fresh(st, M.e.loc_types[loc], 'm:' + g.name)
    return M.ok(g, d)


@m('Condvar::wait_timeout')
def cv_wait_timeout(M, st, f, a):
    g = a[1]
    d = M.dty()
    loc = ('mutex', g.name)
    M.e.event(st, 'wait', cv=a[0].name, name=g.name, dur=a[2], content=st.store.get(loc), lost=lost_now(st))
    st.store[loc] = M.e.fresh(st, M.e.loc_types[loc], 'm:' + g.name)
    t = M.P.strip(M.okty(d))
    wt = M.P.types[t]['f'][1]
    return M.ok(Agg(t, 0, [g, M.e.fresh(st, wt, 'waitres')]), d)


@m('thread::spawn')
def spawn(M, st, f, a):
    g = st.store.get(TOLD)
    again = {}
    if g is not None:
        for p, x in enumerate(a[0].f if isinstance(a[0], Agg) else ()):
            if isinstance(x, Rope) and p < QUEUED_PARTS:
                arr = st.store[TOLDAT + (p,)].arr
                again[p] = z3.Select(arr, x.term())
                st.store[TOLDAT + (p,)] = Nat('toldat', arr=z3.Store(arr, x.term(), True))
    M.e.event(st, 'spawn', clo=a[0], again=again)
    if g is not None:
        x = told_of(M, st, a[0])
        ids, strs = g.ids, g.strs
        for t in x[0]:
            ids = z3.Store(ids, t, True)
        for t in x[1]:
            strs = z3.Store(strs, t, True)
        st.store[TOLD] = Nat('told', ids=ids, strs=strs)
    return M.e.fresh(st, M.dty(), 'join')


@m('thread::sleep')
def sleep(M, st, f, a):
    M.e.event(st, 'sleep', dur=a[0])
    return M.unit()


# ---- time -----------------------------------------------------------------
@m('Instant::now')
def instant_now(M, st, f, a):
    t = z3.Int(fresh_name('now'))
    lo = st.now if st.now is not None else 0
    M.e.assume(st, t >= lo, t <= (1 << 62) * NS)
    for k in M.e.pipeclks[-3:]:
        M.e.assume(st, t >= z3.Int(f'pipeclock{k}'))
    st.now = t
    M.e.event(st, 'now', t=t)
    return t


@m('SystemTime::now')
def systime_now(M, st, f, a):
    t = z3.Int(fresh_name('wall'))
    M.e.assume(st, t >= 0, t <= (1 << 33) * NS)     # between 1970 and 2242
    return t


def _checked(M, st, r, lo, hi):
    d = M.dty()
    c = And(r >= lo, r <= hi)
    c = norm(c) if isinstance(c, bool) else c
    return M.split(st, c, lambda s: M.some(r, d), lambda s: M.none(d))


@m('Instant::checked_add')
def inst_cadd(M, st, f, a):
    return _checked(M, st, a[0] + a[1], M.IMIN, M.IMAX)


@m('Instant::checked_sub')
def inst_csub(M, st, f, a):
    return _checked(M, st, a[0] - a[1], M.IMIN, M.IMAX)


@m('Instant::checked_duration_since')
def inst_cds(M, st, f, a):
    return _checked(M, st, a[0] - a[1], 0, M.DMAX)


@m('Instant::saturating_duration_since', 'Instant::duration_since')
def inst_sds(M, st, f, a):
    r = zint(a[0]) - zint(a[1])
    return z3.If(r >= 0, r, z3.IntVal(0))


@m('Instant::elapsed')
def inst_elapsed(M, st, f, a):
    n = instant_now(M, st, f, [])
    r = zint(n) - zint(a[0])
    return z3.If(r >= 0, r, z3.IntVal(0))


def _panic_unless(M, st, c, v, msg):
    from engine import Ret, Panic
    out = []
    for s2, b in M.e.branch(st, c):
        out.append((s2, Ret(v) if b else Panic(msg, M.e.here())))
    return out


@m('Instant as Add::add')
def inst_add(M, st, f, a):
    r = a[0] + a[1]
    return _panic_unless(M, st, And(r >= M.IMIN, r <= M.IMAX), r, 'overflow when adding duration to instant')


@m('Instant as Sub::sub')
def inst_sub(M, st, f, a):
    r = a[0] - a[1]
    if f['args'] and 'Instant' in M.P.tname(f['args'][-1]):
        return z3.If(zint(r) >= 0, zint(r), z3.IntVal(0))
    return _panic_unless(M, st, And(r >= M.IMIN, r <= M.IMAX), r, 'overflow when subtracting duration from instant')


@m('Duration as Add::add')
def dur_add(M, st, f, a):
    r = a[0] + a[1]
    return _panic_unless(M, st, r <= M.DMAX, r, 'overflow when adding durations')


@m('Duration as Sub::sub')
def dur_sub(M, st, f, a):
    r = a[0] - a[1]
    return _panic_unless(M, st, r >= 0, r, 'overflow when subtracting durations')


@m('Duration::checked_add')
def dur_cadd(M, st, f, a):
    return _checked(M, st, a[0] + a[1], 0, M.DMAX)


@m('Duration::checked_sub')
def dur_csub(M, st, f, a):
    return _checked(M, st, a[0] - a[1], 0, M.DMAX)


@m('SystemTime::checked_add')
def sys_cadd(M, st, f, a):
    return _checked(M, st, a[0] + a[1], M.SMIN, M.SMAX)


@m('SystemTime::checked_sub')
def sys_csub(M, st, f, a):
    return _checked(M, st, a[0] - a[1], M.SMIN, M.SMAX)


@m('SystemTime::duration_since')
def sys_ds(M, st, f, a):
    r = a[0] - a[1]
    d = M.dty()
    return M.split(st, r >= 0, lambda s: M.ok(r, d), lambda s: M.err(M.e.fresh(s, M.errty(d), 'systimeerr'), d))


@m('Duration::from_secs')
def dur_secs(M, st, f, a):
    return a[0] * NS


@m('Duration::from_millis')
def dur_ms(M, st, f, a):
    return a[0] * 10**6


@m('Duration::as_secs')
def dur_as_secs(M, st, f, a):
    return zint(a[0]) / NS if not is_int(a[0]) else a[0] // NS


@m('Instant as PartialOrd::partial_cmp', 'Duration as PartialOrd::partial_cmp', 'SystemTime as PartialOrd::partial_cmp')
def int_pcmp(M, st, f, a):
    return M.some(Nat('ord', a=a[0], b=a[1]))


CHRONO_MIN, CHRONO_MAX = -8334601228800 * NS, 8210266876799 * NS
RFC_MIN, RFC_MAX = -62135510400 * NS, 253402214400 * NS


@m('DateTime as From::from')
def chrono_from(M, st, f, a):
    t = a[0]
    return _panic_unless(M, st, And(t >= CHRONO_MIN, t <= CHRONO_MAX), Nat('datetime', at=t), 'chrono: SystemTime out of range for DateTime')


@m('DateTime::from_timestamp')
def chrono_ts(M, st, f, a):
    d = M.dty()
    t = a[0] * NS + a[1]
    return M.split(st, norm(And(a[1] < 2 * NS, t >= CHRONO_MIN, t <= CHRONO_MAX)), lambda s: M.some(Nat('datetime', at=t), d), lambda s: M.none(d))


YEARS = {0: -62167219200, 1: -62135596800, 1970: 0, 9998: 253339228800, 9999: 253370764800, 10000: 253402300800}


@m('DateTime as Datelike::year')
def chrono_year(M, st, f, a):
    v = ident(M, st, f, a)
    if not isinstance(v, Nat):
        raise Soft('datetime')
    t = zint(v.at)
    y = F('year', I, I)(t)
    for k, s in YEARS.items():
        M.e.assume(st, (y < k) == (t < s * NS))
    return y


@m('DateTime::with_timezone')
def chrono_tz(M, st, f, a):
    v = ident(M, st, f, a)
    if not isinstance(v, Nat):
        raise Soft('datetime')
    day = 86400 * NS
    return _panic_unless(M, st, And(v.at >= CHRONO_MIN + day, v.at <= CHRONO_MAX - day), v, 'chrono: DateTime out of range in its timezone')


@m('Duration::subsec_nanos')
def dur_subns(M, st, f, a):
    return a[0] % NS if is_int(a[0]) else zint(a[0]) % NS


@m('DateTime::to_rfc2822')
def chrono_rfc(M, st, f, a):
    v = ident(M, st, f, a)
    if not isinstance(v, Nat):
        raise Soft('datetime')
    t = v.at
    return _panic_unless(M, st, And(t >= RFC_MIN, t <= RFC_MAX), Rope([F('rfc2822', I, Str)(zint(t))]), 'chrono: to_rfc2822 of a year outside 0..9999')


# ---- numbers ---------------------------------------------------------------
@m('u64::checked_mul', 'usize::checked_mul')
def checked_mul(M, st, f, a):
    return _checked(M, st, a[0] * a[1], 0, (1 << 64) - 1)


@m('u64::checked_add', 'usize::checked_add')
def checked_add(M, st, f, a):
    return _checked(M, st, a[0] + a[1], 0, (1 << 64) - 1)


@m('u64::checked_sub', 'usize::checked_sub')
def checked_sub(M, st, f, a):
    return _checked(M, st, a[0] - a[1], 0, (1 << 64) - 1)


@m('u64::saturating_add', 'usize::saturating_add')
def sat_add(M, st, f, a):
    r = zint(a[0]) + zint(a[1])
    return norm(z3.simplify(z3.If(r > (1 << 64) - 1, z3.IntVal((1 << 64) - 1), r)))


@m('u64::saturating_sub', 'usize::saturating_sub')
def sat_sub(M, st, f, a):
    r = zint(a[0]) - zint(a[1])
    return norm(z3.simplify(z3.If(r < 0, z3.IntVal(0), r)))


@m('u64::wrapping_add')
def wrap_add(M, st, f, a):
    return norm(z3.simplify((zint(a[0]) + zint(a[1])) % (1 << 64)))


@m('u64::rem_euclid')
def rem_euclid(M, st, f, a):
    if is_int(a[0]) and is_int(a[1]) and a[1]:
        return a[0] % a[1]
    if is_int(a[1]) and a[1]:
        return zint(a[0]) % a[1]
    raise Soft('rem_euclid')


@m('bool as Not::not')
def bool_not(M, st, f, a):
    return Not(ident(M, st, f, a))


@m('char::len_utf8')
def len_utf8(M, st, f, a):
    c = a[0]
    if is_int(c):
        return len(chr(c).encode())
    return norm(z3.simplify(z3.If(c < 0x80, z3.IntVal(1), z3.If(c < 0x800, z3.IntVal(2), z3.If(c < 0x10000, z3.IntVal(3), z3.IntVal(4))))))


@m('char::is_numeric')
def is_numeric(M, st, f, a):
    c = a[0]
    if is_int(c):
        return chr(c).isnumeric()
    r = F('char_is_numeric', I, B)(c)
    M.e.assume(st, Implies(And(c < 128), r == z3.And(c >= 48, c <= 57)))
    return r


@m('char::is_ascii_digit')
def is_ascii_digit(M, st, f, a):
    c = ident(M, st, f, a)
    return 48 <= c <= 57 if is_int(c) else z3.And(c >= 48, c <= 57)


# ---- comparison -------------------------------------------------------------
def val_eq(M, st, a, b):
    e = M.e
    if isinstance(a, MutRef):
        a = e.deref(st, a)
    if isinstance(b, MutRef):
        b = e.deref(st, b)
    if isinstance(a, Rope) or isinstance(b, Rope):
        return rope_eq(a, b)
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b
    if z3.is_expr(a) or z3.is_expr(b) or isinstance(a, int) or isinstance(b, int):
        x = zbool(a) if isinstance(a, bool) or z3.is_expr(a) and z3.is_bool(a) else zint(a)
        y = zbool(b) if isinstance(b, bool) or z3.is_expr(b) and z3.is_bool(b) else zint(b)
        return norm(z3.simplify(x == y))
    if isinstance(a, SeqC) and isinstance(b, SeqC):
        if len(a.e) != len(b.e):
            return False
        return And(*[val_eq(M, st, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.var != b.var:
            return False
        return And(*[val_eq(M, st, x, y) for x, y in zip(a.f, b.f)])
    ty = a.tid if isinstance(a, (Agg, Dt)) else b.tid if isinstance(b, (Agg, Dt)) else None
    if ty is None and isinstance(a, SeqT) and isinstance(b, SeqT):
        return True if a.t.eq(b.t) else a.t == b.t
    if ty is None:
        raise Unsupported(f'equality of {a!r} and {b!r}')
    return e.to_term(a, ty) == e.to_term(b, ty)


@m('String as PartialEq::eq', 'str as PartialEq::eq', 'Cow as PartialEq::eq', 'Vec as PartialEq::eq', 'ErrorKind as PartialEq::eq',
   'Duration as PartialEq::eq', 'Instant as PartialEq::eq', 'Path as PartialEq::eq', 'Url as PartialEq::eq')
def eq_(M, st, f, a):
    return val_eq(M, st, a[0], a[1])


@m('String as PartialEq::ne', 'str as PartialEq::ne')
def ne_(M, st, f, a):
    return Not(val_eq(M, st, a[0], a[1]))


def _ints(M, st, a):
    return [zint(M.e.deref(st, x)) if isinstance(x, MutRef) else x for x in a]


@ov('PartialOrd::gt', 'PartialOrd::lt', 'PartialOrd::ge', 'PartialOrd::le', 'Ord::min', 'Ord::max', 'cmp::min', 'cmp::max', 'Ord::cmp', 'PartialOrd::partial_cmp')
def ord_(M, st, f, a):
    op = M.key(f).split('::')[-1]
    x, y = a[0], a[1]
    if isinstance(x, MutRef):
        x = M.e.deref(st, x)
    if isinstance(y, MutRef):
        y = M.e.deref(st, y)
    isn = lambda v: is_int(v) or z3.is_expr(v) and v.sort() == I
    if op in ('gt', 'lt', 'ge', 'le') and isinstance(x, (Agg, Dt)) and f['args'] and 'Level' in M.P.tname(f['args'][0]):
        # log::Level <= max level: logging is off (it has no effect on anything else); only a client command,
        # whose errors are told by way of the log, has it on from the moment it is set up
        return 'logger' in st.gr and op in ('le', 'lt') and (not isinstance(x, Agg) or M.P.variants(x.tid)[x.var][0] == 'Error')
    if not (isn(x) and isn(y)):
        if op in ('min', 'max', 'cmp', 'partial_cmp'):
            raise Unsupported('ordering of ' + repr(x))
        raise Unsupported('ordering of ' + repr(x))
    if op == 'gt':
        return norm(zint(x) > y)
    if op == 'lt':
        return norm(zint(x) < y)
    if op == 'ge':
        return norm(zint(x) >= y)
    if op == 'le':
        return norm(zint(x) <= y)
    if op == 'min':
        return min(x, y) if is_int(x) and is_int(y) else z3.If(zint(x) <= y, zint(x), zint(y))
    if op == 'max':
        return max(x, y) if is_int(x) and is_int(y) else z3.If(zint(x) >= y, zint(x), zint(y))
    raise Soft('cmp')


@m('Instant as PartialOrd::gt', 'Instant as PartialOrd::lt', 'Instant as PartialOrd::ge', 'Instant as PartialOrd::le',
   'Duration as PartialOrd::gt', 'Duration as PartialOrd::lt', 'Duration as PartialOrd::ge', 'Duration as PartialOrd::le',
   'Instant as Ord::min', 'Instant as Ord::max')
def ord2_(M, st, f, a):
    return ord_(M, st, f, a)


@m('log::max_level')
def log_max(M, st, f, a):
    return M.mk(M.dty(), 'Off')


@m('Level as PartialOrd::partial_cmp')
def level_cmp(M, st, f, a):
    return M.none()


@m('__private_api::log')
def log_log(M, st, f, a):
    for x in a:
        x = seqv(M, st, x)
        if isinstance(x, Nat) and 'msg' in x.a:
            M.e.event(st, 'log', data=x.a['msg'])
    return M.unit()


@m('__private_api::loc')
def log_loc(M, st, f, a):
    return M.e.fresh(st, M.dty(), 'loc')


# ---- command line ---------------------------------------------------------------
@m('env::args')
def env_args(M, st, f, a):
    et = M.string_ty()
    n = z3.Int('argv.len')
    M.e.assume(st, n >= 0, n <= 1 << 40)
    return Nat('iter', src=SeqS(n, z3.Const('argv.arr', z3.ArraySort(I, Str)), et, tag='argv'), pos=0, ops=())


@m('Options::new')
def opts_new(M, st, f, a):
    return Nat('getopts', decl=())


@m('Options::optflag', 'Options::optflagmulti', 'Options::optflagopt', 'Options::optopt', 'Options::optmulti', 'Options::reqopt')
def opts_flag(M, st, f, a):
    from engine import Ret, Panic
    v = seqv(M, st, a[0])
    ns = tuple(rope(x).lit() for x in a[1:3])
    if None in ns or not isinstance(v, Nat):
        raise Soft('option of a computed name')
    if set(ns) & set(v.decl) - {''}:
        return [(st, Panic('option declared twice', M.e.here()))] if False else a[0]
    M.e.assign_ref(st, a[0], Nat('getopts', decl=v.decl + ns))
    return a[0]


@m('Options::parse')
def opts_parse(M, st, f, a):
    v = seqv(M, st, a[0])
    d = M.dty()

    def okv(s):
        r = M.e.fresh(s, M.okty(d), 'matches')
        s.memo[('getopts', r.t.get_id())] = (v.decl, r.t)
        M.e.event(s, 'argparse', m=r.t)
        return r
    return M.okerr(st, okv, 'parse')


def opt_known(M, st, a):
    mv = seqv(M, st, a[0])
    n = rope(seqv(M, st, a[1])).lit()
    d = st.memo.get(('getopts', mv.t.get_id()))
    if n is None or d is None:
        raise Soft('unknown options')
    return mv.t, n, n in d[0]


@m('Matches::opt_present', 'Matches::opt_count', 'Matches::opt_str')
def opt_get(M, st, f, a):
    from engine import Ret, Panic
    t, n, known = opt_known(M, st, a)
    if not known:
        return [(st, Panic(f'no option {n}', M.e.here()))]
    k = M.key(f).split('_')[-1]
    if k == 'present':
        return F('opt_present:' + n, t.sort(), B)(t)
    if k == 'count':
        c = F('opt_count:' + n, t.sort(), I)(t)
        M.e.assume(st, c >= 0, c <= 1 << 40)
        return c
    d = M.dty()
    return M.ite(st, F('opt_has:' + n, t.sort(), B)(t), M.some(Rope([F('opt_str:' + n, t.sort(), Str)(t)]), d), M.none(d), d)


@m('stderrlog::new')
def sel_new(M, st, f, a):
    return M.e.fresh(st, M.dty(), 'stderrlog')


@m('StdErrLog::module', 'StdErrLog::verbosity', 'StdErrLog::quiet', 'StdErrLog::timestamp', 'StdErrLog::show_level', 'StdErrLog::color')
def sel_set(M, st, f, a):
    return a[0]


@m('StdErrLog::init')
def sel_init(M, st, f, a):
    from engine import Ret
    d = M.dty()
    s2 = st.copy() if 'logger' in st.gr else None
    if s2 is not None:
        return M.err(M.e.fresh(st, M.errty(d), 'logerr'), d)
    st.gr['logger'] = (z3.BoolVal(True),)
    return M.ok(M.unit(), d)


@m('Formatter3164 as Default::default', 'BasicLogger::new')
def syslog_default(M, st, f, a):
    return M.e.fresh(st, M.dty(), 'syslog')


@m('syslog::unix', 'unistd::daemon', 'log::set_boxed_logger', 'log::set_logger')
def syslog_unix(M, st, f, a):
    d = M.dty()
    k = M.key(f).split('::')[-1]
    return M.okerr(st, (lambda s: M.e.fresh(s, M.okty(d), k)) if k == 'unix' else M.unit(), k)


@m('log::set_max_level')
def set_max_level(M, st, f, a):
    v = a[0]
    if isinstance(v, Agg) and M.P.variants(v.tid)[v.var][0] == 'Off':
        st.gr.pop('logger', None)
    else:
        st.gr['logger'] = (z3.BoolVal(True),)
    return M.unit()


@m('env::current_exe')
def current_exe(M, st, f, a):
    return M.okerr(st, lambda s: Rope([z3.Const('exe', Str)]), 'exe')


@m('Path::file_name')
def file_name(M, st, f, a):
    d = M.dty()
    t = rope(seqv(M, st, a[0])).term()
    return M.ite(st, F('has_file_name', Str, B)(t), M.some(Rope([F('file_name', Str, Str)(t)]), d), M.none(d), d)


@m('whoami::username')
def username(M, st, f, a):
    return Rope([z3.Const('username', Str)])


# ---- panics -----------------------------------------------------------------
def panic(msg):
    def h(M, st, f, a):
        from engine import Panic
        t = msg
        if a and isinstance(a[0], Rope):
            t = msg + ': ' + str(a[0].lit())
        elif a and isinstance(a[0], Nat) and 'msg' in a[0].a:
            t = msg + ': ' + repr(a[0].a['msg'])
        return [(st, Panic(t, M.e.here()))]
    return h


m('panicking::panic')(panic('panic'))
m('rt::panic_fmt', 'panicking::panic_fmt')(panic('panic'))
m('option::unwrap_failed')(panic('unwrap on None'))
m('option::expect_failed')(panic('expect on None'))
m('unwrap_failed::unwrap_failed_inner', 'result::unwrap_failed', 'unwrap_failed_inner')(panic('unwrap on Err'))
m('panicking::unreachable_default_msg', 'panicking::unreachable_display')(panic('unreachable'))
m('panicking::assert_failed', 'panicking::panic_explicit')(panic('assert failed'))


@m('process::exit')
def p_exit(M, st, f, a):
    from engine import Stop
    M.e.event(st, 'exit', code=a[0])
    return [(st, Stop('exit'))]


# ---- vec / slice --------------------------------------------------------------
def seqv(M, st, v):
    while isinstance(v, MutRef):
        v = M.e.deref(st, v)
    return v


@m('Vec::new', 'Vec::with_capacity', 'Vec as Default::default')
def vec_new(M, st, f, a):
    d = M.dty()
    if M.P.is_str(d):
        return Rope([])
    return SeqC((), M.P.is_vec(d))


@m('String::new', 'String::with_capacity', 'PathBuf::new', 'String as Default::default')
def string_new(M, st, f, a):
    return Rope([])


@m('Vec::push')
def vec_push(M, st, f, a):
    e = M.e
    v = seqv(M, st, a[0])
    if isinstance(v, (SeqC, SeqS)) and isinstance(a[1], Rope):
        e.event(st, 'push', n=e.seq_len(v), data=a[1])
    if TOLD in st.store and isinstance(v, (SeqC, SeqS)) and v.et is not None and isinstance(a[1], Agg):
        for c in string_parts(M, v.et):
            x = e.field(a[1], c)
            if isinstance(x, Rope):
                k = QUEUED + (c,)
                st.store[k] = Nat('queued', arr=z3.Store(st.store[k].arr, x.term(), zint(e.seq_len(v))))
    if isinstance(v, SeqC):
        e.assign_ref(st, a[0], SeqC(v.e + (a[1],), v.et))
    elif isinstance(v, SeqS):
        e.add_term(st, ('ix', v.tag), v.n)
        e.assign_ref(st, a[0], SeqS(v.n + 1, z3.Store(v.arr, v.n, e.to_term(a[1], v.et)), v.et, v.tag))
    elif isinstance(v, Rope):
        x = a[1]
        e.assign_ref(st, a[0], v + Rope([chr(x)] if is_int(x) else [F('chr', I, Str)(x)]))
    else:
        raise Unsupported('push')
    return M.unit()


@m('Vec::pop')
def vec_pop(M, st, f, a):
    v = seqv(M, st, a[0])
    if not isinstance(v, SeqC):
        raise Soft('pop')
    d = M.dty()
    if not v.e:
        return M.none(d)
    M.e.assign_ref(st, a[0], SeqC(v.e[:-1], v.et))
    return M.some(v.e[-1], d)


@m('Vec::len', '[T]::len', 'String::len', 'str::len')
def len_(M, st, f, a):
    v = seqv(M, st, a[0])
    if isinstance(v, Rope):
        M.slen_ax(st, v)
    return M.e.seq_len(v)


@m('Vec::is_empty', '[T]::is_empty', 'str::is_empty', 'String::is_empty')
def is_empty(M, st, f, a):
    v = seqv(M, st, a[0])
    if isinstance(v, Rope):
        if any(isinstance(p, str) for p in v.p):
            return False
        if not v.p:
            return True
        return rope_eq(v, Rope([]))
    n = M.e.seq_len(v)
    if is_int(n):
        return n == 0
    M.e.assume(st, n >= 0)
    return n == 0


@m('Vec::clear', 'String::clear')
def clear(M, st, f, a):
    v = seqv(M, st, a[0])
    M.e.assign_ref(st, a[0], Rope([]) if isinstance(v, Rope) else SeqC((), v.et))
    return M.unit()


@m('Vec as Extend::extend', 'Vec::extend_from_slice', 'Vec::append')
def vec_extend(M, st, f, a):
    v, w = seqv(M, st, a[0]), seqv(M, st, a[1])
    if isinstance(v, Rope) and isinstance(w, Rope):
        M.e.assign_ref(st, a[0], v + w)
        return M.unit()
    if isinstance(v, SeqC) and isinstance(w, SeqC):
        M.e.assign_ref(st, a[0], SeqC(v.e + w.e, v.et))
        return M.unit()
    if isinstance(v, SeqC) and isinstance(w, Nat) and w.k == 'iter':
        from engine import Ret
        out = []
        for s2, xs in M.drain_all(st, w):
            M.e.assign_ref(s2, a[0], SeqC(v.e + tuple(xs), v.et))
            out.append((s2, Ret(M.unit())))
        return out
    raise Unsupported('extend')


@m('Vec::truncate', 'String::truncate')
def truncate(M, st, f, a):
    v = seqv(M, st, a[0])
    if isinstance(v, SeqC) and is_int(a[1]):
        M.e.assign_ref(st, a[0], SeqC(v.e[:a[1]], v.et))
        return M.unit()
    raise Soft('truncate')


@m('[T]::last_mut')
def last_mut(M, st, f, a):
    v = seqv(M, st, a[0])
    if isinstance(v, SeqC):
        if not v.e:
            return M.none()
        return M.some(MutRef(a[0].loc, a[0].path + (('i', len(v.e) - 1),)))
    if isinstance(v, SeqS):
        d = M.dty()
        return M.split(st, v.n > 0, lambda s: M.some(MutRef(a[0].loc, a[0].path + (('i', v.n - 1),)), d), lambda s: M.none(d))
    raise Soft('last_mut')


@m('[T]::last', '[T]::first')
def last(M, st, f, a):
    v = seqv(M, st, a[0])
    which = M.key(f).endswith('first')
    if isinstance(v, SeqC):
        if not v.e:
            return M.none()
        return M.some(v.e[0 if which else -1])
    raise Soft('last')


@m('[T]::get', 'Vec::get')
def seq_get_opt(M, st, f, a):
    v = seqv(M, st, a[0])
    d = M.dty()
    if isinstance(v, Rope) or not (is_int(a[1]) or z3.is_expr(a[1])):
        raise Soft('get')
    n = M.e.seq_len(v)
    c = And(zint(a[1]) >= 0, zint(a[1]) < n)
    return M.split(st, norm(z3.simplify(zbool(c))), lambda s: M.some(M.seq_item(s, v, a[1]), d), lambda s: M.none(d))


@m('[T]::iter', 'Vec as IntoIterator::into_iter', 'IntoIterator::into_iter', 'I as IntoIterator::into_iter', 'HashMap as IntoIterator::into_iter',
   'HashSet as IntoIterator::into_iter', '[T] as IntoIterator::into_iter', 'HashMap::iter', 'HashSet::iter', 'Vec::iter', 'HashSet::into_iter', 'Vec::into_iter', 'VecDeque::iter')
def iter_(M, st, f, a):
    return M.iter_of(st, a[0])


@m('HashMap::keys', 'HashMap::into_keys')
def map_keys(M, st, f, a):
    return Nat('iter', src=('map', seqv(M, st, a[0]), 'k'), pos=0, ops=())


@m('HashMap::values', 'HashMap::into_values')
def map_values(M, st, f, a):
    return Nat('iter', src=('map', seqv(M, st, a[0]), 'v'), pos=0, ops=())


@m('HashMap::drain')
def map_drain(M, st, f, a):
    mv = seqv(M, st, a[0])
    M.e.assign_ref(st, a[0], empty_map(M, mv.kt, mv.vt))
    return Nat('iter', src=('map', mv), pos=0, ops=())


@m('Vec::drain')
def vec_drain(M, st, f, a):
    v = seqv(M, st, a[0])
    M.e.assign_ref(st, a[0], SeqC((), v.et))
    return M.iter_of(st, v)


def _adapter(kind):
    def h(M, st, f, a):
        it = M.iter_of(st, a[0])
        if isinstance(it, Agg):
            it = Nat('iter', src=('range', it.f[0], it.f[1]), pos=0, ops=())
        if it.k == 'incoming':
            return it
        if isinstance(it.src, tuple) and it.src[0] == 'query' or True:
            return it.with_(ops=it.ops + ((kind, a[1] if len(a) > 1 else None),))
    return h


for _k in ('map', 'filter', 'filter_map', 'take_while', 'copied', 'cloned', 'inspect'):
    m('Iterator::' + _k)(_adapter(_k))


@m('Iterator::by_ref')
def by_ref(M, st, f, a):
    return a[0]


@m('Iterator::flatten')
def flatten(M, st, f, a):
    it = M.iter_of(st, a[0])
    if it.k == 'incoming':
        return it.with_(flat=True)
    raise Soft('flatten')


@m('UnixListener::incoming', 'TcpListener::incoming')
def incoming(M, st, f, a):
    return Nat('incoming', src=('incoming',), flat=False)


@m('Flatten as Iterator::next', 'Incoming as Iterator::next')
def flat_next(M, st, f, a):
    it = seqv(M, st, a[0])
    d = M.dty()
    s = M.e.fresh(st, M.somety(d), 'stream')
    M.e.event(st, 'accept', stream=s)
    return M.some(s, d)


def it_next(M, st, f, a):
    from engine import Ret
    e = M.e
    d = M.dty()
    it = seqv(M, st, a[0])
    if isinstance(it, Agg):
        return range_next(M, st, f, a)
    out = []
    for s2, x, it2 in M.it_next(st, it):
        if isinstance(a[0], MutRef):
            e.assign_ref(s2, a[0], it2)
        if x is None:
            out.append((s2, Ret(M.none(d))))
        else:
            out.append((s2, Ret(M.some(M.pairv(x, M.somety(d)), d))))
    return out


m('Iter as Iterator::next', 'IntoIter as Iterator::next', 'Keys as Iterator::next', 'Values as Iterator::next', 'Drain as Iterator::next',
  'Map as Iterator::next', 'Filter as Iterator::next', 'FilterMap as Iterator::next', 'Split as Iterator::next', 'SplitN as Iterator::next',
  'Chars as Iterator::next', 'TakeWhile as Iterator::next', 'Iterator::next', 'IntoKeys as Iterator::next', 'IntoValues as Iterator::next',
  'Copied as Iterator::next', 'Cloned as Iterator::next')(it_next)


@m('Range as Iterator::next')
def range_next(M, st, f, a):
    e = M.e
    r = seqv(M, st, a[0])
    d = M.dty()
    lo, hi = r.f

    def yes(s):
        e.assign_ref(s, a[0], Agg(r.tid, r.var, (lo + 1, hi)))
        return M.some(lo, d)
    c = lo < hi if is_int(lo) and is_int(hi) else norm(z3.simplify(zint(lo) < zint(hi)))
    return M.split(st, c, yes, lambda s: M.none(d))


def _consume(M, st, a):
    it = M.iter_of(st, a[0])
    if isinstance(it, Agg):
        return Nat('iter', src=('range', it.f[0], it.f[1]), pos=0, ops=())
    return it


@m('Iter as Iterator::find', 'Iterator::find', 'Iter as Iterator::any', 'Iterator::any', 'Iter as Iterator::position', 'Iterator::position',
   'Iter as Iterator::all', 'Iterator::all', 'Iterator::find_map', 'Iter as Iterator::find_map', 'Iter as Iterator::rposition')
def it_search(M, st, f, a):
    from engine import Ret
    e = M.e
    op = M.key(f).split('::')[-1]
    d = M.dty()
    it = _consume(M, st, a)
    fn = a[1]
    if isinstance(it.src, tuple) and it.src[0] == 'query':
        return query_find(M, st, it, fn, op, d)
    if isinstance(it.src, tuple) and it.src[0] in ('chars', 'bytes') and it.src[1].lit() is None:
        raise Soft('search in a symbolic string')
    sq = M.src_seq(st, it)
    if sq is None or isinstance(sq, SeqC):
        # concrete: step through
        out = []
        todo = [(st, it, 0)]
        while todo:
            s, i, n = todo.pop(0)
            for s2, x, i2 in M.it_next(s, i):
                if x is None:
                    out.append((s2, Ret({'find': lambda: M.none(d), 'any': lambda: False, 'position': lambda: M.none(d), 'rposition': lambda: M.none(d),
                                         'all': lambda: True, 'find_map': lambda: M.none(d)}[op]())))
                    continue
                for s3, r in e.call_value(fn, [x], s2):
                    if not isinstance(r, Ret):
                        out.append((s3, r))
                        continue
                    if op == 'find_map':
                        for s4, y in M.opt_cases(s3, r.v):
                            if y is not None:
                                out.append((s4, Ret(M.some(y, d))))
                            else:
                                todo.append((s4, i2, n + 1))
                        continue
                    for s4, b in e.branch(s3, r.v):
                        if op == 'all':
                            b = not b
                        if b:
                            out.append((s4, Ret({'find': lambda: M.some(x, d), 'any': lambda: True, 'position': lambda: M.some(n, d), 'rposition': lambda: M.some(n, d),
                                                 'all': lambda: False}[op]())))
                        else:
                            todo.append((s4, i2, n + 1))
        return out
    out = []
    kind = 'filter_map' if op == 'find_map' else 'filter'
    if op == 'find_map':
        it2 = it.with_(ops=it.ops + (('filter_map', fn),))
        for s2, j, x in M.find_index(st, it2, None):
            out.append((s2, Ret(M.none(d) if j is None else M.some(x, d))))
        return out
    if op == 'all':
        it2 = it.with_(ops=it.ops + (('reject', fn),))
        raise Unsupported('all over a symbolic sequence')
    if op in ('position', 'rposition') and any(k not in ('map', 'copied', 'cloned') for k, _ in it.ops):
        raise Unsupported('position after filter')
    for s2, j, x in M.find_index(st, it, fn):
        if op == 'any':
            out.append((s2, Ret(j is not None)))
        elif j is None:
            out.append((s2, Ret(M.none(d))))
        elif op in ('position', 'rposition'):
            out.append((s2, Ret(M.some(j if is_int(it.pos) and it.pos == 0 else j - it.pos, d))))
        else:
            out.append((s2, Ret(M.some(M.pairv(x, M.somety(d)), d))))
    return out


@m('Iterator::min', 'Iterator::max')
def it_min(M, st, f, a):
    from engine import Ret
    e = M.e
    op = M.key(f).split('::')[-1]
    d = M.dty()
    it = _consume(M, st, a)
    sq = M.src_seq(st, it)
    if sq is None or isinstance(sq, SeqC):
        out = []
        for s2, xs in M.drain_all(st, it):
            if not xs:
                out.append((s2, Ret(M.none(d))))
                continue
            r = xs[0]
            for x in xs[1:]:
                r = z3.If(zint(r) <= zint(x) if op == 'min' else zint(r) >= zint(x), zint(r), zint(x))
            out.append((s2, Ret(M.some(r, d))))
        return out
    out = []
    for s2, j, x in M.find_index(st.copy(), it, None):
        if j is None:
            out.append((s2, Ret(M.none(d))))
    # some: witness w
    tag = sq.nm if isinstance(sq, SeqM) else sq.tag
    w = z3.Int(fresh_name('w'))
    e.assume(st, w >= zint(it.pos), w < sq.n)
    e.add_term(st, ('ix', tag), w)
    snap = (st.store, st.held)
    st.store = dict(st.store)
    for s2, x in M.stages(st, sq, list(it.ops), w):
        if x is None or not e.feasible(s2):
            continue

        def fact(s, t, x=x):
            c = M.at_snap(s, snap)
            fs = []
            for dl, y, _ in M.pred_at(c, list(it.ops), sq, t):
                if y is None:
                    fs.append(dl)
                else:
                    fs.append(And(dl, zint(x) <= zint(y) if op == 'min' else zint(x) >= zint(y)))
            return Implies(And(t >= zint(it.pos), t < sq.n), Or(*fs))
        e.add_uni(s2, ('ix', tag), fact)
        out.append((s2, Ret(M.some(x, d))))
    return out


@m('Iterator::count')
def it_count(M, st, f, a):
    from engine import Ret
    it = _consume(M, st, a)
    if isinstance(it.src, tuple) and it.src[0] in ('bytes', 'chars') and it.src[1].lit() is None:
        c = char_stop(M, st, it)
        if c is None:
            raise Soft('count over a symbolic string')
        v = it.src[1]
        out = []
        for s2, r in M.split_first(st, v, c):
            if r is None:
                out.append((s2, Ret(M.strlen(v))))
            else:
                n = M.strlen(r[0])
                M.slen_ax(s2, r[0])
                s2.memo[('cut', vkey(v), vkey(n))] = r
                s2.memo[('cut+', vkey(v), vkey(norm(z3.simplify(zint(n) + 1)))) ] = (r, c)
                out.append((s2, Ret(n)))
        return out
    sq = M.src_seq(st, it)
    if isinstance(sq, (SeqS, SeqM)) and all(k in ('map', 'copied', 'cloned') for k, _ in it.ops):
        return sq.n - it.pos
    return [(s2, Ret(len(xs))) for s2, xs in M.drain_all(st, it)]


def char_stop(M, st, it):
    """for take_while(c != K) pipelines over bytes/chars: K"""
    ops = list(it.ops)
    if not ops or ops[-1][0] != 'take_while' or any(k != 'map' for k, _ in ops[:-1]):
        return None
    ch = z3.Int(fresh_name('ch'))
    s = st.copy()
    M.e.assume(s, ch >= 0, ch < 128)
    for p in range(32, 127):
        pass
    todo = [(s, ch)]
    for kind, fn in ops[:-1]:
        todo = [y for s1, x in todo for y in M.pure(s1, fn, [x])]
    conds = []
    n0 = len(s.pc)
    for s1, x in todo:
        for s2, v in M.pure(s1, ops[-1][1], [x]):
            conds.append(And(And(*s2.pc[n0:]), v))
    c = Or(*conds)
    if isinstance(c, bool):
        return None
    sol = z3.Solver()
    sol.set('timeout', 2000)
    sol.add(ch >= 0, ch < 128, Not(c))
    if sol.check() != z3.sat:
        return None
    k = sol.model().eval(ch, model_completion=True).as_long()
    sol.add(ch != k)
    if sol.check() != z3.unsat:
        return None
    return chr(k)


def leading_bytes(M, st, it):
    """s.chars().take_while(p).map(len_utf8).sum(): the size of the leading part of s in which p holds"""
    r = it.src[1]
    if it.src[0] != 'chars' or not is_int(it.pos) or it.pos != 0 or len(r.p) != 1 or [k for k, _ in it.ops] != ['take_while', 'map']:
        raise Soft('sum over a symbolic string')
    e = M.e
    ch = z3.Int(fresh_name('ch'))
    s2 = st.copy()
    e.assume(s2, ch >= 0, ch <= 0x10ffff)
    res = list(M.pure(s2, it.ops[1][1], [ch]))
    if len(res) != 1 or not z3.is_expr(res[0][1]) or not res[0][1].eq(len_utf8(M, st, None, [ch])):
        raise Soft('sum over a symbolic string')
    t = r.p[0]
    n = z3.Int(fresh_name('lead'))
    e.assume(st, n >= 0, n <= STRLEN(t))
    for _, c in list(AFTER):
        if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(AFT(c)):
            w = t.arg(0)
            e.assume(st, Implies(HAS(c)(w), STRLEN(w) == IDXF(c)(w) + len(c.encode()) + STRLEN(t)), STRLEN(w) < 1 << 63)
    st.memo[('lead', n.get_id())] = (t, n)
    return n


@m('Iterator::sum')
def it_sum(M, st, f, a):
    from engine import Ret
    it = _consume(M, st, a)
    if isinstance(it.src, tuple) and it.src[0] in ('bytes', 'chars') and it.src[1].lit() is None:
        return leading_bytes(M, st, it)
    out = []
    for s2, xs in M.drain_all(st, it):
        r = 0
        for x in xs:
            r = r + x
        out.append((s2, Ret(r)))
    return out


@m('Chars as Iterator::last', 'Iterator::last')
def it_last(M, st, f, a):
    from engine import Ret
    d = M.dty()
    it = _consume(M, st, a)
    if isinstance(it.src, tuple) and it.src[0] == 'chars' and it.src[1].lit() is None:
        raise Soft('last char')
    return [(s2, Ret(M.some(xs[-1], d) if xs else M.none(d))) for s2, xs in M.drain_all(st, it)]


@m('Iterator::collect')
def it_collect(M, st, f, a):
    from engine import Ret
    e, P = M.e, M.P
    d = M.dty()
    it = _consume(M, st, a)
    et = P.is_vec(d)
    dn = P.types[P.strip(d)].get('name', '')
    if P.is_str(d):
        raise Soft('collect into a string')
    if et is None and dn.endswith('HashSet'):
        et = P.types[P.strip(d)]['args'][0]
    if et is None:
        raise Soft('collect into ' + P.tname(d))
    if isinstance(it.src, tuple) and it.src[0] in ('chars', 'bytes') and it.src[1].lit() is None:
        raise Soft('collect a symbolic string')
    sq = M.src_seq(st, it)
    if isinstance(it.src, tuple) and it.src[0] == 'split' and it.src[3] is None and it.src[1].lit() is None:
        v, c = it.src[1], it.src[2]
        if len(v.p) != 1 or it.ops or not is_int(it.pos) or it.pos != 0:
            raise Soft('unbounded split of a symbolic string')
        t = v.p[0]
        n = F(f'parts:{c!r}', Str, I)(t)
        arr = F(f'split:{c!r}', Str, z3.ArraySort(I, Str))(t)
        b, a1 = BEF(c)(t), AFT(c)(t)
        b2, a2 = BEF(c)(a1), AFT(c)(a1)
        h1, h2, h3 = HAS(c)(t), HAS(c)(a1), HAS(c)(a2)
        cut = lambda x: And(x == CAT(BEF(c)(x), CAT(lit(c), AFT(c)(x))), Not(HAS(c)(BEF(c)(x))), STRLEN(x) == STRLEN(BEF(c)(x)) + 1 + STRLEN(AFT(c)(x)))
        e.assume(st, n >= 1, n <= 1 << 60, (n == 1) == z3.Not(h1), (n == 2) == z3.And(h1, z3.Not(h2)), (n == 3) == z3.And(h1, h2, z3.Not(h3)),
                 z3.Implies(z3.Not(h1), z3.Select(arr, 0) == t), z3.Implies(h1, z3.And(cut(t), z3.Select(arr, 0) == b)),
                 z3.Implies(z3.And(h1, z3.Not(h2)), z3.Select(arr, 1) == a1), z3.Implies(z3.And(h1, h2), z3.And(cut(a1), z3.Select(arr, 1) == b2)),
                 z3.Implies(z3.And(h1, h2, z3.Not(h3)), z3.Select(arr, 2) == a2))
        return SeqS(n, arr, et, tag=f'split:{c!r}:{t.get_id()}')
    if sq is None or isinstance(sq, SeqC):
        return [(s2, Ret(SeqC([M.pairv(x, et) for x in xs], et))) for s2, xs in M.drain_all(st, it)]
    # symbolic source: result indexed by g (source index of k-th result) with inverse h
    nm = fresh_name('coll')
    n2 = z3.Int(nm + '.len')
    arr = z3.Const(nm + '.arr', z3.ArraySort(I, P.sort(et)))
    tag = sq.nm if isinstance(sq, SeqM) else sq.tag
    plain = all(k in ('map', 'copied', 'cloned') for k, _ in it.ops)
    pos = zint(it.pos)
    if plain:
        e.assume(st, n2 == sq.n - pos)
        g = lambda k: k + pos
    else:
        G = F(nm + '.src', I, I)
        H = F(nm + '.dst', I, I)
        g = lambda k: G(k)
        e.assume(st, n2 >= 0, n2 <= sq.n - pos)
    e.assume(st, n2 >= 0)
    pj, probe = z3.Int(fresh_name('p')), st.copy()
    e.assume(probe, pj >= pos, pj < sq.n)
    e.add_term(probe, ('ix', tag), pj)
    M.stages(probe, sq, list(it.ops), pj)       # panics and preconditions at an arbitrary element

    snap = (st.store, st.held)
    st.store = dict(st.store)

    def elem(s, k):
        e.add_term(s, ('ix', tag), g(k))
        c = M.at_snap(s, snap)
        fs = []
        for dl, y, _ in M.pred_at(c, list(it.ops), sq, g(k)):
            if y is not None:
                fs.append(And(dl, z3.Select(arr, k) == e.to_term(M.pairv(y, et), et)))
        cond = Or(*fs)
        if not plain:
            cond = And(cond, g(k) >= pos, g(k) < sq.n, H(g(k)) == k)
        return Implies(And(k >= 0, k < n2), cond)
    e.add_uni(st, ('ix', nm), elem)
    if not plain:
        def complete(s, j):
            c = M.at_snap(s, snap)
            drop = Or(*[dl for dl, y, _ in M.pred_at(c, list(it.ops), sq, j) if y is None])
            if not (z3.is_app(j) and j.decl().eq(G)):
                e.add_term(s, ('ix', nm), H(j))
            return Implies(And(j >= pos, j < sq.n), Or(drop, And(H(j) >= 0, H(j) < n2, G(H(j)) == j)))
        e.add_uni(st, ('ix', tag), complete)
    st.memo[('src', nm)] = (sq, g)
    return SeqS(n2, arr, et, nm)


@m('Vec as IndexMut::index_mut')
def vec_index_mut(M, st, f, a):
    from engine import Ret, Panic
    e = M.e
    v = seqv(M, st, a[0])
    i = a[1]
    if not (is_int(i) or z3.is_expr(i)):
        raise Soft('index by ' + repr(i))
    n = e.seq_len(v)
    if isinstance(v, SeqS):
        e.add_term(st, ('ix', v.tag), zint(i))
    c = 0 <= i < n if is_int(i) and is_int(n) else And(zint(i) >= 0, zint(i) < n)
    r = MutRef(a[0].loc, a[0].path + (('i', i),))
    out = []
    for s2, b in e.branch(st, c):
        out.append((s2, Ret(r) if b else Panic('index out of bounds', e.here())))
    return out


def rng(M, v):
    """(lo, hi) of a Range-like index value"""
    n = M.P.types[v.tid]['name'].split('::')[-1] if isinstance(v, Agg) and v.tid is not None else None
    if n == 'Range':
        return v.f[0], v.f[1]
    if n == 'RangeTo':
        return 0, v.f[0]
    if n == 'RangeFrom':
        return v.f[0], None
    if n == 'RangeFull':
        return 0, None
    return None


@m('Vec as Index::index', '[T] as Index::index', 'String as Index::index', 'str as Index::index', '[T; N] as Index::index')
def vec_index(M, st, f, a):
    from engine import Ret, Panic
    e = M.e
    v = seqv(M, st, a[0])
    i = a[1]
    r = rng(M, i)
    if r is None and not (is_int(i) or z3.is_expr(i)):
        raise Soft('index by ' + repr(i))
    if r is None:
        n = e.seq_len(v)
        c = 0 <= i < n if is_int(i) and is_int(n) else And(zint(i) >= 0, zint(i) < n)
        out = []
        for s2, b in e.branch(st, c):
            out.append((s2, Ret(M.seq_item(s2, v, i)) if b else Panic('index out of bounds', e.here())))
        return out
    lo, hi = r
    if lo == 0 and hi is None and is_int(lo):
        return v
    if isinstance(v, SeqC):
        n = len(v.e)
        hi2 = n if hi is None else hi
        if is_int(lo) and is_int(hi2):
            if not (0 <= lo <= hi2 <= n):
                return [(st, Panic('slice index out of range', e.here()))]
            return SeqC(v.e[lo:hi2], v.et)
        raise Soft('slice of a vector')
    if isinstance(v, SeqS):
        h = v.n if hi is None else hi
        out = []
        for s2, b in e.branch(st, And(zint(lo) >= 0, zint(lo) <= zint(h), zint(h) <= zint(v.n))):
            if not b:
                out.append((s2, Panic('slice index out of range', e.here())))
            else:
                sh = F('slice:' + v.arr.sort().name() + str(v.arr.sort().range()), v.arr.sort(), I, v.arr.sort())
                out.append((s2, Ret(SeqS(norm(zint(h) - zint(lo)), sh(v.arr, zint(lo)), v.et, tag=fresh_name('slice')))))
        return out
    if isinstance(v, Rope):
        return rope_slice(M, st, v, lo, hi, M.key(f).startswith(('str', 'String')))
    raise Soft('slice')


def rope_slice(M, st, v, lo, hi, text=False):
    from engine import Ret, Panic
    e = M.e
    s = v.lit()
    if s is not None and is_int(lo) and (hi is None or is_int(hi)):
        b = s.encode('utf-8', 'surrogatepass') if any(ord(c) > 127 for c in s) else None
        h = len(s) if hi is None else hi
        if not (0 <= lo <= h <= len(s)):
            return [(st, Panic('slice index out of range', e.here()))]
        return Rope([s[lo:h]])
    # recognised cuts
    if is_int(lo) and lo == 0 and hi is not None:
        r = st.memo.get(('cut', vkey(v), vkey(hi)))
        if r:
            return r[0]
        if is_int(hi) and v.p and isinstance(v.p[0], str) and hi <= len(v.p[0]):
            return Rope([v.p[0][:hi]])
    if hi is None:
        r = st.memo.get(('cut+', vkey(v), vkey(norm(z3.simplify(zint(lo))))))
        if r:
            return r[0][1]
        r = st.memo.get(('cut', vkey(v), vkey(lo)))
        if r:
            # includes the delimiter
            return None or Rope([SUBSTR(v.term(), zint(lo), M.strlen(v) if not is_int(M.strlen(v)) else z3.IntVal(M.strlen(v)))])
        if is_int(lo) and v.p and isinstance(v.p[0], str) and lo <= len(v.p[0]):
            return Rope([v.p[0][lo:]] + list(v.p[1:]))
    if hi is None and len(v.p) == 1 and z3.is_expr(lo):
        # the cut after the leading part of what follows a cut
        for k, x in list(st.memo.items()):
            if k[0] == 'lead':
                t, n = x
                off = z3.simplify(zint(lo) - n)
                rest = t.eq(v.p[0]) and z3.is_int_value(off) and off.as_long() == 0
                for _, ch in list(AFTER):
                    if AFT(ch)(v.p[0]).eq(t):
                        w = len(ch.encode())
                        rest = rest or any(z3.is_true(z3.simplify(off == z3.simplify(x + w))) for x in (IDXF(ch)(v.p[0]), STRLEN(BEF(ch)(v.p[0]))))
                if rest:
                    d = F('drop', Str, I, Str)(t, n)
                    e.assume(st, STRLEN(d) == STRLEN(t) - n, Implies(HEADER_HOST(t), HEADER_HOST(d)))
                    return Rope([d])
    M.slen_ax(st, v)
    n = M.strlen(v)
    h = n if hi is None else hi
    c = And(zint(lo) >= 0, zint(lo) <= zint(h), zint(h) <= zint(n))
    out = []
    for s2, b in e.branch(st, norm(z3.simplify(zbool(c)))):
        if b:
            t = SUBSTR(v.term(), zint(lo), zint(h))
            e.assume(s2, STRLEN(t) == zint(h) - zint(lo))
            if text:
                # whether the cut is at a character is not tracked
                s3 = s2.copy()
                s3.gr['weak'] = (z3.BoolVal(True),)
                out.append((s3, Panic('a slice that may cut a character', e.here())))
            out.append((s2, Ret(Rope([t]))))
        else:
            out.append((s2, Panic('slice index out of range', e.here())))
    return out


@m('[T]::join')
def join(M, st, f, a):
    v = seqv(M, st, a[0])
    sep = rope(a[1])
    if isinstance(v, SeqC):
        r = Rope([])
        for n, x in enumerate(v.e):
            r = r + (sep if n else Rope([])) + rope(x)
        return r
    et = v.et
    t = v.t if isinstance(v, SeqT) else None
    if t is None:
        r = z3.Const(fresh_name('join'), Str)
        M.e.event(st, 'join', data=r, n=v.n if isinstance(v, SeqS) else None, sep=sep)
        return Rope([r])
    return Rope([F('join:' + t.sort().name(), t.sort(), Str, Str)(t, sep.term())])


@m('[T]::sort', '[T]::reverse', '[T]::sort_unstable')
def sort_(M, st, f, a):
    v = seqv(M, st, a[0])
    if isinstance(v, SeqC):
        # a permutation; element order is not tracked
        M.e.event(st, 'sort', n=len(v.e))
        return M.unit()
    if isinstance(v, SeqS):
        nm = fresh_name('sorted')
        M.e.assign_ref(st, a[0], SeqS(v.n, z3.Const(nm, v.arr.sort()), v.et, nm))
        return M.unit()
    raise Soft('sort')


@m('Vec::dedup', 'Vec::dedup_by', 'Vec::dedup_by_key')
def dedup(M, st, f, a):
    v = seqv(M, st, a[0])
    if isinstance(v, SeqC) and len(v.e) < 2:
        return M.unit()
    if isinstance(v, SeqS):
        nm = fresh_name('deduped')
        n = z3.Int(fresh_name('dedup.len'))
        M.e.assume(st, n >= 0, n <= v.n, (n == 0) == (zint(v.n) == 0))
        M.e.assign_ref(st, a[0], SeqS(n, z3.Const(nm, v.arr.sort()), v.et, nm))
        return M.unit()
    raise Soft('dedup')


@m('boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(M, st, f, a):
    v = a[0]
    if isinstance(v, MutRef):
        v = M.e.deref(st, v)
    return v


@m('Box::new_uninit')
def new_uninit(M, st, f, a):
    loc = ('heap', fresh_loc('uninit'))
    st.store[loc] = None
    return MutRef(loc)


# ---- strings ---------------------------------------------------------------------
@m('str::chars')
def chars(M, st, f, a):
    return Nat('iter', src=('chars', rope(seqv(M, st, a[0]))), pos=0, ops=())


@m('str::bytes')
def bytes_(M, st, f, a):
    return Nat('iter', src=('bytes', rope(seqv(M, st, a[0]))), pos=0, ops=())


def _pat(M, p):
    if is_int(p):
        return chr(p)
    if isinstance(p, Rope) and p.lit() is not None and len(p.lit()) == 1:
        return p.lit()
    return None


@m('str::splitn')
def splitn(M, st, f, a):
    c = _pat(M, a[2])
    if c is None or not is_int(a[1]):
        raise Soft('splitn')
    return Nat('iter', src=('split', rope(a[0]), c, a[1]), pos=0, ops=())


@m('str::split')
def split(M, st, f, a):
    c = _pat(M, a[1])
    if c is None:
        raise Soft('split')
    return Nat('iter', src=('split', rope(a[0]), c, None), pos=0, ops=())


@m('str::split_once')
def split_once(M, st, f, a):
    from engine import Ret
    c = _pat(M, a[1])
    if c is None:
        raise Soft('split_once')
    d = M.dty()
    out = []
    for s2, r in M.split_first(st, rope(seqv(M, st, a[0])), c):
        if r is None:
            out.append((s2, Ret(M.none(d))))
        else:
            out.append((s2, Ret(M.some(Agg(M.P.strip(M.somety(d)), 0, r), d))))
    return out


@m('str::find')
def str_find(M, st, f, a):
    from engine import Ret
    c = _pat(M, a[1])
    if c is None:
        raise Soft('find')
    v = rope(seqv(M, st, a[0]))
    d = M.dty()
    out = []
    for s2, r in M.split_first(st, v, c):
        if r is None:
            out.append((s2, Ret(M.none(d))))
        else:
            n = M.strlen(r[0])
            M.slen_ax(s2, r[0])
            s2.memo[('cut', vkey(v), vkey(n))] = r
            s2.memo[('cut+', vkey(v), vkey(norm(z3.simplify(zint(n) + 1))))] = (r, c)
            out.append((s2, Ret(M.some(n, d))))
    return out


@m('str::contains')
def str_contains(M, st, f, a):
    c = _pat(M, a[1])
    if c is None:
        raise Soft('contains')
    return M.has_char(seqv(M, st, a[0]), c)


def word_prefix(M, st, v, p):
    """v starts with "word" + c, for a c not in the word: what is before the first c is the word"""
    if len(p) < 2 or p[-1] in p[:-1] or len(v.p) != 1 or isinstance(v.p[0], str):
        return None
    t, c = v.p[0], p[-1]
    h = M.has1(t, c)
    M.e.assume(st, Implies(h, And(t == CAT(BEF(c)(t), CAT(lit(c), AFT(c)(t))), Not(HAS(c)(BEF(c)(t))),
                                  STRLEN(t) == STRLEN(BEF(c)(t)) + 1 + STRLEN(AFT(c)(t)), STRLEN(BEF(c)(t)) >= 0, STRLEN(AFT(c)(t)) >= 0)))
    return And(h, BEF(c)(t) == lit(p[:-1]))


@m('str::starts_with')
def starts_with(M, st, f, a):
    v = rope(seqv(M, st, a[0]))
    p = a[1]
    p = chr(p) if is_int(p) else rope(p).lit() if isinstance(p, Rope) else None
    if p is None:
        raise Soft('starts_with')
    if v.lit() is not None:
        return v.lit().startswith(p)
    if v.p and isinstance(v.p[0], str):
        h = v.p[0]
        if len(h) >= len(p) or h != p[:len(h)]:
            return h.startswith(p)
    t = v.term()
    w = word_prefix(M, st, v, p)
    if w is not None:
        return w
    # prefixes are ordered: starts_with(longer) implies starts_with(shorter); incompatible ones exclude
    regs = M.e.prefix.setdefault(t.get_id(), (t, set()))[1]
    regs.add(p)
    for q in regs:
        if q == p:
            continue
        if q.startswith(p):
            M.e.assume(st, Implies(PREFIX(t, lit(q)), PREFIX(t, lit(p))))
        elif p.startswith(q):
            M.e.assume(st, Implies(PREFIX(t, lit(p)), PREFIX(t, lit(q))))
        else:
            M.e.assume(st, Not(And(PREFIX(t, lit(p)), PREFIX(t, lit(q)))))
    return PREFIX(t, lit(p))


@m('str::ends_with')
def ends_with(M, st, f, a):
    v = rope(seqv(M, st, a[0]))
    p = a[1]
    p = chr(p) if is_int(p) else rope(p).lit() if isinstance(p, Rope) else None
    if p is None:
        raise Soft('ends_with')
    if v.lit() is not None:
        return v.lit().endswith(p)
    return SUFFIX(v.term(), lit(p))


def name_of_host(M, st, t, r):
    """where the text before the first colon is "host", what follows the colon is the value of a Host field"""
    if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(BEF(':')):
        M.e.assume(st, Implies(r, HEADER_HOST(AFT(':')(t.arg(0)))))


def is_host_field(x):
    """a header line whose name is Host"""
    return And(HAS(':')(x), EQIGN(BEF(':')(x), lit('host')))


HOSTS = F('host_fields', z3.ArraySort(I, Str), I, I)        # how many of the first n lines are Host fields


def _strfn(fn, py, name):
    def h(M, st, f, a):
        v = rope(seqv(M, st, a[0]))
        if v.lit() is not None:
            return Rope([py(v.lit())])
        t = v.term()
        r = fn(t)
        M.e.assume(st, Implies(t == lit(''), r == lit('')))
        if fn is LOWER:
            M.e.assume(st, Implies(r == lit('host'), EQIGN(t, lit('host'))), Implies(EQIGN(t, lit('host')), r == lit('host')))
            name_of_host(M, st, t, EQIGN(t, lit('host')))
        if fn in (TRIM, TRIMEND, TRIMSTART):
            M.e.assume(st, STRLEN(r) <= STRLEN(t), Implies(HEADER_HOST(t), HEADER_HOST(r)))
        return Rope([r])
    m(*name)(h)


_strfn(LOWER, str.lower, ('str::to_lowercase', 'str::to_ascii_lowercase'))
_strfn(F('uppercase', Str, Str), str.upper, ('str::to_uppercase', 'str::to_ascii_uppercase'))
_strfn(TRIM, str.strip, ('str::trim',))
_strfn(TRIMEND, str.rstrip, ('str::trim_end',))
_strfn(TRIMSTART, str.lstrip, ('str::trim_start',))


@m('str::strip_prefix')
def strip_prefix(M, st, f, a):
    v = rope(seqv(M, st, a[0]))
    p = a[1]
    p = chr(p) if is_int(p) else rope(p).lit()
    d = M.dty()
    if v.p and isinstance(v.p[0], str) and len(v.p[0]) >= len(p):
        if v.p[0].startswith(p):
            return M.some(Rope([v.p[0][len(p):]] + list(v.p[1:])), d)
        return M.none(d)
    w = word_prefix(M, st, v, p)
    if w is not None:
        return M.split(st, w, lambda s: M.some(Rope([AFT(p[-1])(v.p[0])]), d), lambda s: M.none(d))
    if len(v.p) == 1:
        t = v.p[0]
        r = F('without_prefix', Str, Str, Str)(t, lit(p))

        def yes(s):
            M.e.assume(s, t == CAT(lit(p), r), STRLEN(t) == len(p.encode()) + STRLEN(r), STRLEN(r) >= 0)
            return M.some(Rope([r]), d)
        return M.split(st, PREFIX(t, lit(p)), yes, lambda s: M.none(d))
    raise Soft('strip_prefix')


@m('str::eq_ignore_ascii_case')
def eq_ign(M, st, f, a):
    x, y = rope(seqv(M, st, a[0])), rope(seqv(M, st, a[1]))
    if x.lit() is not None and y.lit() is not None:
        return x.lit().lower() == y.lit().lower()
    r = EQIGN(x.term(), y.term())
    for k, y2 in ((x, y), (y, x)):
        if y2.lit() is not None and y2.lit().lower() == 'host' and len(k.p) == 1:
            M.e.assume(st, Implies(r, EQIGN(k.term(), lit('host'))), Implies(EQIGN(k.term(), lit('host')), r))
            name_of_host(M, st, k.term(), r)
    return r


@m('str::parse')
def str_parse(M, st, f, a):
    d = M.dty()
    ok = M.P.types[M.okty(d)]
    if ok['k'] != 'int':
        raise Soft('parse')
    v = rope(seqv(M, st, a[0]))
    if v.lit() is not None:
        s = v.lit()
        if re.fullmatch(r'\+?[0-9]+', s) and int(s) < (1 << ok['w']):
            return M.ok(int(s), d)
        return M.err(M.e.fresh(st, M.errty(d), 'parseint'), d)
    t = v.term()

    def yes(s):
        M.e.assume(s, PARSEU(t) >= 0, PARSEU(t) < (1 << ok['w']))
        return M.ok(PARSEU(t), d)
    return M.split(st, PARSEU_OK(t), yes, lambda s: M.err(M.e.fresh(s, M.errty(d), 'parseint'), d))


@m('String::push', 'str::push')
def string_push(M, st, f, a):
    return vec_push(M, st, f, a)


@m('String::push_str')
def push_str(M, st, f, a):
    v = seqv(M, st, a[0])
    M.e.assign_ref(st, a[0], rope(v) + rope(seqv(M, st, a[1])))
    return M.unit()


@m('PathBuf::push')
def path_push(M, st, f, a):
    v = seqv(M, st, a[0])
    M.e.assign_ref(st, a[0], rope(v) + Rope(['/']) + rope(seqv(M, st, a[1])))
    return M.unit()


@m('Path::join')
def path_join(M, st, f, a):
    return rope(seqv(M, st, a[0])) + Rope(['/']) + rope(seqv(M, st, a[1]))


@m('str::from_utf8', 'String::from_utf8')
def from_utf8(M, st, f, a):
    d = M.dty()
    v = rope(seqv(M, st, a[0]))
    if v.lit() is not None:
        return M.ok(v, d)
    c = And(*[UTF8(p) for p in v.p if not isinstance(p, str)])
    return M.split(st, c, lambda s: M.ok(v, d), lambda s: M.err(M.e.fresh(s, M.errty(d), 'utf8err'), d))


@m('String::from_utf8_lossy')
def from_utf8_lossy(M, st, f, a):
    return rope(seqv(M, st, a[0]))


@m('Path::to_str', 'OsStr::to_str')
def to_str(M, st, f, a):
    d = M.dty()
    v = rope(seqv(M, st, a[0]))
    if v.lit() is not None:
        return M.some(v, d)
    return M.split(st, UTF8(v.term()), lambda s: M.some(v, d), lambda s: M.none(d))


@m('T as ToString::to_string', 'ToString::to_string')
def to_string(M, st, f, a):
    from engine import Ret
    return [(s2, Ret(r)) for s2, r in M.display(st, a[0], f['args'][0] if f['args'] else None)]


# ---- fmt ----------------------------------------------------------------------------
@m('Argument::new_display')
def arg_display(M, st, f, a):
    from engine import Ret
    return [(s2, Ret(Nat('fmtarg', msg=r))) for s2, r in M.display(st, a[0], f['args'][0] if f['args'] else None)]


@m('Argument::new_debug', 'Argument::new_upper_hex', 'Argument::new_lower_hex')
def arg_debug(M, st, f, a):
    v = a[0]
    if isinstance(v, Rope):
        return Nat('fmtarg', msg=Rope([F('debug_str', Str, Str)(v.term())]))
    return Nat('fmtarg', msg=Rope([z3.Const(fresh_name('debug'), Str)]))


def expand_template(bs, args):
    out, i, n = Rope([]), 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out = out + Rope([bytes(bs[i:i + b]).decode('utf-8', 'replace')])
            i += b
        elif b == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out = out + Rope([bytes(bs[i:i + ln]).decode('utf-8', 'replace')])
            i += ln
        else:
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            out = out + rope(args[n].a['msg'])
            n += 1
    return out


@m('Arguments::new')
def arguments_new(M, st, f, a):
    t = rope(seqv(M, st, a[0])).lit()
    args = seqv(M, st, a[1])
    if t is None or not isinstance(args, SeqC):
        raise Soft('format template')
    return Nat('fmtargs', msg=expand_template([ord(c) for c in t], list(args.e)))


@m('Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const')
def arguments_from_str(M, st, f, a):
    return Nat('fmtargs', msg=rope(seqv(M, st, a[0])))


@m('fmt::format')
def fmt_format(M, st, f, a):
    return a[0].a['msg']


@m('Formatter::write_fmt', 'Formatter::write_str', 'Write::write_str', 'String as Write::write_str', 'fmt::Write::write_fmt')
def fmt_write(M, st, f, a):
    cur = seqv(M, st, a[0])
    if not isinstance(cur, Rope):
        raise Soft('formatter')
    x = a[1].a['msg'] if isinstance(a[1], Nat) else rope(a[1])
    M.e.assign_ref(st, a[0], cur + x)
    return M.ok(M.unit())


@m('io::_print', 'io::_eprint')
def print_(M, st, f, a):
    M.e.event(st, 'print' if M.key(f).endswith('_print') and 'eprint' not in M.key(f) else 'eprint', data=a[0].a['msg'] if isinstance(a[0], Nat) and 'msg' in a[0].a else None)
    return M.unit()


# ---- errors --------------------------------------------------------------------------
@m('Box as From::from', 'Box<(dyn std::error::Error + 'r"'a)> as From::from")
def box_err_from(M, st, f, a):
    from engine import Ret
    v = a[0]
    if isinstance(v, Nat) and v.k == 'err':
        return v
    tid = f['args'][0] if f['args'] and isinstance(f['args'][0], int) else M.e.cur_atys[0] if M.e.cur_atys else None
    return [(s2, Ret(Nat('err', msg=r, src=v))) for s2, r in M.display(st, v, tid)]


# ---- maps -----------------------------------------------------------------------------
def empty_map(M, kt, vt):
    P = M.P
    ks, vs = P.sort(kt), P.sort(vt)
    dom = z3.K(ks, z3.BoolVal(False))
    mp = z3.K(ks, z3.Const(f'dflt:{vs.name()}', vs))
    return MapV(dom, mp, kt, vt, keys=(), n=0)


@m('HashMap::new', 'HashMap::with_capacity', 'HashMap as Default::default')
def map_new(M, st, f, a):
    kt, vt = M.P.is_map(M.dty())
    return empty_map(M, kt, vt)


def _isin(M, st, mv, k):
    if mv.keys is not None:
        cs = []
        for x in mv.keys:
            c = x.eq(k)
            if c:
                return True
            cs.append(norm(z3.simplify(x == k)))
        return Or(*cs)
    M.map_key_term(st, mv, k)
    return z3.Select(mv.dom, k)


@m('HashMap::insert')
def map_insert(M, st, f, a):
    from engine import Ret
    e = M.e
    mv = seqv(M, st, a[0])
    d = M.dty()
    k = e.to_term(a[1], mv.kt)
    v = e.to_term(a[2], mv.vt)
    if isinstance(a[2], Rope):
        e.event(st, 'put', data=a[2])
    out = []
    for s2, b in e.branch(st, _isin(M, st, mv, k)):
        keys = mv.keys
        if keys is not None and not b:
            keys = keys + (k,)
        n = mv.n if b or mv.n is None else mv.n + 1
        M.map_key_term(s2, mv, k)
        nv = MapV(z3.Store(mv.dom, k, z3.BoolVal(True)), z3.Store(mv.map, k, v), mv.kt, mv.vt, keys, n)
        old = M.map_val(s2, mv, k)
        e.assign_ref(s2, a[0], nv)
        out.append((s2, Ret(M.some(old, d) if b else M.none(d))))
    return out


@m('HashMap::get')
def map_get(M, st, f, a):
    e = M.e
    mv = seqv(M, st, a[0])
    d = M.dty()
    k = e.to_term(seqv(M, st, a[1]), mv.kt)
    return M.split(st, _isin(M, st, mv, k), lambda s: M.some(M.map_val(s, mv, k), d), lambda s: M.none(d))


@m('HashMap::contains_key')
def map_contains(M, st, f, a):
    mv = seqv(M, st, a[0])
    return _isin(M, st, mv, M.e.to_term(seqv(M, st, a[1]), mv.kt))


@m('HashMap as Index::index')
def map_index(M, st, f, a):
    mv = seqv(M, st, a[0])
    k = M.e.to_term(seqv(M, st, a[1]), mv.kt)
    return _panic_unless(M, st, _isin(M, st, mv, k), M.map_val(st, mv, k), 'HashMap index: no entry for key')


@m('HashMap::remove')
def map_remove(M, st, f, a):
    from engine import Ret
    e = M.e
    mv = seqv(M, st, a[0])
    d = M.dty()
    k = e.to_term(seqv(M, st, a[1]), mv.kt)
    out = []
    for s2, b in e.branch(st, _isin(M, st, mv, k)):
        if b:
            if mv.keys is not None:
                raise Unsupported('remove from enumerated map')
            old = M.map_val(s2, mv, k)
            e.assign_ref(s2, a[0], MapV(z3.Store(mv.dom, k, z3.BoolVal(False)), mv.map, mv.kt, mv.vt))
            out.append((s2, Ret(M.some(old, d))))
        else:
            out.append((s2, Ret(M.none(d))))
    return out


@m('HashMap::len')
def map_len(M, st, f, a):
    mv = seqv(M, st, a[0])
    if mv.keys is not None:
        return len(mv.keys)
    return M.map_enum(st, mv)[0]


@m('HashMap::is_empty')
def map_is_empty(M, st, f, a):
    n = map_len(M, st, f, a)
    return n == 0


# ---- VecDeque -----------------------------------------------------------------------
@m('VecDeque::new')
def deque_new(M, st, f, a):
    return Nat('deque', et=None, e=())


@m('VecDeque::push_back', 'VecDeque::push_front')
def deque_push(M, st, f, a):
    dq = seqv(M, st, a[0])
    M.e.event(st, 'enqueue', item=a[1], back=M.key(f).endswith('push_back'))
    M.e.assign_ref(st, a[0], dq.with_(e=(dq.a.get('e') or ()) + (a[1],), dirty=True))
    return M.unit()


@m('VecDeque::pop_front', 'VecDeque::pop_back')
def deque_pop(M, st, f, a):
    d = M.dty()
    dq = seqv(M, st, a[0])
    c = z3.Bool(fresh_name('nonempty'))

    def yes(s):
        it = M.e.fresh(s, M.somety(d), 'queued')
        M.e.event(s, 'dequeue', item=it, front=M.key(f).endswith('pop_front'))
        return M.some(it, d)

    def no(s):
        M.e.event(s, 'queue_empty')
        return M.none(d)
    return M.split(st, c, yes, no)


@m('VecDeque::clear')
def deque_clear(M, st, f, a):
    M.e.event(st, 'queue_clear')
    return M.unit()


@m('VecDeque::is_empty')
def deque_is_empty(M, st, f, a):
    return z3.Bool(fresh_name('qempty'))


# ---- I/O -----------------------------------------------------------------------------
@m('Read::read_to_end', 'Read::read_to_string', 'Stdin as Read::read_to_end', 'Read::read_exact')
def read_all(M, st, f, a):
    e = M.e
    d = M.dty()
    src = seqv(M, st, a[0])

    def okv(s):
        data = Rope([z3.Const(fresh_name('input'), Str)])
        old = seqv(M, s, a[1])
        e.assign_ref(s, a[1], rope(old) + data)
        e.event(s, 'read', data=data, src=src, whole=True, take=taken(M, s, src))
        if 'string' in M.key(f):
            e.assume(s, UTF8(data.term()))
        n = z3.Int(fresh_name('nread'))
        e.assume(s, n >= 0, n == STRLEN(data.term()))
        return n
    return M.okerr(st, okv, 'read')


@m('BufReader::new')
def bufreader(M, st, f, a):
    return Nat('bufreader', inner=a[0], limit=None)


@m('Read::take')
def read_take(M, st, f, a):
    return Nat('bufreader', inner=a[0], limit=a[1], take=fresh_name('take'))


def taken(M, st, rd):
    """(name, limit) of the Take a reader reads through, if any"""
    for _ in range(5):
        rd = seqv(M, st, rd)
        if not isinstance(rd, Nat) or rd.k != 'bufreader':
            return None
        if rd.a.get('limit') is not None:
            return rd.a['take'], rd.a['limit']
        rd = rd.a.get('inner')
    return None


@m('BufRead::read_line')
def read_line(M, st, f, a):
    e = M.e
    rd = seqv(M, st, a[0])

    def okv(s):
        data = Rope([z3.Const(fresh_name('line'), Str)])
        old = seqv(M, s, a[1])
        e.assign_ref(s, a[1], rope(old) + data)
        n = z3.Int(fresh_name('nread'))
        e.assume(s, n >= 0, n == STRLEN(data.term()), n <= 1 << 62)
        tk = taken(M, s, rd)
        if tk is not None:
            e.assume(s, n <= tk[1])
        e.event(s, 'readline', data=data, take=tk)
        return n
    return M.okerr(st, okv, 'read_line')


@m('Write::write_all', 'Stdout as Write::write_all', 'UnixStream as Write::write_all')
def write_all(M, st, f, a):
    data = seqv(M, st, a[1])
    dst = seqv(M, st, a[0])
    M.e.event(st, 'write', data=rope(data), dst=dst)
    return M.okerr(st, lambda s: (M.e.event(s, 'written', dst=dst), M.unit())[1], 'write')


@m('Write::flush', 'Stdout as Write::flush', 'UnixStream as Write::flush')
def flush_(M, st, f, a):
    dst = seqv(M, st, a[0])
    return M.okerr(st, lambda s: (M.e.event(s, 'flushed', dst=dst), M.unit())[1], 'flush')


@m('io::stdin', 'io::stdout', 'io::stderr')
def stdio(M, st, f, a):
    return Dt(M.P.strip(M.dty()), z3.Const(M.key(f), M.P.sort(M.dty())))


@m('UnixStream::connect', 'TcpStream::connect')
def connect(M, st, f, a):
    d = M.dty()
    M.e.event(st, 'connect', path=seqv(M, st, a[0]))
    return M.okerr(st, lambda s: M.e.fresh(s, M.okty(d), 'conn'), 'connect')


@m('UnixStream::shutdown', 'TcpStream::shutdown')
def shutdown(M, st, f, a):
    M.e.event(st, 'shutdown', how=a[1])
    return M.okerr(st, M.unit(), 'shutdown')


@m('TcpListener::bind', 'UnixListener::bind')
def bind(M, st, f, a):
    d = M.dty()
    M.e.event(st, 'bind', addr=seqv(M, st, a[0]))
    return M.okerr(st, lambda s: M.e.fresh(s, M.okty(d), 'listener'), 'bind')


@m('SocketAddr::port')
def addr_port(M, st, f, a):
    t = z3.Int(fresh_name('port'))
    M.e.assume(st, t >= 0, t < 65536)
    return t


@m('env::var')
def env_var(M, st, f, a):
    k = rope(a[0]).lit()
    c = z3.Bool(f'env_set:{k}')
    d = M.dty()
    return M.split(st, c, lambda s: M.ok(Rope([z3.Const(f'env:{k}', Str)]), d), lambda s: M.err(M.e.fresh(s, M.errty(d), 'varerr'), d))


@m('env::var_os')
def env_var_os(M, st, f, a):
    k = rope(a[0]).lit()
    c = z3.Bool(f'env_os_set:{k}')
    d = M.dty()
    return M.split(st, c, lambda s: M.some(Rope([z3.Const(f'env:{k}', Str)]), d), lambda s: M.none(d))


@m('fs::remove_file', 'fs::create_dir', 'fs::set_permissions', 'fs::create_dir_all', 'fs::remove_dir', 'fs::remove_dir_all', 'fs::rename', 'fs::write')
def fs_op(M, st, f, a):
    M.e.event(st, 'fs', op=M.key(f).split('::')[-1], path=seqv(M, st, a[0]), arg=seqv(M, st, a[1]) if len(a) > 1 else None)
    return M.okerr(st, M.unit(), M.key(f))


@m('fs::read_to_string')
def fs_read(M, st, f, a):
    d = M.dty()
    M.e.event(st, 'fs', op='read', path=seqv(M, st, a[0]), arg=None)
    return M.okerr(st, lambda s: Rope([z3.Const(fresh_name('file'), Str)]), 'fsread')


@m('Path::exists', 'Path::is_file')
def path_exists(M, st, f, a):
    p = seqv(M, st, a[0])
    c = z3.Bool(fresh_name('exists'))
    M.e.event(st, 'fs', op=M.key(f).split('::')[-1], path=p, arg=c)
    return c


@m('Permissions as PermissionsExt::from_mode')
def from_mode(M, st, f, a):
    return Nat('perm', mode=a[0])


# ---- processes -----------------------------------------------------------------------
@m('Command::new')
def cmd_new(M, st, f, a):
    return Nat('cmd', prog=seqv(M, st, a[0]), env=(), args=(), stdio=(), t=None)


@m('Command::env')
def cmd_env(M, st, f, a):
    c = seqv(M, st, a[0])
    M.e.assign_ref(st, a[0], c.with_(env=c.a['env'] + ((rope(a[1]), rope(seqv(M, st, a[2]))),)))
    return a[0]


@m('Command::args', 'Command::arg')
def cmd_args(M, st, f, a):
    c = seqv(M, st, a[0])
    v = seqv(M, st, a[1])
    xs = tuple(v.e) if isinstance(v, SeqC) else (v,)
    M.e.assign_ref(st, a[0], c.with_(args=c.a['args'] + xs))
    return a[0]


@m('Command::stdin', 'Command::stdout', 'Command::stderr')
def cmd_stdio(M, st, f, a):
    return a[0]


@m('Stdio::null', 'Stdio::piped', 'Stdio::inherit')
def stdio(M, st, f, a):
    return Nat('stdio')


@m('Command::spawn', 'Command::output', 'Command::status')
def cmd_run(M, st, f, a):
    c = seqv(M, st, a[0])
    d = M.dty()
    how = M.key(f).split('::')[-1]
    M.e.event(st, 'cmd', how=how, prog=c.a['prog'], env=c.a['env'], args=c.a['args'])
    return M.okerr(st, lambda s: M.e.fresh(s, M.okty(d), 'child'), 'cmd')


@m('Child as ChildExt::wait_timeout')
def child_wait(M, st, f, a):
    d = M.dty()
    M.e.event(st, 'childwait', dur=a[1])
    ot = M.okty(d)

    def okv(s):
        return M.e.fresh(s, ot, 'waitstatus')
    return M.okerr(st, okv, 'wait')


@m('Child::wait', 'Child::kill')
def child_kw(M, st, f, a):
    d = M.dty()
    M.e.event(st, 'child' + M.key(f).split('::')[-1])
    return M.okerr(st, lambda s: M.e.fresh(s, M.okty(d), 'st'), 'child')


@m('ExitStatus::success')
def es_success(M, st, f, a):
    v = seqv(M, st, a[0])
    M.e.event(st, 'status_checked', status=v)
    return F('exit_success', v.t.sort(), B)(v.t)


@m('ExitStatus::code')
def es_code(M, st, f, a):
    return M.e.fresh(st, M.dty(), 'code')


@m('signal::raise')
def sig_raise(M, st, f, a):
    M.e.event(st, 'raise', sig=a[0])
    return M.okerr(st, M.unit(), 'raise')


# ---- ureq ---------------------------------------------------------------------------
@m('AgentBuilder::new')
def agent_new(M, st, f, a):
    return Nat('agent', timeout=None)


@m('AgentBuilder::timeout')
def agent_timeout(M, st, f, a):
    return a[0].with_(timeout=a[1])


@m('AgentBuilder::build')
def agent_build(M, st, f, a):
    return a[0]


@m('Agent::post')
def agent_post(M, st, f, a):
    return Nat('req', url=rope(seqv(M, st, a[1])), timeout=seqv(M, st, a[0]).a['timeout'])


@m('ureq::post')
def ureq_post(M, st, f, a):
    return Nat('req', url=rope(seqv(M, st, a[0])), timeout=None)


@m('Request::timeout')
def req_timeout(M, st, f, a):
    return a[0].with_(timeout=a[1])


@m('Request::send_form')
def send_form(M, st, f, a):
    d = M.dty()
    rq = a[0]
    pairs = seqv(M, st, a[1])
    ps = None
    if isinstance(pairs, SeqC):
        ps = [(x.f[0], x.f[1]) for x in pairs.e]
    ot, et = M.okty(d), M.errty(d)
    nm = fresh_name('post')
    ok = z3.Bool(nm + '.ok')
    resp = M.e.fresh(st, ot, nm + '.resp')
    er = M.e.fresh(st, et, nm + '.err')
    M.e.event(st, 'post', url=rq.url, pairs=ps, timeout=rq.a['timeout'], ok=ok, resp=resp, err=er)
    return M.split(st, ok, lambda s: M.ok(resp, d), lambda s: M.err(er, d))


@m('Response::into_string')
def into_string(M, st, f, a):
    r = a[0]
    d = M.dty()
    ok = F('body_ok', r.t.sort(), B)(r.t)
    body = Rope([F('body', r.t.sort(), Str)(r.t)])
    return M.split(st, ok, lambda s: M.ok(body, d), lambda s: M.err(M.e.fresh(s, M.errty(d), 'bodyerr'), d))


@m('Transport::kind')
def transport_kind(M, st, f, a):
    v = seqv(M, st, a[0])
    ks = M.P.sort(M.dty())
    return M.e.from_term(F('transport_kind', v.t.sort(), ks)(v.t), M.dty())


# ---- serde_json -----------------------------------------------------------------------
@m('serde_json::to_value')
def json_to_value(M, st, f, a):
    """a map from strings to strings always is a JSON value"""
    v = a[0]
    if isinstance(v, Ref) if 'Ref' in globals() else False:
        v = M.e.deref(st, v)
    d = M.dty()
    ok = M.e.P.types[M.e.P.strip(d)]['args'][0]
    if not isinstance(v, MapV):
        raise Soft('value')
    return M.ok(M.e.fresh(st, ok, 'jsonvalue'), d)


@m('serde_json::from_str')
def json_from_str(M, st, f, a):
    d = M.dty()
    s = rope(seqv(M, st, a[0])).term()
    vt = M.okty(d)
    J = F('json_val', Str, M.P.sort(vt))
    M.e.event(st, 'json', body=s)
    return M.split(st, JSON_OK(s), lambda x: M.ok(Dt(M.P.strip(vt), J(s)), d), lambda x: M.err(M.e.fresh(x, M.errty(d), 'jsonerr'), d))


def json_member(M, v, key):
    """(condition, value term) for member `key` of a serde_json::Value"""
    tid = M.P.strip(v.tid)
    _, oi = M.variant(tid, 'Object')
    s, cs = M.P.dt(tid)
    t = M.e.to_term(v, tid)
    mp = cs[oi][2][0](t)
    has = F('jmap_has', mp.sort(), Str, B)(mp, key)
    val = F('jmap_get', mp.sort(), Str, s)(mp, key)
    return z3.And(cs[oi][1](t), has), val


@m('Value as Index::index')
def json_index(M, st, f, a):
    v = seqv(M, st, a[0])
    k = rope(a[1]).term()
    c, val = json_member(M, v, k)
    tid = M.P.strip(v.tid)
    _, ni = M.variant(tid, 'Null')
    return M.ite(st, c, Dt(tid, val), Agg(tid, ni, ()), tid)


@m('Value::get')
def json_get(M, st, f, a):
    v = seqv(M, st, a[0])
    d = M.dty()
    c, val = json_member(M, v, rope(a[1]).term())
    return M.ite(st, c, M.some(Dt(M.P.strip(v.tid), val), d), M.none(d), d)


@m('Value::as_str')
def json_as_str(M, st, f, a):
    v = seqv(M, st, a[0])
    d = M.dty()
    _, si = M.variant(v.tid, 'String')
    if isinstance(v, Agg) and v.var != si:
        return M.none(d)
    return M.ite(st, M.e.is_variant(v, si), M.some(M.e.field(v, 0, si), d), M.none(d), d)


@m('Value::as_u64')
def json_as_u64(M, st, f, a):
    v = seqv(M, st, a[0])
    d = M.dty()
    _, ni = M.variant(v.tid, 'Number')
    if isinstance(v, Agg) and v.var != ni:
        return M.none(d)
    num = M.e.field(v, 0, ni).t
    isu = F('num_is_u64', num.sort(), B)(num)
    val = F('num_u64', num.sort(), I)(num)

    M.e.assume(st, val >= 0, val < 1 << 64)
    return M.ite(st, And(M.e.is_variant(v, ni), isu), M.some(val, d), M.none(d), d)


# ---- url --------------------------------------------------------------------------------
@m('Url::parse')
def url_parse(M, st, f, a):
    d = M.dty()
    s = rope(seqv(M, st, a[0])).term()
    ut = M.okty(d)
    us = M.P.sort(ut)
    u = F('url_of', Str, us)(s)
    return M.split(st, F('url_ok', Str, B)(s), lambda x: M.ok(Dt(M.P.strip(ut), u), d), lambda x: M.err(M.e.fresh(x, M.errty(d), 'urlerr'), d))


@m('Url::parse_with_params')
def url_params(M, st, f, a):
    d = M.dty()
    ut = M.okty(d)
    base = rope(seqv(M, st, a[0]))
    ps = seqv(M, st, a[1])
    u = Dt(M.P.strip(ut), z3.Const(fresh_name('authurl'), M.P.sort(ut)))
    ok = F('url_ok', Str, B)(base.term())

    def yes(s):
        M.e.event(s, 'urlbuild', url=u, base=base, params=ps)
        return M.ok(u, d)
    return M.split(st, ok, yes, lambda x: M.err(M.e.fresh(x, M.errty(d), 'urlerr'), d))


@m('Url::as_str')
def url_as_str(M, st, f, a):
    return M.urlstr(seqv(M, st, a[0]))


@m('Url::query_pairs')
def url_qp(M, st, f, a):
    return Nat('iter', src=('query', seqv(M, st, a[0])), pos=0, ops=())


def query_find(M, st, it, fn, op, d):
    """url.query_pairs().find(|(k, _)| k == "lit")"""
    from engine import Ret
    if op not in ('find', 'any') or it.ops:
        raise Soft('query_pairs')
    u = it.src[1]
    e = M.e
    k = z3.Const(fresh_name('qk'), Str)
    v = z3.Const(fresh_name('qv'), Str)
    s = st.copy()
    n0 = len(s.pc)
    pt = M.P.strip(M.somety(d)) if op == 'find' else None
    pair = Agg(pt, 0, (Rope([k]), Rope([v])))
    conds = []
    for s2, b in M.pure(s, fn, [pair]):
        conds.append(And(And(*s2.pc[n0:]), b))
    c = Or(*conds)
    key = None
    if z3.is_expr(c) and z3.is_eq(c):
        x, y = c.arg(0), c.arg(1)
        if x.eq(k):
            key = y
        elif y.eq(k):
            key = x
    if key is None or v in z3util_vars(key):
        raise Soft('query_pairs search')
    us = u.t.sort()
    has = F('query_has', us, Str, B)(u.t, key)
    val = F('query_get', us, Str, Str)(u.t, key)
    if op == 'any':
        return has
    return M.split(st, has, lambda s: M.some(Agg(pt, 0, (Rope([key]) if not isinstance(rope(key).lit(), str) else rope(key), Rope([val]))), d), lambda s: M.none(d))


def z3util_vars(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x):
            out.append(x)
        todo += x.children()
    return out


@m('Url::scheme')
def url_scheme(M, st, f, a):
    u = seqv(M, st, a[0])
    return Rope([F('url_scheme', u.t.sort(), Str)(u.t)])


@m('Url::host_str', 'Url::port', 'Url::host', 'Url::port_or_known_default')
def url_part(M, st, f, a):
    u = seqv(M, st, a[0])
    d = M.dty()
    nm = 'url_' + M.key(f).split('::')[-1]
    return M.e.from_term(F(nm, u.t.sort(), M.P.sort(d))(u.t), d)


@m('Url::path', 'Url::username')
def url_path(M, st, f, a):
    u = seqv(M, st, a[0])
    return Rope([F('url_' + M.key(f).split('::')[-1], u.t.sort(), Str)(u.t)])


@m('Url::set_port')
def url_set_port(M, st, f, a):
    e = M.e
    d = M.dty()
    u = seqv(M, st, a[0])
    pt = M.e.cur_atys[1]
    p = e.to_term(a[1], pt)
    us = u.t.sort()
    c = F('url_can_port', us, B)(u.t)

    def yes(s):
        n = F('url_set_port', us, p.sort(), us)(u.t, p)
        F1 = F('url_scheme', us, Str)
        e.assume(s, F1(n) == F1(u.t))
        e.assign_ref(s, a[0], Dt(u.tid, n))
        return M.ok(M.unit(), d)
    return M.split(st, c, yes, lambda s: M.err(M.unit(), d))


# ---- crypto / randomness --------------------------------------------------------------
@m('ThreadRng as RngCore::fill_bytes', 'Rng::fill', 'RngCore::fill_bytes')
def fill_bytes(M, st, f, a):
    cur = seqv(M, st, a[1])
    n = M.strlen(rope(cur))
    t = z3.Const(fresh_name('rand'), Str)
    M.e.assume(st, STRLEN(t) == n)
    M.e.assign_ref(st, a[1], Rope([t]))
    M.e.event(st, 'random', t=t, n=n)
    return M.unit()


@m('rand::rng')
def rng_(M, st, f, a):
    return Nat('rng')


@m('Engine::encode')
def b64(M, st, f, a):
    return Rope([B64(rope(seqv(M, st, a[1])).term())])


@m('D as Digest::new')
def sha_new(M, st, f, a):
    return Nat('hash', msg=Rope([]))


@m('D as Digest::update')
def sha_update(M, st, f, a):
    h = seqv(M, st, a[0])
    M.e.assign_ref(st, a[0], h.with_(msg=h.a['msg'] + rope(seqv(M, st, a[1]))))
    return M.unit()


@m('D as Digest::finalize')
def sha_fin(M, st, f, a):
    return Rope([SHA(a[0].a['msg'].term())])


@m('D as Digest::digest', 'Digest::digest')
def sha_digest(M, st, f, a):
    return Rope([SHA(rope(seqv(M, st, a[0])).term())])


@m('ChaChaPoly1305 as KeyInit::new')
def chacha_new(M, st, f, a):
    return Nat('cipher', key=rope(seqv(M, st, a[0])))


@m('Alg as Aead::encrypt')
def chacha_enc(M, st, f, a):
    d = M.dty()
    c = seqv(M, st, a[0])
    k, n, x = c.a['key'].term(), rope(seqv(M, st, a[1])).term(), rope(seqv(M, st, a[2])).term()
    ct = ENCRYPT(k, n, x)
    return M.okerr(st, lambda s: Rope([ct]), 'encrypt')


@m('Alg as Aead::decrypt')
def chacha_dec(M, st, f, a):
    d = M.dty()
    c = seqv(M, st, a[0])
    k, n, x = c.a['key'].term(), rope(seqv(M, st, a[1])).term(), rope(seqv(M, st, a[2])).term()
    return M.split(st, DECRYPT_OK(k, n, x), lambda s: M.ok(Rope([DECRYPT(k, n, x)]), d),
                   lambda s: M.err(M.e.fresh(s, M.errty(d), 'aeaderr'), d))


@m('bincode::serialize')
def bin_ser(M, st, f, a):
    v = seqv(M, st, a[0])
    d = M.dty()
    t = z3.Const(fresh_name('serialized'), Str)
    M.e.event(st, 'serialize', value=v, t=t)
    return M.okerr(st, lambda s: Rope([t]), 'serialize')


@m('bincode::deserialize')
def bin_de(M, st, f, a):
    d = M.dty()
    data = rope(seqv(M, st, a[0]))
    ok = F('bincode_ok', Str, B)(data.term())
    vt = M.okty(d)

    def yes(s):
        v = M.e.fresh(s, vt, 'deserialized')
        M.e.event(s, 'deserialize', data=data, value=v)
        return M.ok(v, d)
    return M.split(st, ok, yes, lambda s: M.err(M.e.fresh(s, M.errty(d), 'bincodeerr'), d))


# ---- lexer / spans ---------------------------------------------------------------------
@m('LRNonStreamingLexer as NonStreamingLexer::span_str')
def span_str(M, st, f, a):
    lx = seqv(M, st, a[0])
    sp = M.e.to_term(a[1], M.e.cur_atys[1])
    return Rope([F('span_str', sp.sort(), Str)(sp)])


@m('LRNonStreamingLexer as NonStreamingLexer::line_col')
def line_col(M, st, f, a):
    return M.e.fresh(st, M.dty(), 'linecol')


@m('LRNonStreamingLexer as NonStreamingLexer::span_lines_str')
def span_lines(M, st, f, a):
    return Rope([z3.Const(fresh_name('lines'), Str)])


@ov('config_l::lexerdef')
def lexerdef(M, st, f, a):
    return M.e.fresh(st, M.dty(), 'lexerdef')


@m('LRNonStreamingLexerDef as LexerDef::lexer', 'LRNonStreamingLexerDef::lexer')
def lexer(M, st, f, a):
    return M.e.fresh(st, M.dty(), 'lexer')


@ov('_parser_::parse', 'config_y::parse')
def conf_parse(M, st, f, a):
    """the generated parser: what it read, unless there are errors"""
    from engine import Ret
    e, P = M.e, M.P
    t = P.strip(M.dty())
    ots, ets = [x for x in P.types[t]['f']]
    et = P.types[P.strip(ets)]['args'][0]
    s2 = st.copy()
    v = e.fresh(st, ots, 'parsed')
    si = M.variant(P.strip(ots), 'Some')[1]
    e.assume(st, zbool(e.is_variant(v, si)))
    r = e.field(v, 0, si)
    oi = M.variant(r.tid, 'Ok')[1]
    e.assume(st, zbool(e.is_variant(r, oi)))
    errs = e.fresh_seq(s2, et, 'errors')
    e.assume(s2, errs.n >= 1)
    return [(st, Ret(Agg(t, 0, (v, SeqC((), et))))), (s2, Ret(Agg(t, 0, (e.fresh(s2, ots, 'parsed'), errs))))]


# error_at_span has no behaviour other than building a message
@ov('config::error_at_span')
def error_at_span(M, st, f, a):
    return rope(seqv(M, st, a[2])) + Rope([z3.Const(fresh_name('at_span'), Str)])

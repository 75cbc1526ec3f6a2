"""The contracts: for every property, the obligations generated for the functions it constrains.

A generator takes a Run (all paths of one entry function, cut into critical sections of the global
lock) and returns a list of Ob.  Everything here speaks about values, events and critical
sections, never about statements: see DESIGN.md for the reading of each obligation in words.
"""
import json
import os
import z3
import loopinv
from mir import Unsupported
from values import *
from models import F, I, B, LOWER, PREFIX, SHA, B64, JSON_OK
from engine import Panic, Ret, Stop
from base import Ob, MAIN

NS = 10 ** 9


# ---- rows and sections -------------------------------------------------------
class Row:
    """an arbitrary row of the table after a critical section, and the row of the same account
    before it"""

    def __init__(self, ctx, st, pre, post, tag='j'):
        e, L = ctx.e, ctx.L
        self.L = L
        s = self.st = st.copy()
        self.c0, self.m0, self.d0 = L.parts(pre)
        self.c1, self.m1, self.d1 = L.parts(post)
        if not isinstance(self.d1, SeqS):
            raise Unsupported('the table after the critical section is not symbolic')
        j = self.j = z3.Int(fresh_name(tag))
        e.assume(s, j >= 0, j < self.d1.n)
        e.add_term(s, ('ix', self.d1.tag), j)
        self.r1 = z3.Select(self.d1.arr, j)
        self.name = L.el_name(self.r1)
        e.add_term(s, ('key', self.m0.dom.get_id()), self.name)
        e.add_term(s, ('key', self.m1.dom.get_id()), self.name)
        ix = L.idx_fns(pre)
        self.i = ix[1](self.name)
        e.add_term(s, ('ix', self.d0.tag), self.i)
        self.r0 = z3.Select(self.d0.arr, self.i)
        self.had = z3.Select(self.m0.dom, self.name)
        self.same = z3.And(self.had, self.r0 == self.r1)
        self.id0, self.id1 = L.el_id(self.r0), L.el_id(self.r1)
        self.ts0, self.ts1 = L.el_ts(self.r0), L.el_ts(self.r1)
        self.acc0, self.acc1 = z3.Select(self.m0.map, self.name), z3.Select(self.m1.map, self.name)


def untouched(L, pre, post):
    """the section provably left everything as it was, structurally"""
    if pre is post:
        return True
    c0, m0, d0 = L.parts(pre)
    c1, m1, d1 = L.parts(post)
    return isinstance(d1, SeqS) and d0.arr.eq(d1.arr) and zint(d0.n).eq(zint(d1.n)) and m0.dom.eq(m1.dom) and m0.map.eq(m1.map)


def rows_touched(L, sec):
    return not untouched(L, sec.pre, sec.post)


def same_value(e, a, b, tid):
    if a is b:
        return z3.BoolVal(True)
    return e.to_term(a, tid) == e.to_term(b, tid)


def same_config(ctx, sec, st):
    """(z3 term) the section leaves the whole configuration as it was"""
    e, L, P = ctx.e, ctx.L, ctx.P
    a, b = sec.pre.f[L.fconfig], sec.post.f[L.fconfig]
    if a is b:
        return True
    out = []
    for n, (fn, ft) in enumerate(P.variants(L.confty)[0][2]):
        x, y = e.field(a, n), e.field(b, n)
        if x is y:
            continue
        if isinstance(x, MapV) and isinstance(y, MapV):
            if not (x.dom.eq(y.dom) and x.map.eq(y.map)):
                return False
            continue
        tx, ty = e.to_term(x, ft), e.to_term(y, ft)
        if not (z3.is_expr(tx) and z3.is_expr(ty) and tx.eq(ty)):
            out.append(zany(tx) == zany(ty))
    return And(*out) if out else True


def zany(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def evs(st, *ks):
    return [ev for ev in st.tr if ev.k in ks]


def paths_unique(run, key):
    """paths grouped so that each relevant trace is looked at once"""
    seen = set()
    for p in run.paths:
        k = key(p)
        if k in seen:
            continue
        seen.add(k)
        yield p


def where(ev):
    return f'{ev.at[0].split("::", 1)[-1]}:{ev.at[1]}'


def sname(run, sec):
    return f'{where(sec.lock)}..{where(sec.unlock)}'


def json_member(ctx, v, key):
    """(present, value) of the member `key` of the JSON value term v"""
    P = ctx.P
    tid = json_tid(ctx)
    s, cs = P.dt(tid)
    _, oi = ctx.M.variant(tid, 'Object')
    mp = cs[oi][2][0](v)
    has = F('jmap_has', mp.sort(), Str, B)(mp, lit(key))
    val = F('jmap_get', mp.sort(), Str, s)(mp, lit(key))
    return z3.And(cs[oi][1](v), has), val


def json_tid(ctx):
    for i, t in enumerate(ctx.P.types):
        if t and t['k'] == 'adt' and t['enum'] and t['name'] == 'serde_json::Value':
            return i
    raise Unsupported('no JSON value type')


def json_str(ctx, v, key):
    """(v[key] is a string, that string)"""
    c, x = json_member(ctx, v, key)
    tid = json_tid(ctx)
    s, cs = ctx.P.dt(tid)
    _, si = ctx.M.variant(tid, 'String')
    return z3.And(c, cs[si][1](x)), cs[si][2][0](x)


def json_u64(ctx, v, key):
    c, x = json_member(ctx, v, key)
    tid = json_tid(ctx)
    s, cs = ctx.P.dt(tid)
    _, ni = ctx.M.variant(tid, 'Number')
    num = cs[ni][2][0](x)
    isu = F('num_is_u64', num.sort(), B)(num)
    return z3.And(c, cs[ni][1](x), isu), F('num_u64', num.sort(), I)(num)


def json_of(ctx, body):
    tid = json_tid(ctx)
    return F('json_val', Str, ctx.P.sort(tid))(body)


def url_sort(ctx):
    for i, t in enumerate(ctx.P.types):
        if t and t['k'] == 'adt' and t['name'] == 'url::Url':
            return ctx.P.sort(i), i
    raise Unsupported('no URL type')


def query(ctx, url, key):
    us = url.t.sort()
    return F('query_has', us, Str, B)(url.t, lit(key)), F('query_get', us, Str, Str)(url.t, lit(key))


def ropes(v):
    """every rope inside a value"""
    if isinstance(v, Rope):
        yield v
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from ropes(x)
    elif isinstance(v, Agg):
        for x in v.f:
            yield from ropes(x)
    elif isinstance(v, SeqC):
        for x in v.e:
            yield from ropes(x)


def seteq(t, x, ts):
    return z3.Or(*[x == y for y in ts]) if ts else z3.BoolVal(False)


# ---- versions: the argument shared by every "stale results are dropped" property ----
def installed(ctx, run, sec, row):
    """the version the changed row had is one that an earlier section of this very task gave to
    this account"""
    L, e = ctx.L, ctx.e
    out = []
    p = sec.prev
    while p is not None:
        if rows_touched(L, p):
            fx = L.idx_fns(p.post)
            fp = L.idx_fns(p.pre)
            if fx and fp:
                d = L.parts(p.post)[2]
                dp = L.parts(p.pre)[2]
                i = fx[1](row.name)
                e.add_term(row.st, ('ix', d.tag), i)
                ip = fp[1](row.name)
                e.add_term(row.st, ('ix', dp.tag), ip)
                r = z3.Select(d.arr, i)
                m = L.parts(p.post)[1]
                mp = L.parts(p.pre)[1]
                e.add_term(row.st, ('key', m.dom.get_id()), row.name)
                e.add_term(row.st, ('key', mp.dom.get_id()), row.name)
                out.append(z3.And(z3.Select(m.dom, row.name), L.el_id(r) == row.id0, L.el_id(z3.Select(dp.arr, ip)) != L.el_id(r)))
        p = p.prev
    return out


def arg_ids(ctx, run):
    """the version terms this task was started with"""
    L = ctx.L
    out = []
    for a in run.args:
        for x in ([a] if isinstance(a, Dt) else list(getattr(a, 'f', ()))):
            if isinstance(x, Dt) and x.tid == L.idty:
                out.append(L.id_of(x.t))
    return out


def frame(ctx, run, sec, allowed, name):
    """every row that differs after the section satisfies allowed(row)"""
    def mk():
        r = Row(ctx, sec.snap, sec.pre, sec.post)
        g = allowed(r)
        return r.st, (True if g is True else r.same if g is False else z3.Or(r.same, g))
    return Ob(f'{name} [{sname(run, sec)}]', mk)



# ---- generic plumbing ------------------------------------------------------------
PROPS = {}


def load_titles():
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')) as f:
        return {x['id']: x['title'] for x in map(json.loads, filter(str.strip, f))}


TITLES = load_titles()


def prop(pid, entries, **kw):
    PROPS[pid] = dict(title=TITLES[pid], entries=entries, **kw)


ALL = ['refresh', 'http', 'https', 'ctl', 'restore', 'refresher', 'notifier', 'eventer', 'fail', 'dump']


def changed(ctx, run):
    return [sec for sec in run.secs if rows_touched(ctx.L, sec)]


def quiet(ctx, run, what):
    """one structural obligation for all the sections that visibly leave the state alone"""
    return [Ob(f'{what}: state left alone [{sname(run, s)}]', s.snap, True) for s in run.secs if not rows_touched(ctx.L, s)]


def at_end(p, name, goal, ev=None):
    return Ob(name + (f' [{where(ev)}]' if ev is not None else ''), p.st, goal)


def inp(ctx, p):
    """the bytes the control client sent, split as "command:rest" """
    for ev in p.st.tr:
        if ev.k == 'read' and ev.a.get('whole'):
            d = rope(ev.data)
            if len(d.p) == 1 and not isinstance(d.p[0], str):
                t = d.p[0]
                cmd = F("before:':'", Str, Str)(t)
                rest = F("after:':'", Str, Str)(t)
                return t, cmd, rest
    return None


def is_cmd(ctx, p, name):
    x = inp(ctx, p)
    return None if x is None else x[1] == lit(name)


def arg2(rest):
    """the account of "withurl account" / "withouturl account" """
    return F("after:' '", Str, Str)(rest)


def must(ctx, st, c):
    return ctx.e.must(st, c)


def errstate(ctx, ev):
    """(is_status, is_transport, transport kind term) of a failed request"""
    P = ctx.P
    er = ev.err
    s, cs = P.dt(er.tid)
    vs = P.variants(er.tid)
    si = [n for n, v in enumerate(vs) if v[0] == 'Status'][0]
    ti = [n for n, v in enumerate(vs) if v[0] == 'Transport'][0]
    tr = cs[ti][2][0](er.t)
    kt = None
    for i, t in enumerate(P.types):
        if t and t['k'] == 'adt' and t['enum'] and t['name'] == 'ureq::ErrorKind':
            kt = i
    ks = P.sort(kt)
    kind = F('transport_kind', tr.sort(), ks)(tr)
    kvs = P.variants(kt)
    kc = P.dt(kt)[1]
    temp = z3.Or(*[kc[n][1](kind) for n, v in enumerate(kvs) if v[0] in ('ConnectionFailed', 'Dns', 'Io')])
    return cs[si][1](er.t), cs[ti][1](er.t), z3.And(cs[ti][1](er.t), temp)


def body_terms(ctx, ev):
    r = ev.resp
    return F('body_ok', r.t.sort(), B)(r.t), F('body', r.t.sort(), Str)(r.t)


class Reply:
    """the ways a token endpoint can answer, as conditions on the reply"""

    def __init__(self, ctx, ev):
        self.ok = ev.ok
        self.status, self.transport, self.nettemp = errstate(ctx, ev)
        self.read, self.body = body_terms(ctx, ev)
        v = json_of(ctx, self.body)
        iserr, self.errmsg = json_str(ctx, v, 'error')
        a, self.access = json_str(ctx, v, 'access_token')
        x, self.expires = json_u64(ctx, v, 'expires_in')
        t, tt = json_str(ctx, v, 'token_type')
        good = z3.And(a, x, t, tt == lit('Bearer'))
        self.good = z3.And(self.ok, self.read, JSON_OK(self.body), z3.Not(iserr), good)
        self.temp = z3.Or(z3.And(z3.Not(self.ok), self.nettemp), z3.And(self.ok, z3.Not(self.read)))
        self.perm = z3.And(z3.Not(self.good), z3.Not(self.temp))
        self.rt_present, rv = json_member(ctx, v, 'refresh_token')
        self.rt_str, self.rt = json_str(ctx, v, 'refresh_token')


def opt(ctx, tid):
    """(sort, is_none, is_some, some value) helpers of an Option type"""
    s, cs = ctx.P.dt(tid)
    vs = ctx.P.variants(tid)
    ni = [n for n, v in enumerate(vs) if v[0] == 'None'][0]
    si = 1 - ni
    return cs[ni][1], cs[si][1], cs[si][2][0], cs[si][0]


def ts_ft(ctx, var, field):
    L = ctx.L
    for fn, ft in L.tv[L.ts_var(var)][2]:
        if fn == field:
            return ctx.P.strip(ft)
    raise Unsupported(field)


def ts_fields(ctx, var):
    L = ctx.L
    return [fn for fn, _ in L.tv[L.ts_var(var)][2]]


def same_fields(ctx, a, b, var, but=()):
    L = ctx.L
    return z3.And(*[L.ts_f(a, var, f) == L.ts_f(b, var, f) for f in ts_fields(ctx, var) if f not in but])


def nows(st, after=None, upto=None):
    """the values the clock returned (on this path; after an event / up to an event)"""
    out = []
    on = after is None
    for ev in st.tr:
        if ev is after:
            on = True
        if upto is not None and ev is upto:
            break
        if on and ev.k == 'now':
            out.append(zint(ev.a['t']))
    return out


def first_lock(p, before):
    """the section of the global lock in force (or last in force) when an event happened"""
    cur = None
    for ev in p.st.tr:
        if ev is before:
            return cur
        if ev.k == 'lock' and ev.name == MAIN:
            cur = ev
    return cur


# ==== C01: the table of accounts ====================================================
def c01_inv(ctx, run):
    L, e = ctx.L, ctx.e
    out = []
    for sec in run.secs:
        if not rows_touched(L, sec):
            if sec.pre is not sec.post:
                out.append(Ob(f'counter never decreases [{sname(run, sec)}]', sec.snap, zint(L.parts(sec.post)[0]) >= zint(L.parts(sec.pre)[0])))
            else:
                out.append(Ob(f'state left alone [{sname(run, sec)}]', sec.snap, True))
            continue
        for nm, s, g in L.inv_obls(sec.snap, sec.post):
            out.append(Ob(f'{nm} [{sname(run, sec)}]', s, g))
        for nm, s, g in L.guar_obls(sec.snap, sec.pre, sec.post):
            out.append(Ob(f'{nm} [{sname(run, sec)}]', s, g))
        out.append(Ob(f'every account has a row [{sname(run, sec)}]', lambda sec=sec: has_rows(ctx, sec)))
    for nm, s, g, *_ in run.obl:
        out.append(Ob('use of a helper: ' + str(nm), s, g))
    return out


def has_rows(ctx, sec):
    L, e = ctx.L, ctx.e
    s = sec.snap.copy()
    c0, m0, d0 = L.parts(sec.pre)
    c1, m1, d1 = L.parts(sec.post)
    k = z3.Const(fresh_name('acct'), Str)
    e.assume(s, z3.Select(m1.dom, k))
    for m in (m0, m1):
        e.add_term(s, ('key', m.dom.get_id()), k)
    cand = []
    i0 = L.idx_fns(sec.pre)[1](k)
    e.add_term(s, ('ix', d0.tag), i0)
    cand.append(i0)
    for n, KE, KI, nm, dom in ctx.M.enums.values():
        if dom.eq(m1.dom):
            cand.append(KI(k))
    for c in cand:
        e.add_term(s, ('ix', d1.tag), c)
    return s, z3.Or(*[z3.And(c >= 0, c < d1.n, L.el_name(z3.Select(d1.arr, c)) == k) for c in cand])


# ==== C02 / C03: reloading =============================================================
def reloads(ctx, run):
    """sections that may leave a different configuration behind"""
    return [s for s in run.secs if same_config(ctx, s, s.snap) is not True]


def c02_rows(ctx, run):
    L = ctx.L
    out = []
    rl = reloads(ctx, run)
    for sec in run.secs:
        if sec not in rl:
            out.append(Ob(f'configuration left alone [{sname(run, sec)}]', sec.snap, True))
            continue

        def mk(sec=sec):
            r = Row(ctx, sec.snap, sec.pre, sec.post)
            return r.st, z3.Or(L.is_ts(r.ts1, 'Empty'), z3.And(r.had, L.seceq(r.acc0, r.acc1), r.r0 == r.r1))

        def mk2(sec=sec):
            r = Row(ctx, sec.snap, sec.pre, sec.post)
            return r.st, z3.Implies(z3.Not(z3.And(r.had, L.seceq(r.acc0, r.acc1))), r.id1 >= zint(r.c0))
        out.append(Ob(f'a token survives a reload only with unchanged security settings [{sname(run, sec)}]', mk))
        out.append(Ob(f'an account with changed settings gets a version never used before [{sname(run, sec)}]', mk2))
    return out


def c03_rows(ctx, run):
    L = ctx.L
    out = []
    rl = reloads(ctx, run)
    for sec in rl:
        def mk(sec=sec):
            r = Row(ctx, sec.snap, sec.pre, sec.post)
            return r.st, z3.Implies(z3.And(r.had, L.seceq(r.acc0, r.acc1)), r.r0 == r.r1)
        out.append(Ob(f'an account with unchanged security settings keeps its state [{sname(run, sec)}]', mk))
        out.append(Ob(f'every configured account exists after a reload [{sname(run, sec)}]', lambda sec=sec: has_rows(ctx, sec)))
    for p in run.paths:
        cfs = evs(p.st, 'config')
        if not cfs and not any(s in rl for s in p.secs):
            continue
        if isinstance(p.out, (Stop, Panic)):
            continue
        ch = [s for s in p.secs if s in rl]
        ws = evs(p.st, 'write')
        if not cfs:
            out.append(at_end(p, 'the configuration only changes by a reload', False))
            continue
        ev = cfs[-1]
        if not ev.ok:
            out.append(at_end(p, 'a rejected configuration changes nothing', not ch and not any(rows_touched(L, s) for s in p.secs), ev))
            good = any(rope(w.data).p and isinstance(rope(w.data).p[0], str) and rope(w.data).p[0].startswith('error:') and len(rope(w.data).p) > 1 and z3.is_expr(rope(w.data).p[1]) and rope(w.data).p[1].eq(ev.err) for w in ws)
            out.append(at_end(p, 'a rejected configuration is reported with its error', good and not any(rope(w.data).lit() == 'ok:' for w in ws), ev))
        else:
            ok = len(ch) == 1 and conf_is(ctx, ch[0].post, ev.conf)
            out.append(at_end(p, 'an accepted configuration is installed', ok, ev))
            pos = {id(x): n for n, x in enumerate(p.st.tr)}
            good = any(rope(w.data).lit() == 'ok:' and ch and pos[id(w)] > pos[id(ch[0].unlock)] for w in ws) and len(ws) == 1
            out.append(at_end(p, 'success is reported once the configuration is in force', good, ev))
            nt = {str(x.a['cv']) for x in evs(p.st, 'notify')}
            out.append(at_end(p, 'refresher and notifier are told of the change', any('efresher' in x for x in nt) and any('otifier' in x for x in nt), ev))
    return out


def conf_is(ctx, post, conf):
    e, L, P = ctx.e, ctx.L, ctx.P
    a = post.f[L.fconfig]
    if a is conf:
        return True
    for n, (fn, ft) in enumerate(P.variants(L.confty)[0][2]):
        x, y = e.field(a, n), e.field(conf, n)
        if x is y:
            continue
        if isinstance(x, MapV):
            if not (x.dom.eq(y.dom) and x.map.eq(y.map)):
                return False
            continue
        if not zany(e.to_term(x, ft)).eq(zany(e.to_term(y, ft))):
            return False
    return True


# ==== C06: results of a token refresh ============================================
def c06_rows(ctx, run):
    aids = arg_ids(ctx, run)
    out = quiet(ctx, run, 'refresh')
    for sec in changed(ctx, run):
        out.append(frame(ctx, run, sec, lambda r, sec=sec: z3.And(r.had, z3.Or(*([r.id0 == a for a in aids] + installed(ctx, run, sec, r)))),
                         'only the account version being refreshed changes'))
        out.append(Ob(f'configuration untouched [{sname(run, sec)}]', sec.snap, same_config(ctx, sec, sec.snap)))
    return out


# ==== C07 / C08: the callback ===========================================================
def callback(ctx, sec):
    """the URL and state value the browser presented, as seen by a section"""
    for ev in sec.snap.tr:
        if ev.k == 'parsed' and ev.url is not None:
            return ev.url
    return None


def matched(ctx, sec, row, ts, ident):
    """the row was pending with exactly the presented state value"""
    L = ctx.L
    u = callback(ctx, sec)
    if u is None:
        return z3.BoolVal(False)
    has, val = query(ctx, u, 'state')
    return z3.And(has, L.is_ts(ts, 'Pending'), L.ts_f(ts, 'Pending', 'state') == val)


def c07_rows(ctx, run):
    L, e = ctx.L, ctx.e
    out = quiet(ctx, run, 'callback')
    for sec in changed(ctx, run):
        def allowed(r, sec=sec):
            alts = [matched(ctx, sec, r, r.ts0, r.id0)] if sec.prev is None else []
            p = sec
            while p.prev is not None:
                p = p.prev
            if p is not sec:
                fp = L.idx_fns(p.pre)
                dp, mp = L.parts(p.pre)[2], L.parts(p.pre)[1]
                ip = fp[1](r.name)
                e.add_term(r.st, ('ix', dp.tag), ip)
                e.add_term(r.st, ('key', mp.dom.get_id()), r.name)
                rp = z3.Select(dp.arr, ip)
                alts.append(z3.And(z3.Select(mp.dom, r.name), L.el_id(rp) == r.id0, matched(ctx, sec, r, L.el_ts(rp), r.id0)))
            alts += installed(ctx, run, sec, r)
            return z3.And(r.had, z3.Or(*alts))
        out.append(frame(ctx, run, sec, allowed, 'only the account version whose state was presented changes'))
        out.append(Ob(f'configuration untouched [{sname(run, sec)}]', sec.snap, same_config(ctx, sec, sec.snap)))
    return out


def c07_fail(ctx, run):
    """the failure path on its own: only the version it was given"""
    return c06_rows(ctx, run)


def acc_dump_eq(ctx, acc, dump, dty):
    """the dumped account has the same security settings as the configured one"""
    L, P = ctx.L, ctx.P
    out = []
    fs = P.variants(dty)[0][2]
    s, cs = P.dt(dty)
    names = {fn for fn, _ in L.av}
    for n, (fn, ft) in enumerate(fs):
        if fn not in names:
            raise Unsupported('dumped account field ' + fn)
        out.append(L.a_field(acc, fn) == cs[0][2][n](dump))
    # every security-relevant field except the name must be there
    for n in L.relevant():
        fn = L.av[n][0]
        if fn != 'name' and fn not in {x for x, _ in fs}:
            return z3.BoolVal(False)
    return z3.And(*out)


def dump_types(ctx, value):
    """(version term, MapV, account dump type, token dump type) of a dump value"""
    e, P = ctx.e, ctx.P
    tid = P.strip(value.tid)
    ver = mp = None
    for n, (fn, ft) in enumerate(P.variants(tid)[0][2]):
        x = e.field(value, n)
        if P.types[P.strip(ft)]['k'] == 'int':
            ver = x
        elif P.is_map(ft):
            mp = x
            vt = P.strip(P.is_map(ft)[1])
    if ver is None or mp is None:
        raise Unsupported('shape of the dump')
    fs = P.variants(vt)[0][2]
    return ver, mp, vt, P.strip(fs[0][1]), P.strip(fs[1][1])


def dumped(ctx, value, name):
    """(is in the dump, account term, token term, types) of one account"""
    P = ctx.P
    ver, mp, vt, at, tt = dump_types(ctx, value)
    x = z3.Select(mp.map, name)
    cs = P.dt(vt)[1]
    return z3.Select(mp.dom, name), cs[0][2][0](x), cs[0][2][1](x), at, tt, mp


def tsd(ctx, tt):
    P = ctx.P
    vs = P.variants(tt)
    cs = P.dt(tt)[1]
    ai = [n for n, v in enumerate(vs) if v[0] == 'Active'][0]
    fld = {fn: cs[ai][2][k] for k, (fn, ft) in enumerate(vs[ai][2])}
    return cs[ai][1], fld


def c04_rows(ctx, run):
    L, e, P = ctx.L, ctx.e, ctx.P
    out = quiet(ctx, run, 'restore')
    for sec in changed(ctx, run):
        ds = evs(sec.snap, 'deserialize')
        if not ds:
            out.append(Ob(f'a restore only changes state from a dump [{sname(run, sec)}]', sec.snap, False))
            continue
        D = ds[-1].value

        def mk(sec=sec, D=D, way='only'):
            r = Row(ctx, sec.snap, sec.pre, sec.post)
            ind, ad, td, at, tt, mp = dumped(ctx, D, r.name)
            e.add_term(r.st, ('key', mp.dom.get_id()), r.name)
            act, f = tsd(ctx, tt)
            usable = z3.And(r.had, ind, z3.Not(L.is_ts(r.ts0, 'Active')), act(td), acc_dump_eq(ctx, r.acc0, ad, at))
            t1 = r.ts1
            isn, iss, val, mks = opt(ctx, ts_ft(ctx, 'Active', 'last_refresh_attempt'))
            got = z3.And(L.is_ts(t1, 'Active'), L.ts_f(t1, 'Active', 'access_token') == f['access_token'](td),
                         L.ts_f(t1, 'Active', 'refresh_token') == f['refresh_token'](td),
                         z3.Not(L.ts_f(t1, 'Active', 'ongoing_refresh')), L.ts_f(t1, 'Active', 'consecutive_refresh_fails') == 0,
                         isn(L.ts_f(t1, 'Active', 'last_refresh_attempt')))
            if way == 'only':
                return r.st, z3.Or(r.same, z3.And(usable, got))
            if way == 'account':
                return r.st, z3.Or(r.same, z3.And(r.had, acc_dump_eq(ctx, r.acc0, ad, at)))
            if way == 'active':
                return r.st, z3.Implies(L.is_ts(r.ts0, 'Active'), r.same)
            return r.st, z3.Implies(usable, got)
        out.append(Ob(f'a restored token is the dumped token of that account [{sname(run, sec)}]', mk))
        out.append(Ob(f'restored only where the security settings equal the dumped ones [{sname(run, sec)}]', lambda mk=mk, sec=sec, D=D: mk(sec, D, 'account')))
        out.append(Ob(f'an account with a token is left alone [{sname(run, sec)}]', lambda mk=mk, sec=sec, D=D: mk(sec, D, 'active')))
        out.append(Ob(f'configuration untouched [{sname(run, sec)}]', sec.snap, same_config(ctx, sec, sec.snap)))
    return out


def c04_complete(ctx, run):
    """nothing usable in a dump is dropped; a restore that reports success used a dump of the right version"""
    L, e, P = ctx.L, ctx.e, ctx.P
    out = []
    seen = set()
    for p in run.paths:
        if not isinstance(p.out, Ret) or not isinstance(p.out.v, (Agg, IteV)):
            continue
        v = p.out.v
        okn = 0 if P.variants(v.tid)[0][0] == 'Ok' else 1
        okc = (v.var == okn) if isinstance(v, Agg) else e.is_variant(v, okn)
        ch = [s for s in p.secs if rows_touched(L, s)]
        # error => nothing changed
        out.append(at_end(p, 'a restore that reports an error changed nothing', Or(okc, not ch) if ch else True))
        ds = evs(p.st, 'deserialize')
        if okc is False:
            continue
        if not ds:
            out.append(at_end(p, 'success is only reported for a readable dump', Not(okc)))
            continue
        ver = dump_types(ctx, ds[-1].value)[0]
        out.append(at_end(p, 'success is only reported for a readable dump', Implies(okc, zint(ver) == dump_version(ctx))))
        if p.secs and not ch:
            sec = p.secs[-1]
            D = ds[-1].value

            def mk(p=p, sec=sec, D=D):
                r = Row(ctx, p.st, sec.pre, sec.post)
                ind, ad, td, at, tt, mp = dumped(ctx, D, r.name)
                e.add_term(r.st, ('key', mp.dom.get_id()), r.name)
                act, f = tsd(ctx, tt)
                usable = z3.And(r.had, ind, z3.Not(L.is_ts(r.ts0, 'Active')), act(td), acc_dump_eq(ctx, r.acc0, ad, at))
                return r.st, Or(Not(okc), Not(usable))
            out.append(Ob('a usable dumped token is restored', mk))
    return out


_DV = {}


def dump_version(ctx):
    """the version number the dumping side writes"""
    if 'v' not in _DV:
        fid = ctx.entry('dump')[0]
        sv = (ctx.e.obl, ctx.e.solver)
        from engine import Solver
        ctx.e.solver = Solver()
        r = ctx.run(fid)
        ctx.e.obl, ctx.e.solver = sv
        vs = set()
        for p in r.paths:
            for ev in evs(p.st, 'serialize'):
                v = dump_types(ctx, ev.value)[0]
                if not isinstance(v, int):
                    raise Unsupported('dump version is not a constant')
                vs.add(v)
        if len(vs) != 1:
            raise Unsupported('dump version')
        _DV['v'] = vs.pop()
    return _DV['v']


# ---- loop invariants that need the meaning of the accumulated value ------------------
class _C:
    def __init__(self, e, L):
        self.e, self.L, self.P, self.M = e, L, e.P, e.models


def dump_in(e, L, s0):
    for v in s0.store.values():
        if isinstance(v, (Agg, Dt)) and v.tid is not None:
            t = e.P.types[e.P.strip(v.tid)]
            if t and t['k'] == 'adt' and not t['enum'] and t['name'].endswith('::Dump'):
                return v
    return None


def restored_value(L, e, old, s0):
    D = dump_in(e, L, s0)
    if D is None:
        return None
    ctx = _C(e, L)
    c0, m0, d0 = L.parts(old)
    idxN = L.idx_fns(old)[1]

    def pred(s, k, x):
        if not x.sort().eq(e.P.sort(L.tsty)):
            return False
        ind, ad, td, at, tt, mp = dumped(ctx, D, k)
        e.models.map_key_term(s, mp, k)
        act, f = tsd(ctx, tt)
        isn, iss, val, mks = opt(ctx, ts_ft(ctx, 'Active', 'last_refresh_attempt'))
        r = z3.Select(d0.arr, idxN(k))
        return z3.And(ind, act(td), z3.Not(L.is_ts(L.el_ts(r), 'Active')), acc_dump_eq(ctx, z3.Select(m0.map, k), ad, at), got_ts(ctx, x, td, f, isn))
    return pred


def got_ts(ctx, t1, td, f, isn):
    L = ctx.L
    return z3.And(L.is_ts(t1, 'Active'), L.ts_f(t1, 'Active', 'access_token') == f['access_token'](td),
                  L.ts_f(t1, 'Active', 'refresh_token') == f['refresh_token'](td),
                  z3.Not(L.ts_f(t1, 'Active', 'ongoing_refresh')), L.ts_f(t1, 'Active', 'consecutive_refresh_fails') == 0,
                  isn(L.ts_f(t1, 'Active', 'last_refresh_attempt')))


def restored_all(L, e, old, s0):
    """(whole-map) every visited row that can be restored has a key"""
    D = dump_in(e, L, s0)
    if D is None:
        return None
    ctx = _C(e, L)
    c0, m0, d0 = L.parts(old)
    idxN = L.idx_fns(old)[1]

    def pred(s, k):
        ind, ad, td, at, tt, mp = dumped(ctx, D, k)
        e.models.map_key_term(s, mp, k)
        act, f = tsd(ctx, tt)
        r = z3.Select(d0.arr, idxN(k))
        return z3.And(z3.Select(m0.dom, k), ind, act(td), z3.Not(L.is_ts(L.el_ts(r), 'Active')), acc_dump_eq(ctx, z3.Select(m0.map, k), ad, at))
    return pred


def dumped_value(L, e, old, s0):
    P = e.P
    c0, m0, d0 = L.parts(old)
    idxN = L.idx_fns(old)[1]
    ctx = _C(e, L)

    def types(x):
        for t in P.types:
            pass

    def pred(s, k, x):
        t = pair_of(P, x.sort())
        if t is None:
            return False
        vt, at, tt = t
        cs = P.dt(vt)[1]
        ad, td = cs[0][2][0](x), cs[0][2][1](x)
        act, f = tsd(ctx, tt)
        ts = L.el_ts(z3.Select(d0.arr, idxN(k)))
        return z3.And(acc_dump_eq(ctx, z3.Select(m0.map, k), ad, at), act(td) == L.is_ts(ts, 'Active'),
                      z3.Implies(act(td), z3.And(f['access_token'](td) == L.ts_f(ts, 'Active', 'access_token'), f['refresh_token'](td) == L.ts_f(ts, 'Active', 'refresh_token'))))
    return pred


def pair_of(P, sort):
    """(pair type, account dump type, token dump type) of the dumped pair with that sort"""
    for i, t in enumerate(P.types):
        if t and t['k'] == 'tuple' and len(P.variants(i)[0][2]) == 2:
            fs = P.variants(i)[0][2]
            n = [P.types[P.strip(ft)].get('name', '') if P.types[P.strip(ft)]['k'] == 'adt' else '' for _, ft in fs]
            if n[0].endswith('AccountDump') and n[1].endswith('TokenStateDump') and P.sort(i).eq(sort):
                return i, P.strip(fs[0][1]), P.strip(fs[1][1])
    return None


loopinv.Gen.value_guesses[:] = [('the restored token', restored_value), ('the dumped row', dumped_value)]
loopinv.Gen.key_guesses[:] = [('all visited restorable rows have a key', restored_all)]


# ==== C05: dumping ======================================================================
def c05_dump(ctx, run):
    L, e, P = ctx.L, ctx.e, ctx.P
    out = quiet(ctx, run, 'dump')
    for s in changed(ctx, run):
        out.append(Ob(f'dumping changes nothing [{sname(run, s)}]', s.snap, False))
    seen = set()
    for p in run.paths:
        for ev in evs(p.st, 'serialize'):
            if id(ev) in seen:
                continue
            seen.add(id(ev))
            lk = first_lock(p, ev)
            pre = lk.content if lk else None
            if pre is None:
                out.append(at_end(p, 'the dump is taken from one state', False, ev))
                continue
            for way in ('nothing missing', 'nothing invented', 'settings dumped', 'token dumped', 'nothing but tokens dumped'):
                def mk(p=p, ev=ev, pre=pre, way=way):
                    s = p.st.copy()
                    c0, m0, d0 = L.parts(pre)
                    k = z3.Const(fresh_name('acct'), Str)
                    ind, ad, td, at, tt, mp = dumped(ctx, ev.value, k)
                    for m in (m0.dom, mp.dom):
                        e.add_term(s, ('key', m.get_id()), k)
                    i = L.idx_fns(pre)[1](k)
                    e.add_term(s, ('ix', d0.tag), i)
                    r = z3.Select(d0.arr, i)
                    ts = L.el_ts(r)
                    act, f = tsd(ctx, tt)
                    had = z3.Select(m0.dom, k)
                    if way == 'nothing missing':
                        return s, z3.Implies(had, ind)
                    if way == 'nothing invented':
                        return s, z3.Implies(ind, had)
                    if way == 'settings dumped':
                        return s, z3.Implies(ind, acc_dump_eq(ctx, z3.Select(m0.map, k), ad, at))
                    if way == 'token dumped':
                        return s, z3.Implies(z3.And(ind, L.is_ts(ts, 'Active')),
                                             z3.And(act(td), f['access_token'](td) == L.ts_f(ts, 'Active', 'access_token'),
                                                    f['refresh_token'](td) == L.ts_f(ts, 'Active', 'refresh_token')))
                    return s, z3.Implies(z3.And(ind, z3.Not(L.is_ts(ts, 'Active'))), z3.Not(act(td)))
                out.append(Ob(f'{way} [{where(ev)}]', mk))
    return out


# ==== C08: the gate in front of a callback ==============================================
def redirect_of(ctx, acc, pst, L):
    """the redirect URI pizauth listens on for an account: the configured one with the port of the
    server that will answer it"""
    us, ut = url_sort(ctx)
    raw = L.a_field(acc, 'redirect_uri')
    u = F('url_of', Str, us)(raw)
    return raw, u


def c08_gate(ctx, run):
    L, e = ctx.L, ctx.e
    out = []
    us, ut = url_sort(ctx)
    sch, host = F('url_scheme', us, Str), None
    for sec in changed(ctx, run):
        if sec.prev is not None:
            continue
        u = callback(ctx, sec)
        if u is None:
            out.append(Ob(f'no token changes before a request was read [{sname(run, sec)}]', sec.snap, False))
            continue

        def mk(sec=sec, u=u):
            r = Row(ctx, sec.snap, sec.pre, sec.post)
            return r.st, z3.Or(r.same, z3.And(r.had, matched(ctx, sec, r, r.ts0, r.id0), origin_ok(ctx, run, r.st, r.acc0, u)))
        out.append(Ob(f'a token only changes for its own state value at its own redirect URI [{sname(run, sec)}]', mk))
    for p in paths_unique(run, lambda p: tuple(id(x) for x in evs(p.st, 'post'))):
        for ev in evs(p.st, 'post')[:1]:
            out.append(Ob(f'a code is only exchanged for a matching pending request [{where(ev)}]', lambda p=p, ev=ev: post_gate(ctx, run, p, ev)))
    return out


def origin_ok(ctx, run, st, acc, u):
    """scheme, host and port of the request are those of the account's redirect URI"""
    L, e = ctx.L, ctx.e
    us = u.t.sort()
    raw = L.a_field(acc, 'redirect_uri')
    base = F('url_of', Str, us)(raw)
    hp = opt_fn(ctx, 'url_host_str', us)
    pp = opt_fn(ctx, 'url_port', us)
    alts = []
    for f in set_ports(st):
        x = f(base)
        alts.append(z3.And(F('url_scheme', us, Str)(u.t) == F('url_scheme', us, Str)(x), hp(u.t) == hp(x), pp(u.t) == pp(x)))
    return z3.Or(*alts) if alts else z3.BoolVal(False)


def find_fn(name, *sorts):
    from models import FNS
    return FNS.get(name)


def opt_fn(ctx, name, us):
    f = find_fn(name)
    if f is None:
        raise Unsupported('no ' + name)
    return f


def set_ports(st):
    """the port settings applied to redirect URIs on this path: u -> url_set_port(u, p)"""
    out = {}
    for c in st.pc:
        todo = [c]
        seen = set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name() == 'url_set_port':
                port = t.arg(1)
                d = t.decl()
                out[port.get_id()] = (lambda u, d=d, port=port: d(u, port))
            if z3.is_app(t) and len(seen) < 4000:
                todo += t.children()
    return list(out.values())


def post_gate(ctx, run, p, ev):
    L, e = ctx.L, ctx.e
    if not p.secs:
        return p.st, False
    sec = [s for s in p.secs if s.lock is first_lock(p, ev)]
    if not sec:
        return p.st, False
    sec = sec[0]
    st = p.st.copy()
    u = callback(ctx, sec)
    if u is None:
        return st, False
    cv = [v for k, v in ev.pairs if rope(k).lit() == 'code_verifier']
    code = [v for k, v in ev.pairs if rope(k).lit() == 'code']
    if len(cv) != 1 or len(code) != 1:
        return st, False
    cvt = rope(cv[0]).term()
    ts = cvt.arg(0) if z3.is_app(cvt) and cvt.num_args() == 1 else None
    if ts is None or not ts.sort().eq(ctx.P.sort(L.tsty)):
        raise Unsupported('origin of the code verifier')
    row = ts.arg(0)
    acc = z3.Select(L.parts(sec.pre)[1].map, L.el_name(row))
    has, val = query(ctx, u, 'code')
    return st, z3.And(matched(ctx, sec, None, ts, None), origin_ok(ctx, run, st, acc, u), has, rope(code[0]).term() == val)


prop('C01', [(ALL + ['new'], [c01_inv])])
prop('C02', [(['ctl'], [c02_rows])])
prop('C03', [(['ctl'], [c03_rows])])
prop('C04', [(['restore'], [c04_rows, c04_complete])])
prop('C05', [(['dump'], [c05_dump])])
prop('C06', [(['refresh'], [c06_rows])])
prop('C07', [(['http', 'https'], [c07_rows]), (['fail'], [c07_fail])])
prop('C08', [(['http', 'https'], [c08_gate])])

TRUSTED = [
    'rustc (MIR construction of the pinned nightly; the text verified is the MIR of /repo compiled on this run)',
    'mirdump, the extractor in /verif/driver (writes MIR, types and constants as JSON; drops only spans, storage markers and unwind edges)',
    'mirvc/engine.py, values.py, lstate.py, loopinv.py (the verification condition generator)',
    'z3 4.x and cvc5 1.1.2 (every "discharged" is an unsat answer of one of them, or a syntactic identity)',
    'the contracts of library functions in mirvc/models.py, listed per run under models_used',
]
ASSUME = [
    'the Rust type system: safe code has no data races and no aliased mutation; library code behind the contracts is memory safe',
    'std::sync::Mutex gives mutual exclusion, and between two critical sections of a thread the state changes only as the rely condition says (discharged for every entry point by C01)',
    'a lock is never poisoned: a panicking thread ends the process (panic=abort in release; no panic is reachable: C18)',
    'strings are sequences of code points; allocation never fails; threads can be spawned',
    'fewer than 2^64 and 2^128 operations on the counters of events and versions; a vector has at most 2^63 elements',
]


import props2  # noqa: E402,F401  (the remaining contracts register themselves)
import props3  # noqa: E402,F401
import props4  # noqa: E402,F401
import props5  # noqa: E402,F401
import props6  # noqa: E402,F401
import props7  # noqa: E402,F401
import props8  # noqa: E402,F401

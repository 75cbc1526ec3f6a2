"""Contracts of the refresh schedule and the refresh settings."""
import z3
from mir import Unsupported
from values import *
from props import *
from props import prop, evs, at_end, where, sname, zany
from engine import Ret, Panic, Stop
import base
from base import Ob, MAIN
from models import TOLD, told_of
from props2 import after, before, between

NS = 10 ** 9
DEFAULTS = {'refresh_before_expiry': 90 * NS, 'refresh_at_least': 90 * 60 * NS, 'refresh_retry': 40 * NS}
IMIN, IMAX = -(2 ** 63) * NS, 2 ** 63 * NS - 1


def opt(ctx, t):
    """(is Some, value) of an Option<...> term"""
    P = ctx.P
    for i, ty in enumerate(P.types):
        if ty and ty['k'] == 'adt' and ty['name'].endswith('option::Option') and P.strip(i) == i:
            try:
                s, cs = P.dt(i)
            except Unsupported:
                continue
            if s == t.sort():
                k = [n for n, v in enumerate(P.variants(i)) if v[0] == 'Some'][0]
                return cs[k][1](t), cs[k][2][0](t)
    raise Unsupported('option sort')


def setting(ctx, acc, conf, name):
    """the documented value of a refresh setting: the account's, else the global one, else the default"""
    e, L, P = ctx.e, ctx.L, ctx.P
    a = L.a_field(acc, name)
    n, ft = [(n, ft) for n, (fn, ft) in enumerate(P.variants(L.confty)[0][2]) if fn == name][0]
    c = e.to_term(e.field(conf, n), ft)
    (ah, av), (ch, cv) = opt(ctx, a), opt(ctx, c)
    return z3.If(ah, av, z3.If(ch, cv, z3.IntVal(DEFAULTS[name])))


def fits(t):
    return z3.And(t >= IMIN, t <= IMAX)


@memo
def due_bounds(ctx, S, row, t=None):
    """(token counts, earliest, latest): when the token of a row is due for a refresh.  The two bounds
    differ only where the clock cannot represent the time before expiry"""
    L = ctx.L
    cnt, mp, d = L.parts(S)
    conf = S.f[L.fconfig]
    ts, acc = L.el_ts(row), z3.Select(mp.map, L.el_name(row))
    f = lambda n: L.ts_f(ts, 'Active', n)
    live = z3.And(L.is_ts(ts, 'Active'), z3.Not(f('ongoing_refresh')))
    lh, lv = opt(ctx, f('last_refresh_attempt'))
    retry = lv + setting(ctx, acc, conf, 'refresh_retry')
    before = f('access_token_expiry') - setting(ctx, acc, conf, 'refresh_before_expiry')
    least = f('access_token_obtained') + setting(ctx, acc, conf, 'refresh_at_least')

    def mn(a, b):
        return z3.If(a <= b, a, b)
    hi0 = z3.If(fits(before), before, f('access_token_expiry'))
    lo0 = z3.If(fits(before), before, z3.IntVal(IMIN))
    hi = z3.If(fits(least), mn(hi0, least), hi0)
    lo = z3.If(fits(least), mn(lo0, least), lo0)
    again = z3.And(lh, fits(retry))
    return live, z3.If(again, retry, lo), z3.If(again, retry, hi)


def gives_time(ctx, fid):
    P = ctx.P
    t = P.types[P.strip(P.fns[fid]['body']['locals'][0])]
    return t['k'] == 'adt' and t['name'].endswith('option::Option') and 'Instant' in P.tname(P.strip(t['args'][0]))


def is_refresh_at(ctx, fid):
    c = [i for i in ctx.e.opaque if gives_time(ctx, i) and 'Refresher' in ctx.argnames(i)]
    return fid in c and fid in ctx.outermost(c)


def c14_time(ctx, run):
    """postcondition of the function which computes the time of the next refresh"""
    L, e, P = ctx.L, ctx.e, ctx.P
    if not is_refresh_at(ctx, run.fid):
        return []
    out = []
    for p in run.paths:
        if not isinstance(p.out, Ret):
            continue
        S = p.st.store[('mutex', MAIN)]
        aid = [L.id_of(a.t) for a in (e.deref(p.st, x) if isinstance(x, MutRef) else x for x in run.args) if isinstance(a, Dt) and a.tid == L.idty][0]
        ix = L.has_id(S, aid)[1]
        row = z3.Select(L.parts(S)[2].arr, ix)
        live, lo, hi = due_bounds(ctx, S, row)
        r = p.out.v
        rt = P.fns[run.fid]['body']['locals'][0]
        h, v = opt(ctx, e.to_term(r, rt))
        st = p.st.copy()
        e.add_term(st, ('key', L.parts(S)[1].dom.get_id()), L.el_name(row))
        out.append(Ob('a time exactly for a token that is not being refreshed', st, h == live))
        out.append(Ob('not due before its time', st, z3.Implies(h, v >= lo)))
        out.append(Ob('due no later than its time', st, z3.Implies(h, v <= hi)))
    return out


def refresh_at_contract(ctx, fid):
    """what callers may rely on: the postcondition c14_time discharges"""
    if not is_refresh_at(ctx, fid):
        return None

    L = ctx.L

    @memo
    def post(S, idt, r):
        row = z3.Select(L.parts(S)[2].arr, L.has_id(S, idt)[1])
        live, lo, hi = due_bounds(ctx, S, row)
        h, v = opt(ctx, r)
        return L.el_name(row), z3.And(h == live, z3.Implies(h, z3.And(v >= lo, v <= hi)))

    def c(eng, st, S, idt, r):
        if idt is None:
            return None
        L.touch_id(st, S, idt)
        name, fact = post(S, idt, r)
        eng.add_term(st, ('key', L.parts(S)[1].dom.get_id()), name)
        return fact
    return c


base.Ctx.helper_contracts.append(refresh_at_contract)


# ---- the worker threads ---------------------------------------------------------
def last_sec(p, ev):
    """the last critical section of the global lock which ended before an event"""
    bs = {id(x) for x in before(p.st.tr, ev)}
    r = None
    for s in p.secs:
        if id(s.unlock) in bs:
            r = s
    return r


def last_now(p, ev):
    r = None
    for x in before(p.st.tr, ev):
        if x.k == 'now':
            r = x.t
    return r


def outer(run, p):
    """(event of the outermost loop of the entry function, open loops at the end)"""
    depth, o = [], None
    for x in p.st.tr:
        if x.k == 'loop':
            depth.append(x)
        elif x.k == 'loopexit':
            while depth and (depth[-1].fn, depth[-1].head) != (x.fn, x.head):
                depth.pop()
            if depth:
                depth.pop()
    if isinstance(p.out, Stop) and len(depth) == 1 and depth[0].fn == run.name:
        return depth[0]
    return None


def any_row(ctx, st, S, tag='j'):
    """an arbitrary row of the table of a state: (state, row)"""
    e, L = ctx.e, ctx.L
    st = st.copy()
    cnt, mp, d = L.parts(S)
    j = z3.Int(fresh_name(tag))
    e.assume(st, j >= 0, j < d.n)
    e.add_term(st, ('ix', d.tag), j)
    row = z3.Select(d.arr, j)
    e.add_term(st, ('key', mp.dom.get_id()), L.el_name(row))
    e.add_term(st, ('ix', d.tag), L.idx_fns(S)[0](L.el_id(row)))
    return st, row


def waits(ctx, run, what, due):
    """the sleep of a worker thread: not past the next time something is due, and no wake-up is lost"""
    L = ctx.L
    out, done = [], set()
    for p in run.paths:
        for ev in evs(p.st, 'wait'):
            if id(ev) in done:
                continue
            done.add(id(ev))
            sec = last_sec(p, ev)
            if sec is None:
                out.append(at_end(p, f'{what}: sleeps only once it knows what is next', False, ev))
                continue
            out.append(at_end(p, f'{what}: no request to look again is dropped before sleeping', z3.Not(ev.lost) if z3.is_expr(ev.lost) else not ev.lost, ev))
            if z3.is_expr(ev.content):
                out.append(at_end(p, f'{what}: does not sleep when asked to look again', z3.Not(ev.content), ev))

            def mk(p=p, ev=ev, sec=sec):
                st, row = any_row(ctx, p.st, sec.post)
                t = last_now(p, ev)
                live, lo, hi = due(ctx, sec.post, row, t)
                if ev.dur is None:
                    return st, z3.Not(live)
                if t is None:
                    raise Unsupported('a sleep without a clock')
                return st, z3.Implies(live, t + ev.dur <= hi)
            out.append(Ob(f'{what}: sleeps no longer than until the next one is due [{where(ev)}]', mk))
    return out


def c14_thread(ctx, run):
    L, e = ctx.L, ctx.e
    out = waits(ctx, run, 'refresher', due_bounds)
    done = set()
    n = 0
    for p in run.paths:
        for ev in evs(p.st, 'spawn'):
            ids = told_of(ctx.M, p.st, ev.clo)[0]
            if not ids or id(ev) in done:
                continue
            done.add(id(ev))
            n += 1
            sec = last_sec(p, ev)
            t = last_now(p, ev)

            def mk(p=p, ev=ev, sec=sec, t=t, ids=ids):
                st = p.st.copy()
                gs = []
                for i in ids:
                    L.touch_id(st, sec.post, i)
                    ok, ix = L.has_id(sec.post, i)
                    row = z3.Select(L.parts(sec.post)[2].arr, ix)
                    e.add_term(st, ('key', L.parts(sec.post)[1].dom.get_id()), L.el_name(row))
                    live, lo, hi = due_bounds(ctx, sec.post, row)
                    gs.append(z3.And(ok, live, lo <= t))
                return st, z3.And(*gs)
            if sec is None or t is None:
                out.append(at_end(p, 'a refresh is started only of a token known to be due', False, ev))
            else:
                out.append(Ob(f'a refresh is started only of a token that is due [{where(ev)}]', mk))
    m = 0
    for p in run.paths:
        o = outer(run, p)
        if o is None:
            continue
        it = after(p.st.tr, o)
        secs = [s for s in p.secs if s.lock in it]
        if not secs:
            continue
        sec = secs[-1]
        ts = [x.t for x in between(p.st.tr, sec.lock, sec.unlock) if x.k == 'now'] or [x.t for x in it if x.k == 'now' and x in before(p.st.tr, sec.lock)][-1:]
        if not ts:
            raise Unsupported('the due tokens are chosen without a clock')
        m += 1

        def mk(p=p, sec=sec, t=ts[0]):
            st, row = any_row(ctx, p.st, sec.post)
            live, lo, hi = due_bounds(ctx, sec.post, row)
            return st, z3.Implies(z3.And(live, hi <= t), z3.Select(p.st.store[TOLD].ids, L.el_id(row)))
        out.append(Ob('a refresh is started of every token that is due', mk))
    if not n or not m:
        raise Unsupported('no refreshes are started')
    return out


def c14_told(ctx, run):
    """whatever makes a token due for a refresh at some time tells the refresher to look again"""
    L = ctx.L
    return told_after(ctx, run, 'efresher', 'a token that can become due', lambda ts: z3.And(L.is_ts(ts, 'Active'), z3.Not(L.ts_f(ts, 'Active', 'ongoing_refresh'))))


def told_after(ctx, run, who, what, phi):
    L = ctx.L
    out, done = [], set()
    rl = reloads(ctx, run)
    for p in run.paths:
        if not isinstance(p.out, Ret):
            continue
        for sec in p.secs:
            conf = sec in rl
            if not conf and not rows_touched(L, sec):
                continue
            tail = after(p.st.tr, sec.lock)
            told = False
            for k, x in enumerate(tail):
                if x.k == 'unlock' and who in x.name and x.content is True:
                    told = told or any(y.k == 'notify' and who in str(y.cv) for y in tail) 
            key = (id(sec), told)
            if key in done:
                continue
            done.add(key)
            if told:
                out.append(Ob(f'{what} is told to the {who.lower()} thread [{sname(run, sec)}]', p.st, True))
                continue

            def mk(p=p, sec=sec):
                r = Row(ctx, p.st, sec.pre, sec.post)
                ch = z3.Not(r.same)
                if conf:
                    ch = z3.BoolVal(True)
                return r.st, z3.Not(z3.And(ch, phi(r.ts1)))
            out.append(Ob(f'{what} is told to the {who.lower()} thread [{sname(run, sec)}]', mk))
    return out


def c15_setting(ctx, run):
    name = run.name.rsplit('::', 1)[1]
    L, e, P = ctx.L, ctx.e, ctx.P
    out = []
    acc = [a for a in run.args if isinstance(a, Dt) and P.tname(a.tid).endswith('Account')]
    conf = [a for a in run.args if isinstance(a, (Dt, Agg)) and a.tid is not None and P.strip(a.tid) == L.confty]
    if not acc or not conf:
        raise Unsupported(f'arguments of {run.name}')
    for p in run.paths:
        if isinstance(p.out, Ret):
            out.append(Ob(f'{name}: the account setting, else the global one, else the default', p.st, zany(p.out.v) == setting(ctx, acc[0].t, conf[0], name)))
        elif isinstance(p.out, Panic):
            out.append(Ob(f'{name}: never panics', p.st, False))
    return out


prop('C14', [(['helpers'], [c14_time]), (['refresher'], [c14_thread]), (['refresh', 'http', 'https', 'ctl', 'restore', 'fail', 'notifier'], [c14_told])])
prop('C15', [([f'config::Account::{n}' for n in DEFAULTS], [c15_setting])])

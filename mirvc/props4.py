"""Contracts of the announcements of pending authentications."""
import z3
from mir import Unsupported
from values import *
from props import *
from props import prop, evs, at_end, where, sname, zany, Row, rows_touched
from engine import Ret, Panic, Stop
import base
from base import Ob, MAIN
from models import TOLD
from models import rope
from props2 import after, before, between
from props3 import gives_time, waits, told_after, outer, any_row, last_sec, last_now, fits, opt as optv


def is_notify_at(ctx, fid):
    c = [i for i in ctx.e.opaque if gives_time(ctx, i) and 'Refresher' not in ctx.argnames(i)]
    return fid in c and fid in ctx.outermost(c)


def announce_bounds(ctx, S, row, t):
    """(a reminder is due at some time, earliest, latest)"""
    L = ctx.L
    ts = L.el_ts(row)
    h, v, _ = L.optt(L.ts_f(ts, 'Pending', 'last_notification'))
    nx = v + L.conf_f(S, 'auth_notify_interval')
    live = z3.And(L.is_ts(ts, 'Pending'), z3.Or(z3.Not(h), fits(nx)))
    at = z3.If(h, nx, t if t is not None else z3.Int('nowhere'))
    return live, at, at


def c16_time(ctx, run):
    """postcondition of the function which computes the time of the next announcement"""
    L, e, P = ctx.L, ctx.e, ctx.P
    if not is_notify_at(ctx, run.fid):
        return []
    out = []
    for p in run.paths:
        if not isinstance(p.out, Ret):
            continue
        S = p.st.store[('mutex', MAIN)]
        aid = [L.id_of(a.t) for a in (e.deref(p.st, x) if isinstance(x, MutRef) else x for x in run.args) if isinstance(a, Dt) and a.tid == L.idty][0]
        row = z3.Select(L.parts(S)[2].arr, L.has_id(S, aid)[1])
        ts = L.el_ts(row)
        lh, lv, _ = L.optt(L.ts_f(ts, 'Pending', 'last_notification'))
        live, lo, _ = announce_bounds(ctx, S, row, None)
        h, v = optv(ctx, e.to_term(p.out.v, P.fns[run.fid]['body']['locals'][0]))
        nows = [x.t for x in evs(p.st, 'now')]
        out.append(Ob('a time exactly for a pending authentication', p.st, h == live))
        out.append(Ob('an interval after the last announcement', p.st, z3.Implies(z3.And(h, lh), v == lo)))
        out.append(Ob('at once if there was none', p.st, z3.Implies(z3.And(h, z3.Not(lh)), z3.Or(*[v <= t for t in nows]))))
    return out


def notify_at_contract(ctx, fid):
    """what callers may rely on: the postcondition c16_time discharges"""
    if not is_notify_at(ctx, fid):
        return None

    L = ctx.L

    @memo
    def post(S, idt, r, clock):
        row = z3.Select(L.parts(S)[2].arr, L.has_id(S, idt)[1])
        lh = L.optt(L.ts_f(L.el_ts(row), 'Pending', 'last_notification'))[0]
        live, lo, _ = announce_bounds(ctx, S, row, None)
        h, v = optv(ctx, r)
        return z3.And(h == live, z3.Implies(z3.And(h, lh), v == lo), z3.Implies(z3.And(h, z3.Not(lh)), v <= clock))

    def c(eng, st, S, idt, r):
        if idt is None:
            return None
        k = eng.inpipe[0]
        if k not in eng.pipeclks:
            eng.pipeclks = eng.pipeclks + [k]
        L.touch_id(st, S, idt)
        return post(S, idt, r, z3.Int(f'pipeclock{k}'))
    return c


base.Ctx.helper_contracts.append(notify_at_contract)


def readings(p, sec):
    return [x.t for x in between(p.st.tr, sec.lock, sec.unlock) if x.k == 'now'] or [x.t for x in before(p.st.tr, sec.lock) if x.k == 'now'][-1:]


def c16_thread(ctx, run):
    L, e = ctx.L, ctx.e
    out = waits(ctx, run, 'notifier', announce_bounds)
    done = set()
    # what the notifier changes
    for p in run.paths:
        for sec in p.secs:
            if id(sec) in done or not rows_touched(L, sec):
                continue
            done.add(id(sec))
            ts = readings(p, sec)

            def row(sec=sec, p=p):
                return Row(ctx, p.st, sec.pre, sec.post)

            def mk1(sec=sec, p=p, ts=ts):
                r = row(sec, p)
                return r.st, z3.Or(r.same, z3.And(r.had, *[x for x in [r.id0 == r.id1]], z3.Or(*[r.ts1 == L.announced_ts(r.ts0, t) for t in ts])))

            def mk2(sec=sec, p=p, ts=ts):
                r = row(sec, p)
                return r.st, z3.Or(r.same, z3.Or(*[z3.And(L.announce_due(sec.pre, r.r0, t), L.optt(L.ts_f(r.ts1, 'Pending', 'last_notification'))[1] == t) for t in ts]))
            out.append(Ob(f'announcing changes only the time of the last announcement [{sname(run, sec)}]', mk1))
            out.append(Ob(f'nothing is announced before it is due [{sname(run, sec)}]', mk2))
    if not done:
        raise Unsupported('nothing is announced')
    # the commands
    done = set()
    n = 0
    clos = {}
    for p in run.paths:
        for ev in evs(p.st, 'spawn'):
            if id(ev) in done:
                continue
            done.add(id(ev))
            sec = last_sec(p, ev)
            runs = closure_runs(ctx, p, ev)
            for st, cmds in runs:
                if not cmds:
                    out.append(Ob(f'the command is run if there is a shell [{where(ev)}]', st, z3.Not(z3.Bool('env_set:SHELL'))))
                    continue
                n += 1
                c = cmds[0]
                out.append(Ob(f'the command is run once [{where(ev)}]', st, len(cmds) == 1))
                env = {k.lit(): v.term() for k, v in c.env}
                nm, url = env.get('PIZAUTH_ACCOUNT'), env.get('PIZAUTH_URL')
                if nm is None or url is None:
                    out.append(Ob(f'the command gets account and URL [{where(ev)}]', st, False))
                    continue
                if sec is None:
                    out.append(Ob(f'a command belongs to an account announced just before [{where(ev)}]', st, False))
                    continue
                ts = readings(p, sec)

                def mk(st=st, c=c, nm=nm, url=url, sec=sec, ts=ts):
                    s = st.copy()
                    c0, m0, d0 = L.parts(sec.pre)
                    d1 = L.parts(sec.post)[2]
                    e.models.map_key_term(s, m0, nm)
                    i = L.idx_fns(sec.pre)[1](nm)
                    e.add_term(s, ('ix', d0.tag), i)
                    e.add_term(s, ('ix', d1.tag), i)
                    r0, r1 = z3.Select(d0.arr, i), z3.Select(d1.arr, i)
                    h, cmd, _ = L.optt(L.conf_f(sec.pre, 'auth_notify_cmd'))
                    args = [rope(a) for a in c.args]
                    ok = [z3.Select(m0.dom, nm), L.el_name(r0) == nm, url == e.models.urlstr(L_url(ctx, r0)).term(), h, z3.BoolVal(len(args) == 2),
                          z3.Or(*[z3.And(L.announce_due(sec.pre, r0, t), L.el_ts(r1) == L.announced_ts(L.el_ts(r0), t)) for t in ts])]
                    if len(args) == 2:
                        ok += [args[0].term() == lit('-c'), args[1].term() == cmd]
                    return s, z3.And(*ok)
                out.append(Ob(f'a command is run with name and URL of an account announced just then [{where(ev)}]', mk))
                again = [z3.Not(b) for q, b in (ev.a.get('again') or {}).items() if isinstance(ev.clo.f[q], Rope) and must_eq(e, st, ev.clo.f[q].term(), nm)]
                out.append(Ob(f'no account is announced twice at a time [{where(ev)}]', st, z3.Or(*again) if again else False))
    m = 0
    for p in run.paths:
        o = outer(run, p)
        if o is None:
            continue
        it = after(p.st.tr, o)
        secs = [s for s in p.secs if s.lock in it and rows_touched(L, s)]
        if not secs:
            if any(s.lock in it for s in p.secs):
                pass
            else:
                continue
        sec = (secs or [s for s in p.secs if s.lock in it])[-1]
        ts = readings(p, sec)
        if not ts:
            raise Unsupported('announced without a clock')
        m += 1

        def mk(p=p, sec=sec, t=ts[0]):
            st, r0 = any_row(ctx, p.st, sec.pre)
            L2 = L.parts(sec.post)
            i = L.idx_fns(sec.pre)[0](L.el_id(r0))
            e.add_term(st, ('ix', L2[2].tag), i)
            nm = L.el_name(r0)
            cmd = L.optt(L.conf_f(sec.pre, 'auth_notify_cmd'))[0]
            r1 = z3.Select(L2[2].arr, i)
            return st, z3.Implies(L.announce_due(sec.pre, r0, t), z3.And(L.el_ts(r1) == L.announced_ts(L.el_ts(r0), t),
                                                                       z3.Implies(cmd, z3.Select(p.st.store[TOLD].strs, nm))))
        out.append(Ob('every pending authentication that is due is announced', mk))
    if not n or not m:
        raise Unsupported('no commands are run')
    return out


def L_url(ctx, row):
    """the URL of a pending row as a value"""
    L = ctx.L
    n = L.ts_var('Pending')
    ft = [ft for fn, ft in L.tv[n][2] if fn == 'url'][0]
    return ctx.e.from_term(L.ts_f(L.el_ts(row), 'Pending', 'url'), ft)


def must_eq(e, st, a, b):
    return a.eq(b) or e.solver.sat(list(st.pc) + [a != b], 4000) is False


def closure_runs(ctx, p, ev):
    """the runs of a spawned closure: [(state, commands run)]"""
    e = ctx.e
    st = p.st.copy()
    n = len(st.tr)
    fid = ctx.P.types[ev.clo.tid]['fn']
    out = []
    for s, r in e.call_value(ev.clo, [], st):
        out.append((s, [x for x in s.tr[n:] if x.k == 'cmd']))
    return out


def c16_told(ctx, run):
    """whatever makes an authentication pending, or changes the interval, tells the notifier to look again"""
    L = ctx.L
    return told_after(ctx, run, 'otifier', 'a pending authentication', lambda ts: L.is_ts(ts, 'Pending'))


prop('C16', [(['helpers'], [c16_time]), (['notifier'], [c16_thread]), (['refresh', 'http', 'https', 'ctl', 'restore', 'fail', 'refresher'], [c16_told])])

"""Contracts of the status reply."""
import z3
from mir import Unsupported
from values import *
from props import *
from props import prop, evs, at_end, where, inp
from engine import Ret
from base import Ob, MAIN
from props2 import before

ONE = 'one line per account, in the order of the table'


def apps(t, name):
    """the applications of a function in a term"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == name:
                out.append(x)
            todo += x.children()
    return out


def consts(t, prefix):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(prefix):
            out.append(x)
        todo += x.children()
    return out


def dated(piece, field):
    """the piece shows a moment (of the monotonic clock) as a date, or as unknown"""
    ds = apps(piece, 'rfc2822')
    if not ds:
        return z3.BoolVal(False)
    gs = []
    for d in ds:
        ws, ns = consts(d, 'wall!'), consts(d, 'now!')
        gs.append(z3.Or(*[d.arg(0) == w + field - n for w in ws for n in ns]) if ws and ns else z3.BoolVal(False))
    return z3.And(*gs)


def line(ctx, row, r, ts):
    """the text after the name of an account tells the state of its row at one of the times ts"""
    L = ctx.L
    st = L.el_ts(row)
    ps = list(r)
    if not ps or not isinstance(ps[0], str) or not ps[0].startswith(': '):
        return z3.BoolVal(False)
    ps[0] = ps[0][2:]
    f = lambda v, n: L.ts_f(st, v, n)
    act = lambda c: z3.And(L.is_ts(st, 'Active'), z3.Or(*[c(f('Active', 'access_token_expiry'), t) for t in ts]) if ts else z3.BoolVal(False))

    def shape(*w):
        """pieces of the text: literals, and moments"""
        if len(ps) != len(w):
            return None
        gs = []
        for x, y in zip(ps, w):
            if isinstance(y, str):
                if x != y:
                    return None
            elif isinstance(x, str):
                return None
            else:
                gs.append(dated(x, y))
        return z3.And(*gs) if gs else z3.BoolVal(True)
    lh, lv, _ = L.optt(f('Pending', 'last_notification'))
    ah, av, _ = L.optt(f('Active', 'last_refresh_attempt'))
    exp, got = f('Active', 'access_token_expiry'), f('Active', 'access_token_obtained')
    unk = '<unknown time>'
    opts = [
        (('No access token',), L.is_ts(st, 'Empty')),
        (('Access token pending authentication',), z3.And(L.is_ts(st, 'Pending'), z3.Not(lh))),
        (('Access token pending authentication (last notification ', lv, ')'), z3.And(L.is_ts(st, 'Pending'), lh)),
        (('Access token pending authentication (last notification ' + unk + ')',), z3.And(L.is_ts(st, 'Pending'), lh)),
        (('Active access token (obtained ', got, '; expires ', exp, ')'), act(lambda e, t: e > t)),
        (('Active access token (obtained ' + unk + '; expires ', exp, ')'), act(lambda e, t: e > t)),
        (('Active access token (obtained ', got, '; expires ' + unk + ')'), act(lambda e, t: e > t)),
        (('Active access token (obtained ' + unk + '; expires ' + unk + ')',), act(lambda e, t: e > t)),
        (('Access token expired (last refresh attempt ', av, ')'), z3.And(act(lambda e, t: e <= t), ah)),
        (('Access token expired (last refresh attempt ' + unk + ')',), z3.And(act(lambda e, t: e <= t), ah)),
        (('Access token expired (refresh not yet attempted)',), z3.And(act(lambda e, t: e <= t), z3.Not(ah))),
    ]
    out = []
    for w, c in opts:
        g = shape(*w)
        if g is not None:
            out.append(z3.And(g, c))
    return z3.Or(*out) if out else z3.BoolVal(False)


def c23_status(ctx, run):
    L, e = ctx.L, ctx.e
    out, done = [], set()
    n = m = 0

    def isstatus(x):
        return z3.And(F("has:':'", Str, B)(x[0]), F('utf8', Str, B)(x[1]), x[1] == lit('status'), x[2] == lit(''))
    for p in run.paths:
        x = inp(ctx, p)
        if x is None:
            continue
        maybe = None
        for ev in evs(p.st, 'push'):
            if id(ev) in done:
                continue
            if maybe is None:
                maybe = e.solver.sat(p.st.pc + [isstatus(x)], 4000) is not False
            if not maybe:
                break
            done.add(id(ev))
            lk = [q for q in before(p.st.tr, ev) if q.k == 'lock' and q.name == MAIN]
            r = ev.data.p
            if not lk or len(r) < 2 or isinstance(r[0], str):
                raise Unsupported('lines of another shape')
            n += 1
            ts = [q.t for q in before(p.st.tr, ev) if q.k == 'now' and q not in before(p.st.tr, lk[-1])]
            d = L.parts(lk[-1].content)[2]

            def mk(which, p=p, ev=ev, ts=ts, d=d, r=r, x=x):
                st = p.st.copy()
                k = zint(ev.n)
                e.add_term(st, ('ix', d.tag), k)
                row = z3.Select(d.arr, k)
                if which == 0:
                    return st, z3.Implies(isstatus(x), z3.And(k >= 0, k < zint(d.n), r[0] == L.el_name(row)))
                return st, z3.Implies(isstatus(x), line(ctx, row, r[1:], ts))
            out.append(Ob(f'{ONE} [{where(ev)}]', lambda mk=mk: mk(0)))
            out.append(Ob(f'a line tells the state of its account [{where(ev)}]', lambda mk=mk: mk(1)))
    for p in run.paths:
        x = inp(ctx, p)
        if not isinstance(p.out, Ret) or x is None or e.solver.sat(p.st.pc + [isstatus(x)], 4000) is False:
            continue
        ws = evs(p.st, 'write')
        if len(ws) != 1:
            out.append(at_end(p, 'one reply to a status request', z3.Not(isstatus(x))))
            continue
        m += 1
        w = ws[0]
        r = rope(w.data).p
        lk = [s for s in p.secs if s.lock in before(p.st.tr, w)]
        if not lk:
            out.append(at_end(p, 'the status is that of the accounts', z3.Not(isstatus(x)), w))
            continue
        d = L.parts(lk[-1].pre)[2]
        js = [q for q in evs(p.st, 'join') if len(r) == 2 and not isinstance(r[1], str) and q.data.eq(r[1])]
        if len(r) == 2 and r[0] == 'ok:' and len(js) == 1 and js[0].n is not None and js[0].sep.lit() == '\n':
            out.append(at_end(p, 'every account is listed once', z3.Implies(isstatus(x), zint(js[0].n) == zint(d.n)), w))
        elif len(r) == 1 and isinstance(r[0], str) and r[0].startswith('error:'):
            out.append(at_end(p, 'an error only without accounts', z3.Implies(isstatus(x), zint(d.n) == 0), w))
        else:
            raise Unsupported('a reply of another shape')
    if not n or not m:
        raise Unsupported('no status reply')
    return out


prop('C23', [(['ctl'], [c23_status])])

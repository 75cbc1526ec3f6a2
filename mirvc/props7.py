"""Contracts of the HTTP request reader."""
import z3
from mir import Unsupported
from values import *
from props import *
from props import prop, evs, at_end
from models import HAS, BEF, AFT, HEADER_HOST
from engine import Ret, Panic
from base import Ob
from props2 import before
from props5 import apps

MOST = 1 << 20      # "a bounded size": the program chooses the bound, but it is a constant below this


def weak(p, name, goal):
    """an obligation whose failure is not believed on its own (it rests on loop invariants found by search)"""
    st = p.st.copy()
    st.gr['weak'] = (z3.BoolVal(True),)
    return Ob(name, st, goal)


def flat(t):
    """a text as a list of pieces"""
    if z3.is_app(t) and t.decl().name() == 'cat':
        return flat(t.arg(0)) + flat(t.arg(1))
    return [t]


def c19_parse(ctx, run):
    out = []
    good = reads = 0
    for p in run.paths:
        rd = [ev for ev in p.st.tr if ev.k in ('read', 'readline')]
        for ev in rd:
            reads += 1
            tk = ev.a.get('take')
            out.append(at_end(p, f'what is read of a request is bounded', False if tk is None else z3.And(zint(tk[1]) >= 0, zint(tk[1]) <= MOST), ev))
        names = {ev.a['take'][0] for ev in rd if ev.a.get('take')}
        if len(names) > 1:
            raise Unsupported('reads with several limits')
        # a loop that reads makes progress: it does not go around again at the end of what there is to read
        lp = [n for n, ev in enumerate(p.st.tr) if ev.k == 'loop']
        if isinstance(p.out, Stop) and str(p.out).startswith('Stop(loop') and lp:
            inner = [ev for ev in p.st.tr[lp[-1]:] if ev.k == 'readline']
            if inner:
                out.append(at_end(p, 'at the end of the input the reader stops', z3.Or(*[rope(ev.data).term() != lit('') for ev in inner])))
        if not isinstance(p.out, Ret):
            continue
        v = p.out.v
        okv = v.f[0] if isinstance(v, Agg) and ctx.P.variants(v.tid)[v.var][0] == 'Ok' else None
        if not isinstance(v, Agg):
            raise Unsupported('a result of another shape')
        if okv is None:
            continue
        good += 1
        first = [ev for ev in rd if ev.k == 'readline'][:1]
        u = okv.t if isinstance(okv, Dt) else None
        if not first or u is None or not z3.is_app(u) or u.decl().name() != 'url_of':
            raise Unsupported('a URL of another shape')
        r = rope(first[0].data).term()
        r2, r3 = AFT(' ')(r), AFT(' ')(AFT(' ')(r))
        out.append(at_end(p, 'only a GET request of three parts is accepted',
                          z3.And(HAS(' ')(r), BEF(' ')(r) == lit('GET'), HAS(' ')(r2), z3.Not(HAS(' ')(r3)))))
        ps = flat(u.arg(0))
        tls = [a for a in run.args if a is True or a is False or (z3.is_expr(a) and z3.is_bool(a))]
        if len(ps) != 3 or len(tls) != 1:
            raise Unsupported('a URL of another shape')
        out.append(at_end(p, 'the scheme is that of the listener',
                          z3.Or(z3.And(zbool(tls[0]), ps[0] == lit('https://')), z3.And(z3.Not(zbool(tls[0])), ps[0] == lit('http://')))))
        out.append(at_end(p, 'the path is the one asked for', ps[2] == BEF(' ')(r2)))
        hs = {a.get_id(): a for f in p.st.pc for a in apps(f, 'host_fields') if not z3.is_int_value(a.arg(1))}.values()
        ln = getattr(ctx.e, 'host_len', {})
        gs = [z3.And(a == 1, a.arg(1) == zint(ln[a.arg(0).get_id()][1])) for a in hs if a.arg(0).get_id() in ln]
        out.append(weak(p, 'exactly one of the header lines is a Host field', z3.Or(*gs) if gs else z3.BoolVal(False)))
        out.append(weak(p, 'the host is the value of a Host field', HEADER_HOST(ps[1])))
    if not good or not reads:
        raise Unsupported('no request is read')
    return out


def c19_caller(ctx, run):
    out, n = [], 0
    for p in run.paths:
        ps = evs(p.st, 'parsed')
        for ev in p.st.tr:
            if ev.k in ('read', 'readline') and ev.a.get('take') is None:
                out.append(at_end(p, 'a request is read by its reader only', False, ev))
        if len(ps) == 1 and ps[0].url is None:
            n += 1
            bad = [ev for ev in p.st.tr if ev.k in ('post', 'lock', 'queue', 'spawn') and ev not in before(p.st.tr, ps[0])]
            out.append(at_end(p, 'a request that is not accepted changes nothing', not bad))
            w = [ev for ev in evs(p.st, 'write')]
            out.append(at_end(p, 'it is answered with an error', any('HTTP/1.1 400' in ''.join(x for x in rope(ev.data).p if isinstance(x, str)) for ev in w)))
        elif not ps and isinstance(p.out, Ret):
            bad = [ev for ev in p.st.tr if ev.k in ('post', 'lock', 'queue', 'spawn')]
            out.append(at_end(p, 'nothing is done without a request', not bad))
    if not n:
        raise Unsupported('no request is read')
    return out


prop('C19', [(['parse'], [c19_parse]), (['http', 'https'], [c19_caller])])

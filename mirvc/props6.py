"""Contracts of the client commands."""
import z3
from mir import Unsupported
from values import *
from models import I, B, F, CAT, HAS, BEF, AFT
from props import *
from props import prop, evs, at_end
from engine import Ret, Stop, Panic
from props5 import consts

TOLD = ('error', 'an error reply is told')
SIMPLE = ('reload', 'restore', 'revoke')


def code(p):
    """the exit status of a path: a term, or None when it does not end"""
    if isinstance(p.out, Ret):
        return 0
    if isinstance(p.out, Panic):
        return 101
    if isinstance(p.out, Stop) and p.out.why == 'exit':
        return evs(p.st, 'exit')[-1].code
    return None


def pieces(rs):
    """the concatenation of ropes, adjacent literals joined"""
    out = Rope([])
    for r in rs:
        out = out + rope(r)
    return list(out.p)


def same(a, b):
    """the text a (pieces) is the text b (pieces)"""
    if len(a) == len(b) and all(type(x) is type(y) or not isinstance(x, str) and not isinstance(y, str) for x, y in zip(a, b)):
        gs = []
        for x, y in zip(a, b):
            if isinstance(x, str):
                if x != y:
                    gs = None
                    break
            else:
                gs.append(x == y)
        if gs is not None:
            return z3.And(*gs) if gs else z3.BoolVal(True)
    return Rope(a).term() == Rope(b).term()


def split_reply(r, word, rest):
    """the reply r is word:rest"""
    return z3.Or(z3.And(HAS(':')(r), BEF(':')(r) == lit(word), AFT(':')(r) == rest), r == Rope([word + ':', rest]).term() if rest is not lit('') else r == lit(word + ':'))


def first_arg(t, m):
    """t is the first free argument of the parsed command line m"""
    return z3.is_select(t) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0 and any(c.eq(m) for c in consts(t, m.decl().name()))


def c24_client(ctx, run):
    e = ctx.e
    cmd = z3.Select(z3.Const('argv.arr', z3.ArraySort(I, Str)), 1)
    out = []
    n = 0
    for p in run.paths:
        c = code(p)
        if c is None:
            continue
        st = p.st
        conn = [ev for ev in st.tr if ev.k == 'connect']
        ms = evs(st, 'argparse')
        m = ms[-1].m if ms else None
        sock = [ev for ev in st.tr if ev.k in ('write', 'written', 'read', 'flushed') and is_conn(ev)]
        reads = [ev for ev in sock if ev.k == 'read']
        req = pieces([ev.data for ev in sock if ev.k == 'write'])
        whole = len([ev for ev in sock if ev.k == 'write']) == len([ev for ev in sock if ev.k == 'written'])
        R = rope(reads[-1].data).term() if reads else None
        # what goes to standard output
        outs = [ev for ev in st.tr if ev.k == 'print' or ev.k == 'write' and is_std(ev, 'io::stdout')]
        shown = pieces([ev.data for ev in outs if ev.data is not None])
        u = F('opt_present:u', m.sort(), B)(m) if m is not None else z3.BoolVal(False)

        def account(pre, rest):
            k = len(req)
            return k == 2 and req[0] == pre and not isinstance(req[1], str) and first_arg(req[1], m)

        def ok(x):
            T, N = z3.BoolVal(True), z3.BoolVal(False)
            if x == 'info':
                return T
            if x == 'server':
                return z3.BoolVal(any(ev.k == 'served' and ev.ok for ev in st.tr))
            if len(conn) != 1 or not whole or m is None:
                return N
            if x == 'shutdown':
                return z3.BoolVal(req == ['shutdown:'])
            if R is None or len(reads) != 1:
                return N
            if x in ('reload', 'dump', 'status'):
                if req != [x + ':']:
                    return N
            elif x == 'restore':
                si = [ev for ev in st.tr if ev.k == 'read' and is_std(ev, 'io::stdin')]
                if len(si) != 1 or len(req) != 2 or req[0] != 'restore:' or isinstance(req[1], str) or not req[1].eq(rope(si[0].data).term()):
                    return N
            elif x == 'revoke':
                if not account('revoke:', None):
                    return N
            flag = T
            if x in ('refresh', 'show'):
                w = 'refresh:' if x == 'refresh' else 'showtoken:'
                if account(w + 'withurl ', None):
                    flag = z3.Not(u)
                elif account(w + 'withouturl ', None):
                    flag = u
                else:
                    return N
            if x in SIMPLE:
                return split_reply(R, 'ok', lit(''))
            if x == 'refresh':
                return z3.And(flag, split_reply(R, 'scheduled', lit('')))
            if x == 'dump':
                last = [ev for ev in st.tr if ev.k in ('write', 'written', 'flushed') and is_std(ev, 'io::stdout')]
                safe = len(last) >= 2 and last[-1].k == 'flushed' and sum(ev.k == 'write' for ev in last) == sum(ev.k == 'written' for ev in last)
                if not safe:
                    return N
                return z3.And(R != lit(''), same(shown, list(rope(reads[0].data).p)))
            if not shown or not isinstance(shown[-1], str) or not shown[-1].endswith('\n'):
                return N
            body = shown[:-1] + ([shown[-1][:-1]] if len(shown[-1]) > 1 else [])
            t = Rope(body).term()
            return z3.And(flag, split_reply(R, 'access_token' if x == 'show' else 'ok', t))
        # success
        good = c == 0 if is_int(c) else zint(c) % 256 == 0
        if good is True or good is not False and is_int(c) is False:
            n += 1
            g = z3.Or(*[z3.And(cmd == lit(x), ok(x)) for x in ('dump', 'info', 'refresh', 'reload', 'restore', 'revoke', 'server', 'show', 'shutdown', 'status')])
            out.append(at_end(p, f'success only when acknowledged, with what the server gave [path {p.n}]', g if good is True else z3.Implies(good, g)))
        if good is not True and not isinstance(p.out, Panic):
            fail = z3.BoolVal(True) if good is False else z3.Not(good)
            info = z3.Or(cmd == lit('info'), cmd == lit('server'))
            told = [list(rope(ev.data).p) for ev in st.tr if ev.k in ('log', 'eprint') and ev.data is not None]
            out.append(at_end(p, f'a failure is told [path {p.n}]', z3.Implies(fail, z3.BoolVal(any(told)))))
            quiet = not [ev for ev in outs if ev.k == 'print']
            if not quiet:
                out.append(at_end(p, f'a failure prints no result [path {p.n}]', z3.Implies(fail, info)))
            for ev in outs:
                if ev.k == 'write':
                    out.append(at_end(p, f'only what the server gave is written [path {p.n}]',
                                      z3.Or(info, same(list(rope(ev.data).p), [R])) if R is not None else info))
            if R is not None:
                has = [x == AFT(':')(R) for ps in told for x in ps if not isinstance(x, str)] + [x == R for ps in told for x in ps if not isinstance(x, str)]
                out.append(at_end(p, f'the error reply is told [path {p.n}]',
                                  z3.Or(z3.Not(z3.And(F('utf8', Str, B)(R), HAS(':')(R), BEF(':')(R) == lit('error'))), info, cmd == lit('dump'), *has)))
    if n < 5:
        raise Unsupported('fewer client commands than expected')
    return out


def is_conn(ev):
    d = ev.src if ev.k == 'read' else ev.dst
    return isinstance(d, Dt) and z3.is_const(d.t) and d.t.decl().name().startswith('conn!')


def is_std(ev, n):
    d = ev.src if ev.k == 'read' else ev.dst
    return isinstance(d, Dt) and z3.is_const(d.t) and d.t.decl().name() == n


def c24_folders(ctx, run):
    out = []
    for p in run.paths:
        c = code(p)
        if isinstance(p.out, Ret) or isinstance(p.out, Panic) or c is None:
            continue
        told = any(ev.k in ('log', 'eprint') and ev.data is not None for ev in p.st.tr)
        out.append(at_end(p, 'a failing exit with a message', z3.And(z3.BoolVal(told), zint(c) % 256 != 0)))
    return out


prop('C24', [(['client'], [c24_client]), (['folders'], [c24_folders])])

"""Contracts, second part."""
import z3
from mir import Unsupported
from values import *
from models import F, I, B, LOWER, PREFIX, SHA, B64, JSON_OK
from engine import Panic, Ret, Stop
from base import Ob, MAIN
from props import *
from props import _C
import props


# ==== C18: nothing panics, nothing locks twice ===========================================
def c18_panics(ctx, run):
    out = []
    n = 0
    for p in run.paths:
        if isinstance(p.out, Panic):
            out.append(Ob(f'never panics: {str(p.out.msg)[:70] if hasattr(p.out, "msg") else str(p.out)[:110]}', p.st, False))
        else:
            n += 1
        for ev in evs(p.st, 'deadlock'):
            out.append(at_end(p, 'never waits for a lock it holds itself', False, ev))
    out.append(Ob(f'{n} paths return normally', run.paths[0].st, True))
    for nm, s, g, *_ in run.obl:
        out.append(Ob('use of a helper: ' + str(nm), s, g))
    return out


# ==== C21: the lock is never held while waiting for someone else ==========================
SLOW = {'post': 'an HTTP request', 'childwait': 'a child process', 'sleep': 'a timer', 'write': 'a peer to read', 'read': 'a peer to write', 'readline': 'a peer to write',
        'wait': 'a condition'}


def c21_lock(ctx, run):
    out = []
    seen = set()
    for p in run.paths:
        for ev in p.st.tr:
            if ev.k in SLOW and id(ev) not in seen:
                seen.add(id(ev))
                held = [h for h in ev.held if h == MAIN]
                if ev.k == 'wait':
                    held = [h for h in ev.held if h != ev.a.get('name')]
                out.append(at_end(p, f'no lock is held while waiting for {SLOW[ev.k]}', not held, ev))
    return out



# ==== helpers ===========================================================================
def between(p_tr, a, b):
    """events between two events of a trace"""
    out, on = [], False
    for ev in p_tr:
        if ev is a:
            on = True
        if ev is b:
            break
        if on:
            out.append(ev)
    return out


def after(tr, a):
    out, on = [], False
    for ev in tr:
        if on:
            out.append(ev)
        if ev is a:
            on = True
    return out


def before(tr, a):
    out = []
    for ev in tr:
        if ev is a:
            break
        out.append(ev)
    return out


def rope_term(v):
    r = rope(v)
    return r.term()


def pair_kv(ctx, x):
    """(key term, value term) of a pair of strings"""
    if isinstance(x, (tuple, list)):
        return rope_term(x[0]), rope_term(x[1])
    return rope_term(ctx.e.field(x, 0)), rope_term(ctx.e.field(x, 1))


def opt_str(ctx, t, field):
    """(is none, is some, value) of an Option<String> field of an account term"""
    L = ctx.L
    for fn, ft in L.av:
        if fn == field:
            isn, iss, val, mk = opt(ctx, ctx.P.strip(ft))
            x = L.a_field(t, field)
            return isn(x), iss(x), val(x)
    raise Unsupported(field)


def redirect_terms(ctx, run, acc):
    """[(condition, URL term)]: the redirect URI of an account, with the port of the listener for
    its scheme"""
    pp = ctx.ports(run.args)
    if pp is None:
        raise Unsupported('the ports of the listeners')
    us, ut = url_sort(ctx)
    u = F('url_of', Str, us)(ctx.L.a_field(acc, 'redirect_uri'))
    (h, ht), (s, stt) = pp
    sp = find_fn('url_set_port')
    if sp is None:
        raise Unsupported('no port is ever set on a URL')
    isn, iss, val, mk = opt(ctx, stt)
    https = F('url_scheme', us, Str)(u) == lit('https')
    return z3.If(z3.And(https, iss(s)), sp(u, s), sp(u, h))


def url_text(ctx, u):
    return F('url_str', u.sort(), Str)(u)


def posts(run):
    """[(path, post event)], each event once, on the first path it is on"""
    seen = set()
    for p in run.paths:
        for ev in evs(p.st, 'post'):
            if id(ev) not in seen:
                seen.add(id(ev))
                yield p, ev


def sec_of(p, ev):
    lk = first_lock(p, ev)
    for s in p.secs:
        if s.lock is lk:
            return s
    return None


def form(ev):
    """{key: value term} of the form sent; None when the keys are not constants"""
    out = {}
    for k, v in (ev.pairs or []):
        kk = rope(k).lit()
        if kk is None or kk in out:
            return None
        out[kk] = rope_term(v)
    return out


# ==== C09: what the user is sent to, and what the code is exchanged with =====================
def c09_request(ctx, run):
    L, e = ctx.L, ctx.e
    out = []
    for sec in changed(ctx, run):
        if reloads(ctx, run) and sec in reloads(ctx, run):
            continue
        ev = between(sec.snap.tr, sec.lock, sec.unlock)
        rnd = [x for x in ev if x.k == 'random']
        ub = [x for x in ev if x.k == 'urlbuild']

        def mk(what, sec=sec, rnd=rnd, ub=ub):
            r = Row(ctx, sec.snap, sec.pre, sec.post)
            s = r.st
            pend = z3.And(r.had, z3.Not(r.same), L.is_ts(r.ts1, 'Pending'), z3.Not(z3.And(L.is_ts(r.ts0, 'Pending'), same_fields(ctx, r.ts0, r.ts1, 'Pending', ('last_notification',)))))
            if not ub or len(rnd) < 2:
                return s, z3.Not(pend)
            u = ub[-1]
            stt, cv = L.ts_f(r.ts1, 'Pending', 'state'), L.ts_f(r.ts1, 'Pending', 'code_verifier')
            A = r.acc1

            def has(k, v):
                return z3.Or(*[z3.And(x == lit(k), y == v) for x, y in (pair_at(ctx, s, u.params, z3.IntVal(i)) for i in range(7))])

            if what == 'random':
                g = z3.Or(*[z3.And(stt == B64(a.t), cv == B64(b.t)) for a in rnd for b in rnd if a is not b and a.n >= 8 and 32 <= b.n <= 96])
            elif what == 'url':
                g = z3.And(L.ts_f(r.ts1, 'Pending', 'url') == u.url.t, rope_term(u.base) == L.a_field(A, 'auth_uri'))
            elif what == 'pkce':
                g = z3.And(has('code_challenge', B64(SHA(cv))), has('code_challenge_method', lit('S256')))
            elif what == 'state':
                g = has('state', stt)
            elif what == 'client':
                g = z3.And(has('client_id', L.a_field(A, 'client_id')), has('response_type', lit('code')), has('access_type', lit('offline')),
                           has('redirect_uri', url_text(ctx, redirect_terms(ctx, run, A))))
            elif what == 'fields':
                ft = [t for fn, t in L.av if fn == 'auth_uri_fields'][0]
                fv = e.from_term(L.a_field(A, 'auth_uri_fields'), ft)
                n, m = zint(e.seq_len(fv)), zint(e.seq_len(u.params))
                i = z3.Int(fresh_name('i'))
                e.assume(s, i >= 0, i < n)
                k, v = pair_at(ctx, s, u.params, m - n + i)
                k2, v2 = pair_at(ctx, s, fv, i)
                g = z3.And(m >= n + 7, k == k2, v == v2)
            else:
                ft = [t for fn, t in L.av if fn == 'scopes'][0]
                sv = e.from_term(L.a_field(A, 'scopes'), ft)
                n = zint(e.seq_len(sv))
                j = find_fn('join:' + L.a_field(A, 'scopes').sort().name())
                if j is None:
                    return s, z3.Implies(pend, n == 0)
                jt = j(L.a_field(A, 'scopes'), lit(' '))
                g = z3.Implies(n > 0, z3.Or(*[z3.And(x == lit('scope'), y == jt) for x, y in (pair_at(ctx, s, u.params, z3.IntVal(i)) for i in range(8))]))
            return s, z3.Implies(pend, g)
        for what, name in (('random', 'state and code verifier of a request are independent fresh random values'), ('url', 'the URL is built on the authentication URI of that account'),
                           ('pkce', 'the URL carries the S256 challenge of the stored code verifier'), ('state', 'the URL carries the stored state value'),
                           ('client', 'the URL carries the client and redirect URI of that account'), ('fields', 'the URL ends with the configured extra fields in order'),
                           ('scope', 'the URL carries the configured scopes')):
            out.append(Ob(f'{name} [{sname(run, sec)}]', lambda what=what, mk=mk: mk(what)))
    return out


def pair_at(ctx, s, v, i):
    e = ctx.e
    if isinstance(v, SeqS):
        e.add_term(s, ('ix', v.tag), i)
    return pair_kv(ctx, e.seq_get(v, i))


def c09_reply(ctx, run):
    """what the client of a request is told: the URL of the pending request of the account it asked for"""
    L, e = ctx.L, ctx.e
    out = []
    for p in run.paths:
        for ev in evs(p.st, 'write'):
            r = rope(ev.data)
            if not r.p or not isinstance(r.p[0], str) or not r.p[0].startswith('pending:'):
                continue
            x = inp(ctx, p)
            if x is None or not p.secs:
                out.append(at_end(p, 'a pending reply answers a request', False, ev))
                continue
            sec = p.secs[-1]

            def mk(p=p, ev=ev, sec=sec, r=r, x=x):
                row = Row(ctx, p.st, sec.pre, sec.post)
                pend = L.is_ts(row.ts1, 'Pending')
                mine = row.name == arg2(x[2])
                if len(r.p) == 1:
                    g = pend
                else:
                    if len(r.p) != 2 or r.p[0] != 'pending:':
                        return row.st, False
                    g = z3.And(pend, r.p[1] == url_text(ctx, L.ts_f(row.ts1, 'Pending', 'url')))
                return row.st, z3.Implies(mine, g)
            out.append(Ob(f'a pending reply gives the URL of that account\'s pending request [{where(ev)}]', mk))
    return out


def exch_row(ctx, p, ev):
    """(section, row state term, account term) the code exchange ev is about"""
    L = ctx.L
    sec = sec_of(p, ev)
    f = form(ev)
    if sec is None or f is None or 'code_verifier' not in f:
        return None
    cvt = f['code_verifier']
    ts = cvt.arg(0) if z3.is_app(cvt) and cvt.num_args() == 1 else None
    if ts is None or not ts.sort().eq(ctx.P.sort(L.tsty)):
        raise Unsupported('origin of the code verifier')
    row = ts.arg(0)
    return sec, ts, z3.Select(L.parts(sec.pre)[1].map, L.el_name(row))


def c09_exchange(ctx, run):
    L = ctx.L
    out = []
    for p, ev in posts(run):
        def mk(p=p, ev=ev):
            x = exch_row(ctx, p, ev)
            f = form(ev)
            if x is None:
                return p.st, False
            sec, ts, acc = x
            return p.st, z3.And(L.is_ts(ts, 'Pending'), f['code_verifier'] == L.ts_f(ts, 'Pending', 'code_verifier'),
                                f.get('grant_type', lit('')) == lit('authorization_code'), f.get('client_id', lit('')) == L.a_field(acc, 'client_id'),
                                f.get('redirect_uri', lit('')) == url_text(ctx, redirect_terms(ctx, run, acc)))
        out.append(Ob(f'a code is exchanged with the verifier and redirect URI of its own request [{where(ev)}]', mk))
    return out


# ==== C10: credentials ========================================================================
SECRET = ('.access_token', '.refresh_token', '.code_verifier', '.client_secret')
SEALED = ('aead_seal',)


def secrets_in(t, seen=None):
    """the credential terms a term is built from (what an authenticated cipher hides does not count)"""
    out = []
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if not z3.is_expr(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            n = x.decl().name()
            if n in SEALED or n.startswith('display:') or n == 'url_str':
                continue
            if n.endswith(SECRET) and x.num_args() == 1:
                out.append(x)
                continue
            if n == 'jmap_get' and x.arg(1).eq(lit('access_token')) or n == 'jmap_get' and x.arg(1).eq(lit('refresh_token')):
                out.append(x)
                continue
            if n.startswith('serialized'):
                out.append(x)
                continue
            if x.sort().eq(Str) or x.decl().kind() == z3.Z3_OP_ITE:
                todo += x.children()
    return out


def c10_flow(ctx, run):
    """no credential leaves through anything but the two sanctioned ways"""
    ctl = ctx.entry('ctl')
    L, e = ctx.L, ctx.e
    out = []
    seen = set()
    for p in run.paths:
        for ev in p.st.tr:
            if id(ev) in seen or ev.k not in ('write', 'cmd', 'enqueue', 'fs', 'spawn') + (('push', 'put') if run.fid in ctl else ()):
                continue
            seen.add(id(ev))
            if ev.k == 'spawn' and run.name.endswith('ctl'):
                continue
            data = [x for v in ev.a.values() for x in ropes(v)]
            sec = []
            for r in data:
                for x in r.p:
                    if z3.is_expr(x):
                        sec += secrets_in(x)
            if not sec:
                out.append(at_end(p, f'no credential in {ev.k}', True, ev))
                continue
            r = rope(ev.data) if ev.k == 'write' else None
            if r is None or len(r.p) != 2 or r.p[0] != 'access_token:' or not z3.is_expr(r.p[1]):
                out.append(at_end(p, f'no credential in {ev.k}', False, ev))
                continue
            x = inp(ctx, p)
            s = sec_of(p, ev)
            if x is None or s is None:
                out.append(at_end(p, 'a token is only shown on request', False, ev))
                continue

            def mk(p=p, ev=ev, s=s, x=x, r=r, what=0):
                row = Row(ctx, p.st, s.pre, s.post)
                mine = row.name == arg2(x[2])
                act = L.is_ts(row.ts1, 'Active')
                if what == 0:
                    g = z3.And(act, r.p[1] == L.ts_f(row.ts1, 'Active', 'access_token'))
                else:
                    tv = [zint(q.a['t']) for q in after(p.st.tr, s.lock) if q.k == 'now']
                    g = z3.Or(*[L.ts_f(row.ts1, 'Active', 'access_token_expiry') > t for t in tv]) if tv else z3.BoolVal(False)
                return row.st, z3.Implies(mine, g)
            out.append(at_end(p, 'a token is only shown when asked for', x[1] == lit('showtoken'), ev))
            out.append(Ob(f'the token shown is that of the account asked for [{where(ev)}]', mk))
            out.append(Ob(f'the token shown has not expired [{where(ev)}]', lambda mk=mk, p=p, ev=ev, s=s, x=x, r=r: mk(p, ev, s, x, r, 1)))
    return out


def c10_shown(ctx, run):
    """a token which has not expired is shown when asked for"""
    L, e = ctx.L, ctx.e
    out = []
    for p in run.paths:
        if not isinstance(p.out, Ret):
            continue
        ws = evs(p.st, 'write')
        x = inp(ctx, p)
        if len(ws) != 1 or x is None or not p.secs:
            continue
        r = rope(ws[0].data)
        if r.p and isinstance(r.p[0], str) and r.p[0].startswith('access_token:'):
            continue
        if ctx.e.solver.sat(p.st.pc + [x[1] == lit('showtoken')], 4000) is False:
            continue
        s = p.secs[0]

        def mk(p=p, s=s, x=x):
            row = Row(ctx, p.st, s.pre, s.post)
            tv = [zint(q.a['t']) for q in after(p.st.tr, s.lock) if q.k == 'now'] or [z3.Int(fresh_name('anytime'))]
            fit = z3.And(x[1] == lit('showtoken'), row.had, row.name == arg2(x[2]), L.is_ts(row.ts0, 'Active'), *[L.ts_f(row.ts0, 'Active', 'access_token_expiry') > t for t in tv])
            return row.st, z3.Not(fit)
        out.append(Ob(f'a token that has not expired is shown when asked for [{where(ws[0])}]', mk))
    return out


def c10_post(ctx, run):
    """credentials are only posted to the token URI of the account they belong to"""
    L = ctx.L
    out = []
    for p, ev in posts(run):
        f = form(ev)
        if f is None:
            out.append(at_end(p, 'the form posted has distinct constant keys', False, ev))
            continue

        def mk(p=p, ev=ev, f=f):
            if 'code_verifier' in f:
                sec, ts, acc = exch_row(ctx, p, ev)
                st, prem = p.st, z3.BoolVal(True)
                g = [f['code_verifier'] == L.ts_f(ts, 'Pending', 'code_verifier')]
                keys = {'code', 'client_id', 'code_verifier', 'redirect_uri', 'grant_type', 'client_secret'}
            else:
                sec = sec_of(p, ev)
                r = Row(ctx, p.st, sec.pre, sec.post)
                st, acc = r.st, r.acc0
                prem = z3.And(r.had, z3.Or(*[r.id0 == a for a in arg_ids(ctx, run)]))
                isn, iss, val, mk_ = opt(ctx, ts_ft(ctx, 'Active', 'refresh_token'))
                rt = L.ts_f(r.ts0, 'Active', 'refresh_token')
                g = [L.is_ts(r.ts0, 'Active'), iss(rt), f.get('refresh_token', lit('')) == val(rt), f.get('grant_type', lit('')) == lit('refresh_token'), f.get('client_id', lit('')) == L.a_field(acc, 'client_id')]
                keys = {'client_id', 'refresh_token', 'grant_type', 'client_secret'}
            n, sm, v = opt_str(ctx, acc, 'client_secret')
            g.append(z3.And(sm, f['client_secret'] == v) if 'client_secret' in f else n)
            g.append(rope_term(ev.url) == L.a_field(acc, 'token_uri'))
            g.append(z3.BoolVal(set(f) <= keys))
            return st, z3.Implies(prem, z3.And(*g))
        out.append(Ob(f'credentials are only posted to their own account\'s token URI [{where(ev)}]', mk))
    return out


# ==== C11 / C12 / C13: what becomes of a refresh ================================================
def outcome(ctx, run, how):
    """for every critical section that follows a token request: the row of the version being
    refreshed, if it is still current"""
    L, e = ctx.L, ctx.e
    out = []
    seen = set()
    for p in run.paths:
        ps = evs(p.st, 'post')
        if not ps:
            continue
        ev = ps[-1]
        nxt = [s for s in p.secs if s.lock in after(p.st.tr, ev)]
        if not nxt:
            if isinstance(p.out, Ret) and how == 'any':
                out.append(at_end(p, 'the reply to a token request is acted upon', False, ev))
            continue
        s1 = nxt[0]
        if id(s1) in seen:
            continue
        seen.add(id(s1))
        yield p, ev, s1
    if how == 'any':
        yield out


def current(ctx, run, sec, r):
    """the row before the section is the version this task last installed (or was started for)"""
    aids = arg_ids(ctx, run)
    return z3.Or(*([r.id0 == a for a in aids] if sec.prev is None else []), *installed(ctx, run, sec, r), z3.BoolVal(False))


def c12_store(ctx, run):
    L, e = ctx.L, ctx.e
    out = []
    first = run.name.endswith('http_server::request')
    for x in outcome(ctx, run, 'each'):
        p, ev, s1 = x
        R = Reply(ctx, ev)

        def base(s1=s1, p=p, ev=ev, R=R):
            r = Row(ctx, s1.snap, s1.pre, s1.post)
            ni, si, val, mk = opt(ctx, ts_ft(ctx, 'Active', 'refresh_token'))
            prem = z3.And(r.had, cur_any(ctx, run, p, s1, r, ev), R.good)
            return r, prem, ni, si, val

        def stored(r, R, ni, si, val, s1, ev):
            nw = nows(r.st, after=ev)
            t = r.ts1
            isn = opt(ctx, ts_ft(ctx, 'Active', 'last_refresh_attempt'))[0]
            ob, ex = L.ts_f(t, 'Active', 'access_token_obtained'), L.ts_f(t, 'Active', 'access_token_expiry')
            return t, ob, ex, nw, isn
        IMAX = ctx.M.IMAX

        def mk(what, s1=s1, ev=ev, R=R, base=base, stored=stored):
            r, prem, ni, si, val = base()
            t, ob, ex, nw, isn = stored(r, R, ni, si, val, s1, ev)
            act = L.is_ts(t, 'Active')
            anyfit = z3.Or(*[n + R.expires * NS <= IMAX for n in nw]) if nw else z3.BoolVal(True)
            if what == 'token':
                g = z3.Implies(anyfit, z3.And(act, L.ts_f(t, 'Active', 'access_token') == R.access, z3.Not(r.same)))
            elif what == 'times':
                g = z3.Implies(z3.And(act, anyfit), z3.Or(*[z3.And(ob == n, z3.Implies(n + R.expires * NS <= IMAX, ex == n + R.expires * NS)) for n in nw]) if nw else z3.BoolVal(False))
            elif what == 'fresh':
                g = z3.Implies(z3.And(act, z3.Not(r.same)), z3.And(z3.Not(L.ts_f(t, 'Active', 'ongoing_refresh')), L.ts_f(t, 'Active', 'consecutive_refresh_fails') == 0, isn(L.ts_f(t, 'Active', 'last_refresh_attempt'))))
            else:
                rt = L.ts_f(t, 'Active', 'refresh_token')
                if first:
                    g = z3.If(R.rt_str, z3.And(si(rt), val(rt) == R.rt), ni(rt))
                else:
                    g = z3.If(R.rt_present, z3.If(R.rt_str, z3.And(si(rt), val(rt) == R.rt), ni(rt)), rt == L.ts_f(r.ts0, 'Active', 'refresh_token'))
                g = z3.Implies(z3.And(act, z3.Not(r.same)), g)
            return r.st, z3.Implies(prem, g)
        for what, name in (('token', 'a good reply is stored'), ('times', 'obtained and expiry times follow the reply'), ('fresh', 'a new token starts with a clean record'), ('rt', 'the refresh token follows the reply')):
            out.append(Ob(f'{name} [{sname(run, s1)}]', lambda what=what, mk=mk: mk(what)))

        # nothing but a good reply may ever make a token Active with other credentials
        def mk2(s1=s1, R=R, base=base):
            r, prem, ni, si, val = base()
            keep = z3.And(L.is_ts(r.ts0, 'Active'), L.ts_f(r.ts0, 'Active', 'access_token') == L.ts_f(r.ts1, 'Active', 'access_token'),
                          L.ts_f(r.ts0, 'Active', 'refresh_token') == L.ts_f(r.ts1, 'Active', 'refresh_token'), L.ts_f(r.ts0, 'Active', 'access_token_expiry') == L.ts_f(r.ts1, 'Active', 'access_token_expiry'),
                          L.ts_f(r.ts0, 'Active', 'access_token_obtained') == L.ts_f(r.ts1, 'Active', 'access_token_obtained'))
            return r.st, z3.Or(r.same, z3.Not(L.is_ts(r.ts1, 'Active')), R.good, keep)
        out.append(Ob(f'only a good reply makes a token valid [{sname(run, s1)}]', mk2))
    return out


def cur_any(ctx, run, p, s1, r, ev):
    """the row is the version the request was made for: installed by this task, or -- for a code
    exchange -- the pending version that matched in the first section"""
    L, e = ctx.L, ctx.e
    if run.name.endswith('http_server::request'):
        x = exch_row(ctx, p, ev)
        if x is None:
            return z3.BoolVal(False)
        return L.el_id(x[1].arg(0)) == r.id0
    return current(ctx, run, s1, r)


def c11_fail(ctx, run):
    L, e = ctx.L, ctx.e
    out = []
    for x in outcome(ctx, run, 'any'):
        if isinstance(x, list):
            out += x
            continue
        p, ev, s1 = x
        R = Reply(ctx, ev)

        def mk(what, s1=s1, p=p, ev=ev, R=R):
            r = Row(ctx, s1.snap, s1.pre, s1.post)
            cur = z3.And(r.had, current(ctx, run, s1, r))
            t = r.ts1
            ln, ls, lv, lmk = opt(ctx, ts_ft(ctx, 'Active', 'last_refresh_attempt'))
            if what == 'perm':
                g = z3.Implies(R.perm, L.is_ts(t, 'Empty'))
            else:
                nw = nows(r.st, after=ev)
                f0, f1 = L.ts_f(r.ts0, 'Active', 'consecutive_refresh_fails'), L.ts_f(t, 'Active', 'consecutive_refresh_fails')
                lra = L.ts_f(t, 'Active', 'last_refresh_attempt')
                g = z3.And(L.is_ts(r.ts0, 'Active'), L.is_ts(t, 'Active'), same_fields(ctx, r.ts0, t, 'Active', ('last_refresh_attempt', 'consecutive_refresh_fails', 'ongoing_refresh')),
                           f1 == f0 + 1, z3.And(ls(lra), z3.Or(*[lv(lra) == n for n in nw]) if nw else z3.BoolVal(False)))
                g = z3.Implies(R.temp, g)
            return r.st, z3.Implies(cur, g)
        out.append(Ob(f'a permanent refresh error removes the token [{sname(run, s1)}]', lambda mk=mk: mk('perm')))
        out.append(Ob(f'a temporary refresh error keeps the token and is counted [{sname(run, s1)}]', lambda mk=mk: mk('temp')))
    # the command that decides whether an error still counts as temporary
    done = set()
    for p in run.paths:
        cs = evs(p.st, 'cmd')
        for ev in cs:
            if id(ev) in done:
                continue
            done.add(id(ev))
            out.append(Ob(f'transient_error_if_cmd runs after every sixth consecutive failure, for that account [{where(ev)}]', lambda p=p, ev=ev: cmd_pre(ctx, run, p, ev)))
            nxt = [s for s in p.secs if s.lock in after(p.st.tr, ev)]
    # after the command
    done = set()
    for p in run.paths:
        cs = evs(p.st, 'cmd')
        if not cs:
            continue
        nxt = [s for s in p.secs if s.lock in after(p.st.tr, cs[-1])]
        if not nxt:
            if isinstance(p.out, Ret):
                out.append(at_end(p, 'the verdict of transient_error_if_cmd is acted upon', False, cs[-1]))
            continue
        s2 = nxt[0]
        if id(s2) in done:
            continue
        done.add(id(s2))
        sc = [x for x in after(p.st.tr, cs[-1]) if x.k == 'status_checked' and x in before(p.st.tr, s2.lock)]

        def mk3(s2=s2, sc=sc):
            r = Row(ctx, s2.snap, s2.pre, s2.post)
            cur = z3.And(r.had, current(ctx, run, s2, r))
            kept = z3.And(L.is_ts(r.ts1, 'Active'), same_fields(ctx, r.ts0, r.ts1, 'Active', ('ongoing_refresh',)))
            if sc:
                ok = F('exit_success', sc[-1].status.t.sort(), B)(sc[-1].status.t)
                g = z3.If(ok, kept, L.is_ts(r.ts1, 'Empty'))
            else:
                g = L.is_ts(r.ts1, 'Empty')
            return r.st, z3.Implies(cur, g)
        out.append(Ob(f'the verdict of transient_error_if_cmd decides [{sname(run, s2)}]', mk3))
    # without the command the token is kept: no further section may remove it
    return out


def cmd_pre(ctx, run, p, ev):
    L, e, P = ctx.L, ctx.e, ctx.P
    sec = sec_of(p, ev)
    if sec is None:
        return p.st, False
    r = Row(ctx, p.st, sec.pre, sec.post)
    env = {rope(k).lit(): rope_term(v) for k, v in ev.env}
    args = [rope_term(x) for x in ev.args]
    conf = sec.post.f[L.fconfig]
    cmdv = conf_field(ctx, conf, 'transient_error_if_cmd')
    if len(args) != 2 or 'PIZAUTH_ACCOUNT' not in env or cmdv is None:
        return r.st, False
    isn, iss, val, mk = cmdv[1:]
    me = r.name == env['PIZAUTH_ACCOUNT']
    n = L.ts_f(r.ts1, 'Active', 'consecutive_refresh_fails')
    ch = z3.And(r.had, z3.Not(r.same))
    return r.st, z3.And(z3.Implies(ch, me), z3.Implies(z3.And(me, ch), z3.And(L.is_ts(r.ts1, 'Active'), n > 0, n % 6 == 0, iss(cmdv[0]), args[0] == lit('-c'), args[1] == val(cmdv[0]))))


def conf_field(ctx, conf, name):
    e, L, P = ctx.e, ctx.L, ctx.P
    for n, (fn, ft) in enumerate(P.variants(L.confty)[0][2]):
        if fn == name:
            t = e.to_term(e.field(conf, n), ft)
            return (t,) + opt(ctx, P.strip(ft))
    raise Unsupported('configuration field ' + name)


def c13_once(ctx, run):
    """at most one refresh of a token is in flight, and its mark is removed at the end"""
    L, e = ctx.L, ctx.e
    out = []
    done = set()
    for p, ev in posts(run):
        sec = sec_of(p, ev)
        if sec is None:
            out.append(at_end(p, 'a refresh starts from a known token', False, ev))
            continue

        def mk(p=p, sec=sec):
            r = Row(ctx, p.st, sec.pre, sec.post)
            mine = z3.And(r.had, z3.Or(*[r.id0 == a for a in arg_ids(ctx, run)]))
            return r.st, z3.Implies(mine, z3.And(L.is_ts(r.ts0, 'Active'), z3.Not(L.ts_f(r.ts0, 'Active', 'ongoing_refresh')), L.is_ts(r.ts1, 'Active'), L.ts_f(r.ts1, 'Active', 'ongoing_refresh')))
        out.append(Ob(f'a refresh is only started when none is in flight, and is marked [{where(ev)}]', mk))
        if len(evs(p.st, 'post')) > 1:
            out.append(at_end(p, 'one request per refresh', False, ev))
    for p in run.paths:
        if not isinstance(p.out, Ret) or not p.secs:
            continue
        s = p.secs[-1]
        if id(s) in done:
            continue
        done.add(id(s))

        def mk2(p=p, s=s):
            r = Row(ctx, p.st, s.pre, s.post)
            mine = z3.And(r.had, z3.Or(*installed(ctx, run, s, r), z3.BoolVal(False)))
            if rows_touched(L, s):
                mine = z3.Or(mine, z3.And(r.had, z3.Not(r.same)))
            return r.st, z3.Implies(mine, z3.Not(z3.And(L.is_ts(r.ts1, 'Active'), L.ts_f(r.ts1, 'Active', 'ongoing_refresh'))))
        out.append(Ob(f'no refresh stays marked once it has ended [{sname(run, s)}]', mk2))
    return out


def c13_others(ctx, run):
    """nothing else marks a token as being refreshed, or removes the mark from a version it did not create"""
    L = ctx.L
    out = quiet(ctx, run, 'refresh marks')
    for sec in changed(ctx, run):
        def mk(sec=sec):
            r = Row(ctx, sec.snap, sec.pre, sec.post)
            m1 = z3.And(L.is_ts(r.ts1, 'Active'), L.ts_f(r.ts1, 'Active', 'ongoing_refresh'))
            m0 = z3.And(L.is_ts(r.ts0, 'Active'), L.ts_f(r.ts0, 'Active', 'ongoing_refresh'))
            return r.st, z3.And(z3.Implies(m1, r.same), z3.Or(z3.Not(r.had), m0 == m1, r.id0 != r.id1))
        out.append(Ob(f'only a refresh marks a token as being refreshed [{sname(run, sec)}]', mk))
    return out


# ==== C17: token events =====================================================================
def events_of(p):
    """[(event, account name term, kind)] of the queued token events on a path"""
    out = []
    for ev in evs(p.st, 'enqueue'):
        out.append(ev)
    return out


def ev_parts(ctx, ev):
    e, P = ctx.e, ctx.P
    it = ev.item
    name = rope_term(e.field(it, 0))
    k = e.field(it, 1)
    if isinstance(k, Agg):
        return name, P.variants(P.strip(k.tid))[k.var][0]
    raise Unsupported('kind of a token event')


def c17_queue(ctx, run):
    L, e = ctx.L, ctx.e
    out = []
    revoke = run.name.endswith('server::request') and not run.name.endswith('http_server::request')
    rl = reloads(ctx, run)
    done = set()
    for p in run.paths:
        eq = evs(p.st, 'enqueue')
        for ev in eq:
            if id(ev) not in done:
                done.add(id(ev))
                secs = [s for s in p.secs if s.lock in before(p.st.tr, ev) and rows_touched(L, s) and s not in rl]
                out.append(Ob(f'a token event tells of a change that happened [{where(ev)}]', lambda p=p, ev=ev, secs=secs: ev_true(ctx, run, p, ev, secs)))
                tail = [x for x in after(p.st.tr, ev) if x.k in ('notify', 'unlock')]
                if isinstance(p.out, Ret):
                    wake = any(x.k == 'notify' and 'venter' in str(x.a['cv']) for x in tail) and any(x.k == 'unlock' and 'venter' in x.name and x.content is True for x in tail)
                    out.append(at_end(p, 'the event thread is told of a new event', wake, ev))
                out.append(at_end(p, 'events join the end of the queue', ev.back is True, ev))
        if not isinstance(p.out, Ret):
            continue
        for sec in p.secs:
            if not rows_touched(L, sec) or sec in rl or evs(p.st, 'deserialize'):
                continue        # restoring a dump tells of no event
            key = (id(sec), tuple(id(x) for x in eq))
            if key in done:
                continue
            done.add(key)
            later = [x for x in eq if x in after(p.st.tr, sec.unlock)] + [x for x in eq if x in between(p.st.tr, sec.lock, sec.unlock)]

            def mk(p=p, sec=sec, later=later):
                r = Row(ctx, p.st, sec.pre, sec.post)

                def told(*kinds):
                    return z3.Or(*[ev_parts(ctx, x)[0] == r.name for x in later if ev_parts(ctx, x)[1] in kinds], z3.BoolVal(False))
                a0, a1 = L.is_ts(r.ts0, 'Active'), L.is_ts(r.ts1, 'Active')
                gs = [z3.Implies(z3.And(a0, z3.Not(a1)), told('Revoked') if revoke else told('Invalidated')),
                      z3.Implies(z3.And(z3.Not(a0), a1), told('New')),
                      z3.Implies(z3.And(a0, a1, L.ts_f(r.ts0, 'Active', 'access_token_obtained') != L.ts_f(r.ts1, 'Active', 'access_token_obtained')), told('Refresh'))]
                x = inp(ctx, p)
                if revoke and x is not None:
                    gs.append(z3.Implies(x[1] == lit('revoke'), told('Revoked')))
                return r.st, z3.Implies(z3.And(r.had, z3.Not(r.same)), z3.And(*gs))
            out.append(Ob(f'a change of a token is told exactly once [{sname(run, sec)}]', mk))
            kinds = [x for x in later]
            if len(kinds) > 1:
                out.append(at_end(p, 'one event per change', len(kinds) <= len([s for s in p.secs if rows_touched(L, s)])))
    return out


def ev_true(ctx, run, p, ev, secs):
    L, e = ctx.L, ctx.e
    name, kind = ev_parts(ctx, ev)
    st = p.st
    alts = []
    for sec in secs:
        r = Row(ctx, st, sec.pre, sec.post)
        e.assume(r.st, r.name == name)
        st = r.st
        a0, a1 = L.is_ts(r.ts0, 'Active'), L.is_ts(r.ts1, 'Active')
        ch = z3.And(r.had, z3.Not(r.same))
        if kind == 'New':
            c = z3.And(z3.Not(a0), a1)
        elif kind == 'Refresh':
            c = z3.And(a0, a1)
        elif kind == 'Invalidated':
            c = z3.And(a0, z3.Not(a1))
        else:
            x = inp(ctx, p)
            c = z3.And(z3.Not(a1), x[1] == lit('revoke')) if x is not None else z3.BoolVal(False)
        alts.append(z3.And(ch, c))
    return st, z3.Or(*alts) if alts else z3.BoolVal(False)


WORDS = {'Invalidated': 'token_invalidated', 'New': 'token_new', 'Refresh': 'token_refreshed', 'Revoked': 'token_revoked'}


def c17_eventer(ctx, run):
    L, e, P = ctx.L, ctx.e, ctx.P
    out = []
    done = set()
    for p in run.paths:
        dq = [x for x in p.st.tr if x.k in ('dequeue', 'queue_empty')]
        for ev in p.st.tr:
            if id(ev) in done:
                continue
            if ev.k == 'dequeue':
                done.add(id(ev))
                out.append(at_end(p, 'events leave from the front of the queue', ev.front is True, ev))
            if ev.k == 'queue_clear':
                done.add(id(ev))
                out.append(at_end(p, 'no event is discarded wholesale', False, ev))
            if ev.k == 'cmd':
                done.add(id(ev))
                out.append(Ob(f'the command is told the account and the event [{where(ev)}]', lambda p=p, ev=ev: ev_cmd(ctx, p, ev)))
                pc = [x for x in before(p.st.tr, ev) if x.k in ('cmd', 'childwait', 'childkill')]
                out.append(at_end(p, 'one command at a time', not pc or pc[-1].k != 'cmd', ev))
                out.append(at_end(p, 'the command is not simply waited for for ever', ev.how == 'spawn', ev))
            if ev.k == 'loopexit':
                done.add(id(ev))
                b = [x for x in before(p.st.tr, ev) if x.k in ('dequeue', 'queue_empty')]
                if b:
                    out.append(at_end(p, 'the queue is emptied before waiting again', b[-1].k == 'queue_empty', ev))
        # an event taken from the queue is either given to the command or there is none to give it to
        cs = evs(p.st, 'cmd')
        if isinstance(p.out, (Ret, Stop)) and evs(p.st, 'dequeue') and not cs:
            sec = [s for s in p.secs]

            def mk(p=p, sec=sec):
                alts = []
                for s in sec:
                    cf = conf_field(ctx, s.post.f[L.fconfig], 'token_event_cmd')
                    alts.append(cf[1](cf[0]))
                sh = find_fn('env_ok')
                return p.st, z3.Or(*alts, noshell(ctx, p))
            out.append(Ob('every event is given to the command if there is one', mk))
        if cs and isinstance(p.out, (Ret, Stop)):
            tail = [x for x in after(p.st.tr, cs[-1]) if x.k in ('childwait', 'childkill')]
            wt = [x for x in tail if x.k == 'childwait' and x.a.get('dur') is not None]
            lim = z3.And(*[zint(x.dur) <= 60 * NS for x in wt]) if wt else z3.BoolVal(True)
            out.append(at_end(p, 'a command is given a bounded time', lim, cs[-1]))
    return out


def noshell(ctx, p):
    """the path is one on which no command could be run (no $SHELL)"""
    for c in p.st.pc:
        for t in subterms(c):
            if z3.is_app(t) and t.decl().name().startswith('env_set'):
                return z3.Not(t)
    return z3.BoolVal(False)


def subterms(t, cap=3000):
    todo, seen = [t], set()
    while todo and len(seen) < cap:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        todo += x.children()


def ev_cmd(ctx, p, ev):
    L, e, P = ctx.L, ctx.e, ctx.P
    d = [x for x in before(p.st.tr, ev) if x.k == 'dequeue']
    if not d:
        return p.st, False
    it = d[-1].item
    env = {rope(k).lit(): v for k, v in ev.env}
    args = [rope_term(x) for x in ev.args]
    if not {'PIZAUTH_ACCOUNT', 'PIZAUTH_EVENT'} <= set(env) or len(args) != 2:
        return p.st, False
    kt = e.field(it, 1)
    tid = P.strip(kt.tid)
    s, cs = P.dt(tid)
    word = rope_term(env['PIZAUTH_EVENT'])
    kx = e.to_term(kt, tid)
    g = [rope_term(env['PIZAUTH_ACCOUNT']) == rope_term(e.field(it, 0)), args[0] == lit('-c')]
    for n, v in enumerate(P.variants(tid)):
        g.append(z3.Implies(cs[n][1](kx), word == lit(WORDS[v[0]])))
    sec = [s for s in p.secs if s.lock in before(p.st.tr, ev)]
    if not sec:
        return p.st, False
    cf = conf_field(ctx, sec[-1].post.f[L.fconfig], 'token_event_cmd')
    g.append(z3.And(cf[2](cf[0]), args[1] == cf[3](cf[0])))
    return p.st, z3.And(*g)


# ==== C20: revoking ============================================================================
def c20_revoke(ctx, run):
    L, e = ctx.L, ctx.e
    out = []
    for p in run.paths:
        x = inp(ctx, p)
        if x is None or not isinstance(p.out, (Ret,)):
            continue
        rv = x[1] == lit('revoke')
        if e.solver.sat(p.st.pc + [rv], 4000) is False:
            continue
        ch = [s for s in p.secs if rows_touched(L, s)]
        ws = evs(p.st, 'write')

        def mk(p=p, x=x, rv=rv, ch=ch, ws=ws):
            if not p.secs:
                return p.st, z3.Not(z3.And(rv, z3.BoolVal(any((rope(w.data).lit() or '').startswith('ok:') for w in ws))))
            s = p.secs[-1]
            r = Row(ctx, p.st, s.pre, s.post)
            name = x[2]
            ok = any(rope(w.data).lit() == 'ok:' for w in ws)
            known = r.name == name
            g = z3.If(known, z3.And(L.is_ts(r.ts1, 'Empty'), r.id0 != r.id1, z3.BoolVal(ok)), r.same)
            return r.st, z3.Implies(rv, g)
        out.append(Ob(f'revoke removes the token of that account and of no other', mk))
        if p.secs:
            def mk2(p=p, x=x, rv=rv, ws=ws):
                s = p.secs[-1]
                st = p.st.copy()
                m = L.parts(s.pre)[1]
                e.add_term(st, ('key', m.dom.get_id()), x[2])
                bad = any((rope(w.data).p or [''])[0].startswith('error:') if isinstance((rope(w.data).p or [''])[0], str) else False for w in ws) and not any(rope(w.data).lit() == 'ok:' for w in ws)
                return st, z3.Implies(z3.And(rv, z3.Not(z3.Select(m.dom, x[2]))), z3.BoolVal(bad))
            out.append(Ob('revoking an unknown account is reported as an error', mk2))
    for sec in changed(ctx, run):
        if sec in reloads(ctx, run):
            continue
    return out


prop('C09', [(['ctl'], [c09_request, c09_reply]), (['http', 'https'], [c09_exchange])])
prop('C10', [(ALL, [c10_flow]), (['ctl'], [c10_shown]), (['refresh', 'http', 'https'], [c10_post])])
prop('C11', [(['refresh'], [c11_fail])])
prop('C12', [(['refresh', 'http', 'https'], [c12_store])])
prop('C13', [(['refresh'], [c13_once]), (['http', 'https', 'ctl', 'restore', 'notifier', 'fail', 'refresher'], [c13_others])])
prop('C17', [(['refresh', 'http', 'https', 'ctl', 'fail'], [c17_queue]), (['eventer'], [c17_eventer])])
prop('C20', [(['ctl'], [c20_revoke])])
prop('C18', [(ALL + ['helpers', 'parse'], [c18_panics])])
prop('C21', [(ALL, [c21_lock])])

"""Concrete histories run against the real program.  They never decide a property: they turn a failed
obligation into a failing run, and they are what is reported for code outside the model.

python3-vt mirvc/scenarios.py [name ...]"""
import email.utils
import json
import os
import re
import socket
import subprocess
import sys
import threading
import time
import traceback
import urllib.parse
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pz import *

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PIZ_REPO', '/repo')
SC = {}


def scenario(*pids, slow=False):
    def deco(f):
        SC[f.__name__] = (f, set(pids), slow)
        return f
    return deco


def binary():
    td = os.path.join(VERIF, '.cache', 'bin')
    env = dict(os.environ, CARGO_TARGET_DIR=td, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_PROFILE_DEV_DEBUG='0', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    r = subprocess.run(['cargo', 'build', '--offline', '--bin', 'pizauth'], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('cargo build: ' + r.stderr[-1500:])
    return os.path.join(td, 'debug', 'pizauth')


GLOB = 'https_listen = none;\n'
ACTIVE = re.compile(r'^Active access token')


def srv(b, ep, conf, env=None):
    return Pizauth(b, conf, env)


def at(r):
    return r[len('access_token:'):] if r.startswith('access_token:') else None


def no_secret(txt, *secrets):
    for s in secrets:
        check(s not in txt, f'the credential {s!r} appears in {txt[:200]!r}')


# ---- authentication -------------------------------------------------------------------------
@scenario('C09', 'C10', 'C12', 'C08', 'C07', 'C17', 'C18')
def authentication(b):
    ep = Endpoint()
    ep.reply = lambda f, p: (200, token('AT-' + f.get('code', '?'), 3600, 'RT1'))
    with Pizauth(b, GLOB + Pizauth.EVCMD + account('a', ep, client_secret='"sec"', auth_uri_fields='{"x": "1", "y": "2", "x": "3"}') + account('b', ep)) as z:
        url, q = z.begin('a')
        check(url.startswith('http://127.0.0.1:9/auth?'), f'authentication URL {url!r}')
        check(q.get('client_id') == ['cid'] and q.get('response_type') == ['code'] and q.get('scope') == ['s1 s2'], f'parameters {q}')
        check(q.get('x') == ['1', '3'] and q.get('y') == ['2'], f'extra fields {q}')
        ps = urllib.parse.parse_qsl(urllib.parse.urlparse(url).query)
        check(ps[-3:] == [('x', '1'), ('y', '2'), ('x', '3')], f'order of extra fields {ps}')
        check(q.get('code_challenge_method') == ['S256'], f'parameters {q}')
        red = q['redirect_uri'][0]
        check(red == f'http://localhost:{z.http}/', f'redirect URI {red!r}')
        check(z.show('a') == 'pending:' + url, 'the URL changes between requests')
        check(z.req('showtoken:withouturl a') == 'pending:', 'URL although not asked for')
        check(z.show('b').startswith('pending:'), 'second account')
        z.callback(q['state'][0], 'c0de')
        check(wait_for(lambda: at(z.show('a')) == 'AT-c0de'), f'token not stored: {z.show("a")}')
        t, p, f = ep.posts[0]
        check(len(ep.posts) == 1 and p == '/token', f'posts {ep.posts}')
        check(challenge(f.get('code_verifier', '')) == q['code_challenge'][0], 'code verifier does not match the challenge')
        check({k: v for k, v in f.items() if k != 'code_verifier'} == {'code': 'c0de', 'client_id': 'cid', 'redirect_uri': red, 'grant_type': 'authorization_code', 'client_secret': 'sec'}, f'form {f}')
        check(wait_for(lambda: z.events() == [('token_new', 'a')]), f'events {z.events()}')
        check(z.show('b').startswith('pending:'), 'the other account changed')
        u2, q2 = z.begin('b')
        check(q2['state'] != q['state'] and q2['code_challenge'] != q['code_challenge'], 'state or verifier reused')
        z.callback(q2['state'][0], 'c1')
        check(wait_for(lambda: at(z.show('b')) == 'AT-c1'), 'second account not authenticated')
        check('client_secret' not in ep.posts[1][2], 'client secret of another account sent')
        no_secret(z.req('status:') + z.req('info:') + open(z.log).read() + z.file('events'), 'RT1', 'AT-c0de', f['code_verifier'])
        check(z.alive(), z.panics())
    ep.close()


@scenario('C08', 'C07', 'C18')
def callback_gate(b):
    ep = Endpoint()
    with Pizauth(b, GLOB + account('a', ep) + account('b', ep, redirect_uri='"http://other.example/"') + account('c', ep)) as z:
        qa, qb, qc = z.begin('a')[1], z.begin('b')[1], z.begin('c')[1]
        sa, sb = qa['state'][0], qb['state'][0]
        for kw in ({'state': 'wrong'}, {'state': ''}, {'state': None}, {'state': sa + 'x'}, {'state': sa[:-1]}, {'state': sa.swapcase()},
                   {'state': sa, 'header_host': 'evil.example'}, {'state': sa, 'header_host': f'localhost:{z.http + 1}'}, {'state': sa, 'header_host': f'other.example:{z.http}'},
                   {'state': sb, 'header_host': f'localhost:{z.http}'}, {'state': sa, 'code': None},
                   {'state': sb, 'code': None, 'extra': 'error=x'}, {'state': 'wrong', 'code': None, 'extra': 'error=x'},
                   {'state': sa, 'code': None, 'extra': 'error=x', 'header_host': f'other.example:{z.http}'}):
            z.callback(**kw)
            time.sleep(0.05)
            for n, q in (('a', qa), ('b', qb), ('c', qc)):
                r = z.show(n)
                check(r.startswith('pending:') and Pizauth.params(r[8:])[1]['state'] == q['state'], f'{kw} changed account {n}: {r[:200]}')
        check(not ep.posts, f'a code was exchanged: {ep.posts}')
        z.callback(sb, header_host=f'other.example:{z.http}')
        check(wait_for(lambda: at(z.show('b')) == 'at'), 'the genuine callback does not work')
        z.callback(sa, code=None, extra='error=denied')
        check(wait_for(lambda: z.status()['a'] == 'No access token'), 'a refused authentication is not cleared')
        check(z.show('c') and Pizauth.params(z.show('c')[8:])[1]['state'] == qc['state'], 'another account changed')
        z.callback(sb, header_host=f'other.example:{z.http}')
        time.sleep(0.2)
        check(len(ep.posts) == 1, 'a used state value was accepted again')
        check(z.alive(), z.panics())
    ep.close()


@scenario('C07', 'C01', 'C20', 'C03', 'C02')
def callback_race(b):
    for what in ('revoke', 'again', 'reload', 'ok'):
        for reply in ((200, token('LATE', 3600, 'r')), (400, '{"error": "x"}'), (200, 'nonsense'), (200, '{"error": "no"}'), (200, '{}')):
            ep = Endpoint()
            go, at_ = threading.Event(), threading.Event()

            def rep(f, p):
                if f.get('code') == 'slow':
                    at_.set()
                    go.wait(20)
                    return reply
                return (200, token('NEW', 3600, 'r2'))
            ep.reply = rep
            conf = GLOB + account('x', ep) + account('a', ep) + account('z', ep)
            with Pizauth(b, conf) as z:
                z.login('z')
                u, q = z.begin('a')
                z.callback(q['state'][0], 'slow')
                check(at_.wait(10), 'no code exchange')
                if what == 'revoke':
                    check(z.req('revoke:a') == 'ok:', 'revoke')
                elif what == 'again':
                    check(z.req('revoke:a') == 'ok:', 'revoke')
                    z.login('a')
                elif what == 'reload':
                    check(z.reload(conf.replace('account "a" {', 'account "a" {\n client_secret = "q";')) == 'ok:', 'reload')
                else:
                    check(z.reload(conf + account('zz', ep)) == 'ok:', 'reload')
                go.set()
                time.sleep(0.3)
                st = z.status()
                if what in ('revoke', 'reload'):
                    check(st['a'] == 'No access token', f'superseded authentication took effect ({what}, {reply}): {st}')
                elif what == 'again':
                    check(at(z.show('a')) == 'NEW', f'superseded authentication took effect ({reply}): {z.show("a")}')
                elif reply[1].startswith('{"access'):
                    check(at(z.show('a')) == 'LATE', f'reload lost an authentication under way: {st}')
                else:
                    check(st['a'] == 'No access token', f'a failed exchange leaves {st}')
                check(at(z.show('z')) == 'NEW' and st['x'] == 'No access token', f'another account changed: {st}')
                check(z.alive(), z.panics())
            ep.close()


# ---- refresh --------------------------------------------------------------------------------
@scenario('C12', 'C10', 'C17', 'C06', 'C13')
def refresh_replies(b):
    ep = Endpoint()
    nxt = [None]
    ep.reply = lambda f, p: (200, token('AT0', 3600, 'RT0')) if f['grant_type'] == 'authorization_code' else nxt[0]
    with Pizauth(b, GLOB + 'refresh_before_expiry = 1s;\n' + Pizauth.EVCMD + account('a', ep, client_secret='"S"') + account('b', ep)) as z:
        z.login('a')
        z.login('b')
        for k, (body, rt) in enumerate(((token('AT1', 3600), 'RT0'), (token('AT2', 7200, 'RT2'), 'RT2'), (token('AT3', 3600, 'RT3'), 'RT3'), (token('AT4', 40), 'RT3'), (token('AT5', 61), 'RT3'), (token('AT6', 10**6), 'RT3'),
                                         (token('AT7', 3600), 'RT3'))):
            nxt[0] = (200, body)
            n = len(ep.posts)
            check(z.req('refresh:withurl a') == 'scheduled:', 'refresh')
            check(wait_for(lambda: at(z.show('a')) == f'AT{k + 1}'), f'refreshed token not stored: {z.show("a")}')
            f = ep.posts[-1][2]
            check(len(ep.posts) == n + 1 and f.get('refresh_token') == ['RT0', 'RT0', 'RT2', 'RT3', 'RT3', 'RT3', 'RT3'][k] and f.get('client_secret') == 'S' and f.get('client_id') == 'cid' and len(f) == 4, f'form {f}')
        check(at(z.show('b')) == 'AT0', 'another account changed')
        check(wait_for(lambda: z.events() == [('token_new', 'a'), ('token_new', 'b')] + [('token_refreshed', 'a')] * 7), f'events {z.events()}')
        m = re.search(r'expires (.*)\)', z.status()['a'])
        import email.utils
        left = email.utils.parsedate_to_datetime(m.group(1)).timestamp() - time.time()
        check(3500 < left <= 3605, f'expiry is in {left} s')
        check(z.alive(), z.panics())
    ep.close()


PERM = [(400, '{"error": "invalid_grant"}'), (401, ''), (200, 'nonsense'), (200, ''), (200, '{"error": "e"}'), (200, '{}'), (200, '[]'),
        (200, token('X', 3600, 'r', token_type='mac')), (200, json.dumps({'access_token': 'X', 'token_type': 'Bearer'})),
        (200, json.dumps({'expires_in': 3600, 'token_type': 'Bearer'})), (200, json.dumps({'access_token': 'X', 'expires_in': '3600', 'token_type': 'Bearer'})),
        (200, token('X', 3600, 'r', error='bad'))]


@scenario('C11', 'C12', 'C17', 'C13', 'C18')
def refresh_permanent(b):
    for body in PERM:
        ep = Endpoint()
        ep.reply = lambda f, p: (200, token('AT0', 3600, 'RT0')) if f['grant_type'] == 'authorization_code' else body
        with Pizauth(b, GLOB + Pizauth.EVCMD + account('a', ep) + account('b', ep)) as z:
            z.login('a')
            z.login('b')
            z.req('refresh:withurl a')
            check(wait_for(lambda: z.status()['a'] == 'No access token', 3), f'{body}: {z.status()}')
            check(at(z.show('b')) == 'AT0', 'another account changed')
            check(wait_for(lambda: z.events()[2:] == [('token_invalidated', 'a')], 3), f'{body}: events {z.events()}')
            check(z.alive(), z.panics())
        ep.close()


@scenario('C11', 'C12', 'C13', 'C17')
def refresh_temporary(b):
    for bad in ('reset', 'short'):
        ep = Endpoint()
        nxt = [bad]
        ep.reply = lambda f, p: (200, token('AT0', 3600, 'RT0')) if f['grant_type'] == 'authorization_code' else nxt[0]
        with Pizauth(b, GLOB + Pizauth.EVCMD + 'transient_error_if_cmd = "echo $PIZAUTH_ACCOUNT >> @D@/cmd; test ! -e @D@/bad";\nrefresh_retry = 1h;\n' + account('a', ep) + account('b', ep)) as z:
            z.login('a')
            z.login('b')
            for k in range(1, 13):
                n = len(ep.posts)
                if k == 12:
                    open(z.dir + '/bad', 'w').close()
                check(z.req('refresh:withurl a') == 'scheduled:', 'refresh')
                check(wait_for(lambda: len(ep.posts) == n + 1, 3), f'refresh {k} is not tried ({bad})')
                time.sleep(0.25)
                cmd = z.file('cmd').split()
                if k < 12:
                    check(at(z.show('a')) == 'AT0', f'a temporary error ({bad}) lost the token after {k}: {z.status()}')
                    check(cmd == ['a'] * (k // 6), f'after {k} failures the command was run for {cmd}')
            check(wait_for(lambda: z.status()['a'] == 'No access token', 3), f'failing transient_error_if_cmd: {z.status()}')
            check(wait_for(lambda: z.events()[2:] == [('token_invalidated', 'a')], 3), f'events {z.events()}')
            check(at(z.show('b')) == 'AT0', 'another account changed')
            check(z.alive(), z.panics())
        ep.close()


@scenario('C11', 'C13')
def refresh_recovers(b):
    ep = Endpoint()
    nxt = ['reset']
    ep.reply = lambda f, p: (200, token('AT0', 3600, 'RT0')) if f['grant_type'] == 'authorization_code' else nxt[0]
    with Pizauth(b, GLOB + 'transient_error_if_cmd = "echo x >> @D@/cmd; exit 1";\nrefresh_retry = 1h;\n' + account('a', ep)) as z:
        z.login('a')

        def go(want):
            n = len(ep.posts)
            z.req('refresh:withurl a')
            check(wait_for(lambda: len(ep.posts) == n + 1, 3), 'refresh is not tried')
            time.sleep(0.2)
        for _ in range(5):
            go('reset')
        nxt[0] = (200, token('AT1', 3600, 'RT0'))
        go('ok')
        check(wait_for(lambda: at(z.show('a')) == 'AT1', 3), 'not refreshed')
        nxt[0] = 'reset'
        for _ in range(5):
            go('reset')
            check(at(z.show('a')) == 'AT1' and z.file('cmd') == '', 'failures before a success were counted')
        go('reset')
        check(wait_for(lambda: z.status()['a'] == 'No access token', 3), 'sixth failure')
    ep.close()


@scenario('C06', 'C01', 'C13', 'C20', 'C02', 'C03', 'C17')
def refresh_race(b):
    for what in ('revoke', 'again', 'reload', 'keep'):
        for reply in ((200, token('LATE', 3600, 'r')), (400, '{"error": "x"}'), 'reset', (200, 'nonsense'), (200, '{"error": "no"}'), 'short'):
            ep = Endpoint()
            go, at_ = threading.Event(), threading.Event()

            def rep(f, p):
                if f['grant_type'] == 'refresh_token':
                    at_.set()
                    go.wait(20)
                    return reply
                return (200, token('AT-' + f['code'], 3600, 'r2'))
            ep.reply = rep
            conf = GLOB + Pizauth.EVCMD + 'refresh_retry = 1h;\n' + account('a', ep) + account('z', ep)
            with Pizauth(b, conf) as z:
                z.login('z')
                z.login('a', 'one')
                z.req('refresh:withurl a')
                check(at_.wait(10), 'no refresh')
                if what in ('revoke', 'again'):
                    check(z.req('revoke:a') == 'ok:', 'revoke')
                    if what == 'again':
                        z.login('a', 'two')
                elif what == 'reload':
                    check(z.reload(conf.replace('account "a" {', 'account "a" {\n client_secret = "q";')) == 'ok:', 'reload')
                else:
                    check(z.reload(account('y', ep) + conf) == 'ok:', 'reload')
                n = len(z.events())
                go.set()
                time.sleep(0.35)
                st = z.status()
                if what in ('revoke', 'reload'):
                    check(st['a'] == 'No access token', f'a superseded refresh took effect ({what}, {reply}): {st}')
                elif what == 'again':
                    check(at(z.show('a')) == 'AT-two', f'a superseded refresh took effect ({reply}): {st}')
                if what != 'keep':
                    check(all(e[0] not in ('token_refreshed', 'token_invalidated') for e in z.events()), f'events of a superseded refresh: {z.events()} ({what}, {reply})')
                elif isinstance(reply, tuple) and reply[0] == 200 and reply[1].startswith('{"access'):
                    check(at(z.show('a')) == 'LATE', f'refresh lost by a reload: {st}')
                elif isinstance(reply, tuple):
                    check(st['a'] == 'No access token', f'{reply}: {st}')
                else:
                    check(at(z.show('a')) == 'AT-one', f'{reply}: {st}')
                check(at(z.show('z')) == 'AT-code1', f'another account changed: {st}')
                check(z.alive(), z.panics())
            ep.close()


@scenario('C13')
def refresh_once(b):
    ep = Endpoint()
    go = threading.Event()

    def rep(f, p):
        if f['grant_type'] == 'refresh_token':
            go.wait(20)
            return (200, token('AT1', 3600, 'r2'))
        return (200, token('AT0', 3600, 'r2'))
    ep.reply = rep
    with Pizauth(b, GLOB + account('a', ep)) as z:
        z.login('a')
        for _ in range(6):
            check(z.req('refresh:withurl a') == 'scheduled:', 'refresh')
        time.sleep(0.4)
        check(len(ep.posts) == 2, f'{len(ep.posts) - 1} refreshes at once')
        go.set()
        check(wait_for(lambda: at(z.show('a')) == 'AT1', 3), 'not refreshed')
        time.sleep(0.2)
        check(len(ep.posts) == 2, 'refreshed again')
        z.req('refresh:withurl a')
        check(wait_for(lambda: len(ep.posts) == 3, 3), 'no refresh is possible any more')
    ep.close()


# ---- reload -----------------------------------------------------------------------------------
FIELDS = {'auth_uri': '"http://127.0.0.1:9/other"', 'token_uri': '"http://127.0.0.1:9/other"', 'client_id': '"other"', 'client_secret': '"other"', 'redirect_uri': '"http://other/"',
          'scopes': '["s1"]', 'auth_uri_fields': '{"k": "other"}'}
KEEP = {'refresh_at_least': '17m', 'refresh_before_expiry': '17s', 'refresh_retry': '17s'}


@scenario('C02', 'C03', 'C01')
def reload_settings(b):
    ep = Endpoint()
    base = dict(client_secret='"cs"', auth_uri_fields='{"k": "v"}', redirect_uri='"http://localhost/"')
    names = 'fbadce'
    conf = GLOB + ''.join(account(n, ep, **base) for n in names)
    with Pizauth(b, conf) as z:
        def prepare():
            for n in names[:5]:
                if not z.show(n).startswith('access_token:'):
                    z.login(n)
            z.begin('e')
            return {n: z.show(n) for n in names}
        for fld, v in list(FIELDS.items()) + [('client_secret', None), ('auth_uri_fields', None), ('scopes', '["s2", "s1"]'), ('auth_uri_fields', '{"k": "v", "k2": "v"}')]:
            for victim in ('a', 'e'):
                old = prepare()
                d = dict(base)
                d[fld] = v
                order = sorted(names) if victim == 'a' else names
                check(z.reload(GLOB + account('a0', ep) + ''.join(account(n, ep, **(d if n == victim else base)) for n in order)) == 'ok:', 'reload')
                st = z.status()
                check(set(st) == set(names) | {'a0'}, f'accounts after a reload: {st}')
                check(st[victim] == 'No access token', f'{fld} of {victim} changed but: {st[victim]}')
                check(st['a0'] == 'No access token', f'new account: {st["a0"]}')
                for n in names:
                    if n != victim:
                        check(z.show(n) == old[n], f'unchanged account {n} was {old[n]}, now {z.show(n)}')
                check(z.reload(conf) == 'ok:', 'reload')
                check(z.status()[victim] == 'No access token', f'{fld} of {victim} changed back but the token returned')
        old = prepare()
        for k, v in KEEP.items():
            check(z.reload(GLOB + 'auth_notify_interval = 17m;\n' + ''.join(account(n, ep, **dict(base, **{k: v})) for n in reversed(names))) == 'ok:', 'reload')
            check({n: z.show(n) for n in names} == old, f'{k} changed and states were lost')
        for bad in ('nonsense', '', conf + account('a', ep, token_uri=None), conf + 'http_listen = none;'):
            check(z.reload(bad).startswith('error:'), f'bad configuration {bad[-60:]!r} accepted')
            check({n: z.show(n) for n in names} == old, 'a rejected reload changed states')
        check(z.reload(GLOB + account('c', ep, **base)) == 'ok:', 'reload')
        check(set(z.status()) == {'c'} and z.show('c') == old['c'], f'{z.status()}')
        check(z.reload(conf) == 'ok:', 'reload')
        st = z.status()
        check(all(st[n] == 'No access token' for n in names if n != 'c') and z.show('c') == old['c'], f'removed accounts kept their tokens: {st}')
        check(z.alive(), z.panics())
    ep.close()


PAIRS = {'auth_uri': ['"http://127.0.0.1:9/auth"', '"http://127.0.0.1:9/auth/"', '"http://127.0.0.1:9/auth?p=q"', '"http://127.0.0.1:9/Auth"'],
         'client_id': ['"c"', '"C"', '"cc"', '"c "'], 'client_secret': [None, '""', '"s"', '"S"', '"ss"'],
         'redirect_uri': ['"http://localhost/"', '"http://127.0.0.1/"', '"http://localhost/x"', '"http://localhost/?q=1"'],
         'scopes': [None, '["s1"]', '["s1", "s2"]', '["s2", "s1"]', '["s1 s2"]', '["s2"]', '["s1", "s2", "s3"]'],
         'auth_uri_fields': [None, '{"k": "v"}', '{"k": "v2"}', '{"k2": "v"}', '{"k": "v", "k2": "v2"}', '{"k": "v", "k": "v2"}']}


@scenario('C02', 'C03', 'C04', 'C05')
def settings_pairs(b):
    """every pair of values of every security relevant setting, by reload and by dump and restore"""
    ep = Endpoint()
    tok = [ep.url('/token'), ep.url('/token2'), ep.url('/token') + '?x=y']
    ps = []
    for k, vs in dict(PAIRS, token_uri=[f'"{t}"' for t in tok]).items():
        ps += [(k, x, y) for x in vs for y in vs]
    ep.reply = lambda f, p: (200, token('AT' + f['code'], 3600, 'RT'))

    def conf(side):
        out = GLOB
        for i, (k, x, y) in enumerate(ps):
            d = dict(client_secret='"base"', redirect_uri='"http://localhost/b"')
            d[k] = (x, y)[side]
            out += account(f'n{i}', ep, **d)
        return out

    def login(z):
        us = [z.show(f'n{i}')[8:] for i in range(len(ps))]
        for i, u in enumerate(us):
            u, q = z.params(u)
            r = urllib.parse.urlparse(q['redirect_uri'][0])
            z.ready(f'n{i}')
            z.callback(q['state'][0], str(i), header_host=r.netloc, path=r.path)

    def expect(z, what, keep):
        st = z.status()
        for i, (k, x, y) in enumerate(ps):
            s = st[f'n{i}']
            if keep(x, y):
                check(at(z.show(f'n{i}')) == f'AT{i}', f'{what} with {k} = {x} then {y}: {s!r}, expected the token')
            else:
                check(s == 'No access token', f'{what} with {k} = {x} then {y}: {s!r}')
    every = lambda x, y: True
    same = lambda x, y: x == y
    with Pizauth(b, conf(0)) as z:
        login(z)
        wait_for(lambda: all(v.startswith('Active') for v in z.status().values()), 10)
        expect(z, 'login', every)
        d = z.raw('dump:')
        check(z.reload(conf(1)) == 'ok:', 'reload')
        expect(z, 'reload', same)
        check(z.raw(b'restore:' + d) == b'ok:', 'restore')
        expect(z, 'reload and restore', same)
        check(z.reload(conf(0)) == 'ok:', 'reload')
        expect(z, 'reload twice', same)
        check(z.raw(b'restore:' + d) == b'ok:', 'restore')
        expect(z, 'restore', every)
        check(z.alive(), z.panics())
    ep.close()


@scenario('C21')
def slow_command(b):
    """transient_error_if_cmd runs for a long time: the rest of the server still runs"""
    ep = Endpoint()
    ep.reply = lambda f, p: (200, token('AT', 3600, 'r')) if 'code' in f else 'reset'
    with Pizauth(b, GLOB + 'refresh_retry = 1h;\ntransient_error_if_cmd = "touch @D@/runs; sleep 6";\n' + account('a', ep) + account('b', ep)) as z:
        z.login('a')
        z.begin('b')
        for k in range(2, 60):
            z.req('refresh:withurl a', timeout=4)
            wait_for(lambda: len(ep.posts) >= k, 1)
            if os.path.exists(z.dir + '/runs') or len(ep.posts) > 8:
                break
            time.sleep(.1)
        if wait_for(lambda: os.path.exists(z.dir + '/runs'), 3):
            for r in ('showtoken:withouturl b', 'status:', 'showtoken:withouturl a', 'refresh:withurl b'):
                t = time.time()
                try:
                    z.req(r, timeout=4)
                except OSError:
                    raise Fail(f'{r!r} is not answered while transient_error_if_cmd runs')
                check(time.time() - t < 3, f'{r!r} is blocked by transient_error_if_cmd')
        check(z.alive(), z.panics())
    ep.close()


@scenario('C18', 'C14', 'C15', 'C16', 'C22')
def long_settings(b):
    """settings and lifetimes far outside the ordinary"""
    def one(k, v):
        ep = Endpoint()
        ep.reply = lambda f, p: (200, token('AT' + f['code'], int(f['code']), 'r')) if 'code' in f else 'reset'
        with Pizauth(b, GLOB + account('a', ep)) as z:
            if z.reload(GLOB + f'{k} = {v};\n' + account('a', ep)) != 'ok:':
                ep.close()
                return
            check(z.alive(), f'{k} = {v}: {z.panics()}')
            for n in (1, 5, 100, 3600, 10**6, 10**9, 4 * 10**9):
                u, q = z.begin('a')
                z.callback(q['state'][0], str(n))
                if n > 1:
                    check(wait_for(lambda: at(z.show('a')) == f'AT{n}', 3), f'{k} = {v}, expires_in {n}: {z.show("a")} {z.panics()}')
                time.sleep(.1 if n > 1 else 1.2)
                check(z.alive(), f'{k} = {v}, expires_in {n}: {z.panics()}')
                z.req('refresh:withurl a')
                time.sleep(.1)
                check(z.alive(), f'{k} = {v}, expires_in {n}: {z.panics()}')
                z.req('revoke:a')
        ep.close()
    cases = [(k, v) for k in ('refresh_before_expiry', 'refresh_at_least', 'refresh_retry', 'auth_notify_interval')
             for v in ('1s', '365d', '21000d', '3500000d', '105000000d', '106751991167300d', '18446744073709551615s', '213503982334601d')]
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(one, *c) for c in cases]:
            f.result()


# ---- dump / restore ------------------------------------------------------------------------------
@scenario('C04', 'C05', 'C10', 'C01', 'C18')
def dump_restore(b):
    ep = Endpoint()
    ep.reply = lambda f, p: (200, token('AT-' + f.get('code', 'r'), 5000 if f.get('code') == 'cb' else 3000, 'RT-' + f.get('code', 'r')))
    base = dict(client_secret='"cs"', auth_uri_fields='{"k": "v"}', redirect_uri='"http://localhost/"')
    names = 'fbadce'
    conf = GLOB + ''.join(account(n, ep, **base) for n in names)
    import email.utils

    def exp(z, n):
        m = re.search(r'obtained (.*); expires (.*)\)', z.status()[n])
        return [email.utils.parsedate_to_datetime(m.group(i)).timestamp() for i in (1, 2)]
    with Pizauth(b, conf) as z:
        for n in 'fbad':
            z.login(n, 'c' + n)
        z.begin('c')
        before = z.status()
        ex = {n: exp(z, n) for n in 'fbad'}
        d = z.raw('dump:')
        check(z.status() == before, 'dumping changed the state')
        no_secret(d.decode('latin1'), 'AT-', 'RT-', 'cid', 'account', '"cs"')
        d2 = z.raw('dump:')
        check(d[:12] != d2[:12], 'the same nonce is used twice')
        check(at(z.show('a')) == 'AT-ca', 'show')
    with Pizauth(b, conf) as z:
        for bad in (b'', d[:-1], d + b'x', d[1:], b'x' * 5, d[:12], bytes([d[0] ^ 1]) + d[1:], d[:40] + bytes([d[40] ^ 1]) + d[41:]):
            check(z.raw(b'restore:' + bad).startswith(b'error:'), 'a damaged dump is accepted')
            check(set(z.status().values()) == {'No access token'}, f'a damaged dump changed the state: {z.status()}')
        z.login('d', 'mine')
        z.begin('b')
        check(z.raw(b'restore:' + d) == b'ok:', 'restore')
        check(at(z.show('d')) == 'AT-mine', f'an active token was overwritten: {z.show("d")}')
        for n in 'fba':
            check(at(z.show(n)) == 'AT-c' + n, f'{n} restored as {z.show(n)}')
            check(all(abs(x - y) <= 3 for x, y in zip(exp(z, n), ex[n])), f'times of {n}: {exp(z, n)}, dumped {ex[n]}')
        st = z.status()
        check(st['c'] == 'No access token' and st['e'] == 'No access token', f'{st}')
        n0 = len(ep.posts)
        z.req('refresh:withurl a')
        check(wait_for(lambda: len(ep.posts) == n0 + 1, 3) and ep.posts[-1][2].get('refresh_token') == 'RT-ca', 'refresh token not restored')
        check(z.alive(), z.panics())
    for fld, v in list(FIELDS.items()) + [('client_secret', None), ('auth_uri_fields', None), ('scopes', '["s2", "s1"]'), ('auth_uri_fields', '{"k": "v", "k2": "v"}')]:
        dd = dict(base)
        dd[fld] = v
        with Pizauth(b, GLOB + account('new', ep) + ''.join(account(n, ep, **(dd if n == 'a' else base)) for n in sorted(names) if n != 'f')) as z:
            check(z.raw(b'restore:' + d) == b'ok:', 'restore')
            st = z.status()
            check(st['a'] == 'No access token', f'restored although {fld} differs: {st}')
            check(at(z.show('b')) == 'AT-cb' and at(z.show('d')) == 'AT-cd' and st['new'] == 'No access token' and 'f' not in st, f'{st}')
    ep.close()


@scenario('C05', 'C04', 'C17')
def dump_in_progress(b):
    """dumps made while tokens are being refreshed, after failed refreshes and once they expired"""
    ep = Endpoint()
    gate = threading.Event()

    def reply(f, p):
        if f['grant_type'] == 'authorization_code':
            c = f['code']
            return 200, token('AT' + c, 2 if c == 'x' else 3000, None if c == 'n' else 'RT' + c)
        if f['refresh_token'] == 'RTt':
            return 'reset'
        gate.wait(20)
        return 200, token('new' + f['refresh_token'], 3000)
    ep.reply = reply
    conf = GLOB + 'refresh_retry = 1h;\nrefresh_before_expiry = 0s;\n' + ''.join(account(n, ep) for n in 'abntx')
    try:
        with Pizauth(b, conf) as z:
            for n in 'abntx':
                z.login(n, n)
            n0 = len(ep.posts)
            for n in 'at':
                z.req('refresh:withurl ' + n)
            check(wait_for(lambda: len(ep.posts) >= n0 + 2, 5), 'the refreshes do not start')
            time.sleep(.2)
            d = z.raw('dump:')
            want = {n: at(z.show(n)) for n in 'abnt'}
            time.sleep(2)
            d2 = z.raw('dump:')
            gate.set()
            check(wait_for(lambda: at(z.show('a')) == 'newRTa', 5), f'the refresh does not end: {z.show("a")}')
            d3 = z.raw('dump:')
            # what is restored into the server that made the dump never replaces an active token
            check(z.raw(b'restore:' + d) == b'ok:', 'restore')
            check(at(z.show('a')) == 'newRTa', f'a newer token was overwritten: {z.show("a")}')
            check(z.alive(), z.panics())
        gate.set()
        for what, dd, w in (('during a refresh', d, want), ('later', d2, want), ('after it', d3, dict(want, a='newRTa'))):
            with Pizauth(b, conf) as z:
                check(z.raw(b'restore:' + dd) == b'ok:', 'restore')
                for n, x in w.items():
                    check(x is not None and at(z.show(n)) == x, f'dump {what}: {n} restored as {z.show(n)}, was {x}')
                # (a restored token can be refreshed)
                m = len(ep.posts)
                z.req('refresh:withurl b')
                check(wait_for(lambda: len(ep.posts) > m and ep.posts[-1][2].get('refresh_token') == 'RTb', 4), f'dump {what}: b cannot be refreshed')
                m = len(ep.posts)
                z.req('refresh:withurl a')
                check(wait_for(lambda: len(ep.posts) > m and ep.posts[-1][2].get('refresh_token') == 'RTa', 4), f'dump {what}: a cannot be refreshed')
                check(z.alive(), z.panics())
    finally:
        gate.set()
        ep.close()


# ---- revoke, status, robustness ------------------------------------------------------------------------
@scenario('C20', 'C17', 'C01')
def revoke(b):
    ep = Endpoint()
    with Pizauth(b, GLOB + Pizauth.EVCMD + ''.join(account(n, ep) for n in ('c', 'a', 'b', 'ab'))) as z:
        z.login('a')
        z.login('ab')
        u, q = z.begin('b')
        check(z.req('revoke:a') == 'ok:', 'revoke')
        st = z.status()
        check(st['a'] == 'No access token' and ACTIVE.match(st['ab']) and 'pending' in st['b'], f'{st}')
        check(z.req('revoke:b') == 'ok:', 'revoke')
        check(z.status()['b'] == 'No access token', 'pending authentication not revoked')
        z.callback(q['state'][0])
        time.sleep(0.2)
        check(z.status()['b'] == 'No access token', 'a revoked authentication went on')
        for n in ('', 'x', 'A', 'a ', ' a', 'aa'):
            r = z.req(f'revoke:{n}')
            check(r.startswith('error:'), f'revoke {n!r}: {r}')
        check(ACTIVE.match(z.status()['ab']), 'another account changed')
        check(z.req('revoke:c') == 'ok:', 'revoke')
        check(wait_for(lambda: z.events() == [('token_new', 'a'), ('token_new', 'ab'), ('token_revoked', 'a'), ('token_revoked', 'b'), ('token_revoked', 'c')], 3), f'events {z.events()}')
    ep.close()


@scenario('C17')
def event_order(b):
    ep = Endpoint()
    names = [f'n{i}' for i in range(8)]
    cmd = 'token_event_cmd = "echo start $PIZAUTH_EVENT $PIZAUTH_ACCOUNT >> @D@/ev; sleep 0.1; echo end >> @D@/ev";\n'
    with Pizauth(b, GLOB + cmd + ''.join(account(n, ep) for n in names)) as z:
        want = []
        for n in names:
            z.req(f'revoke:{n}')
            want += [f'start token_revoked {n}', 'end']
        check(wait_for(lambda: z.file('ev').split('\n')[:-1] == want, 5), f'events {z.file("ev")}')
        z.reload(GLOB + ''.join(account(n, ep) for n in names))
        for n in names:
            z.req(f'revoke:{n}')
        time.sleep(0.3)
        z.reload(GLOB + cmd + ''.join(account(n, ep) for n in names))
        z.req('revoke:n3')
        want += ['start token_revoked n3', 'end']
        check(wait_for(lambda: z.file('ev').split('\n')[:-1] == want, 3), f'events {z.file("ev")}')
        time.sleep(0.3)
        check(z.file('ev').split('\n')[:-1] == want, f'events {z.file("ev")}')
    ep.close()


@scenario('C23', 'C10')
def status(b):
    ep, dead = Endpoint(), Endpoint()
    life = {}
    ep.reply = lambda f, p: (200, token('SECAT', life.get(f.get('client_id'), 3600), 'SECRT'))
    dead.reply = lambda f, p: (200, token('SECAT', 1, 'SECRT')) if f.get('grant_type') == 'authorization_code' else None
    names = [f'acct{i}' for i in range(90)] + ['é b', 'a:b', 'x', 'y: No access token', 'y', 'X', 'Acct89', 'ACCT88', 'x ', ' x', 'é B']
    life.update({n: 100 + 977 * k for k, n in enumerate(names)})
    conf = GLOB + 'transient_error_if_cmd = "true";\n' + ''.join(account(n, ep, client_id=f'"{n}"', client_secret='"SECSEC"') for n in names) + account('gone', dead, refresh_retry='1h')
    with Pizauth(b, conf) as z:
        z.login('gone')
        t0 = time.time()
        for n in names[::7]:
            z.login(n)
        for n in names[1::7]:
            z.begin(n)
        t1 = time.time()
        time.sleep(1.2)
        raw = z.req('status:')
        lines = raw[3:].split('\n')
        check(raw.startswith('ok:') and len(lines) == len(names) + 1, f'{len(lines)} lines')

        def moment(s, lo, hi):
            try:
                d = email.utils.parsedate_to_datetime(s).timestamp()
            except (TypeError, ValueError):
                raise Fail(f'no date: {s}')
            check(lo - 1.5 <= d <= hi + 1.5, f'{s} is not between {lo} and {hi}')
        left = list(lines)
        for k, n in sorted(enumerate(names), key=lambda x: -len(x[1])):
            l = [x for x in left if x.startswith(n + ': ')]
            check(len(l) == 1, f'{n} is listed {len(l)} times')
            left.remove(l[0])
            s = l[0][len(n) + 2:]
            if k % 7 == 0:
                q = re.fullmatch(r'Active access token \(obtained (.*); expires (.*)\)', s)
                check(q, f'{n}: {s}')
                moment(q[1], t0, t1)
                moment(q[2], t0 + life[n], t1 + life[n])
            elif k % 7 == 1:
                q = re.fullmatch(r'Access token pending authentication \(last notification (.*)\)', s)
                check(q, f'{n}: {s}')
                moment(q[1], t0, t1)
            else:
                check(s == 'No access token', f'{n}: {s}')
        check(left and left[0].startswith('gone: Access token expired ('), f'{left}')
        for c in ('info:', 'status:', 'nonsense:', 'status:x', 'revoke:nobody'):
            no_secret(z.req(c), 'SECAT', 'SECRT', 'SECSEC')
    ep.close()
    dead.close()


@scenario('C18', 'C12', 'C08')
def odd_inputs(b):
    ep = Endpoint()
    nxt = [None]
    ep.reply = lambda f, p: nxt[0]
    with Pizauth(b, GLOB + account('a', ep) + account('b', ep)) as z:
        for n, v in enumerate((0, 1, 2**31, 2**33, 10**11, 10**12, 2**53, 2**63 - 1, 2**63, 2**64 - 1, 8 * 10**11, 9223372036854775807 - 10**6)):
            nxt[0] = (200, token('T', v, 'r'))
            u, q = z.begin('a')
            z.callback(q['state'][0], 'x')
            wait_for(lambda: 'pending' not in z.status()['a'], 3)
            z.status()
            z.show('a')
            z.raw('dump:')
            z.req('refresh:withurl a')
            wait_for(lambda: len(ep.posts) >= 2 * n + 2, 1)
            z.status()
            z.raw(b'restore:' + z.raw('dump:'))
            z.req('revoke:a')
            check(z.alive(), f'expires_in {v}: {z.panics()}')
        for body in ('', '[]', 'null', '{"error": {}}', '{"access_token": 1}', token('T', -1), token('T', 1.5), '"x"', '{"error": 3, "access_token": "T"}', 'é' * 100, '{"expires_in": 1e400}'):
            nxt[0] = (200, body)
            u, q = z.begin('a')
            z.callback(q['state'][0], 'x')
            wait_for(lambda: z.status()['a'] == 'No access token', 3)
            check(z.status()['a'] == 'No access token', f'{body!r}: {z.status()}')
            check(z.alive(), f'{body!r}: {z.panics()}')
        for r in ('', ':', 'x', 'x:', 'showtoken:', 'showtoken:withurl', 'showtoken:withurl ', 'showtoken: a', 'showtoken:withurl zz', 'refresh:', 'refresh:withurl', 'refresh:withurl zz', 'revoke:', 'status:x',
                  'dump:x', 'reload:x', 'shutdown:x', 'info:x', 'é', 'é:', ':é', 'restore:', 'restore:x', b'\xff:', b'revoke:\xff', b'showtoken:\xff', b'\xff\xff', b'restore:' + b'\0' * 100):
            z.raw(r)
            check(z.alive(), f'request {r!r}: {z.panics()}')
        for r in (b'', b'\r\n', b'GET', b'GET  \r\n\r\n', b'GET / HTTP/1.1\r\n\r\n', b'GET / HTTP/1.1\r\nHost\r\n\r\n', b'GET / HTTP/1.1\r\nHost:\r\n\r\n', b'GET / HTTP/1.1\r\nHost: \r\n\r\n',
                  b'GET /\xff HTTP/1.1\r\n\r\n', b'GET / HTTP/1.1\r\n  x\r\n\r\n', b'GET / HTTP/1.1\r\nHost: a\r\n b\r\n\r\n', b'GET / HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n', 'GET /?é HTTP/1.1\r\nHost: é\r\n\r\n'.encode(),
                  b'POST / HTTP/1.1\r\nHost: localhost\r\n\r\n', b'GET http://x/ HTTP/1.1\r\nHost: a\r\n\r\n', b'GET * HTTP/1.1\r\nHost: a\r\n\r\n', b'GET /?state=%zz&state=%ff HTTP/1.1\r\nHost: [::1\r\n\r\n', b'\r\n' * 3,
                  'GET / HTTP/1.1\r\n\u00a0x: y\r\nHost:\té\r\n\r\n'.encode()):
            z.http_raw(r, half=True)
            check(z.alive(), f'HTTP request {r!r}: {z.panics()}')
        z.status()
    ep.close()


@scenario('C19', 'C18', slow=False)
def http_size(b):
    with Pizauth(b, GLOB + account('a')) as z:
        def flood(chunk, head=b''):
            s = socket.create_connection(('127.0.0.1', z.http), timeout=5)
            n = 0
            try:
                s.sendall(head)
                end = time.time() + 5
                while n < 40 * 1024 * 1024 and time.time() < end:
                    s.sendall(chunk)
                    n += len(chunk)
            except OSError:
                pass
            s.close()
            return n
        for chunk, head in ((b'x' * 65536, b''), (b'x' * 65536, b'GET /'), (b'h: v\r\n' * 8192, b'GET / HTTP/1.1\r\n'), (b'x' * 65536, b'GET / HTTP/1.1\r\nHost: '), (b' x\r\n' * 8192, b'GET / HTTP/1.1\r\na: b\r\n')):
            n = flood(chunk, head)
            check(n < 30 * 1024 * 1024, f'{n} bytes of {head!r}{chunk[:8]!r}... were read')
        check('400' in z.http_raw(b'POST / HTTP/1.1\r\nHost: localhost\r\n\r\n', half=True), 'POST')
        check('404' in z.http_raw(f'GET /favicon.ico HTTP/1.1\r\nHost: localhost:{z.http}\r\n\r\n'.encode()), 'GET')
        check(z.alive(), z.panics())


@scenario('C19')
def http_accept(b):
    ep = Endpoint()
    ep.reply = lambda f, p: (200, token('AT' + f['code'], 3600))
    with Pizauth(b, GLOB + account('a', ep)) as z:
        H = f'localhost:{z.http}'
        u, q = z.begin('a')
        n = len(ep.posts)
        path = f'/?state={q["state"][0]}&code=no'
        h = f'Host: {H}\r\n'
        for r in (f'POST {path} HTTP/1.1\r\n{h}', f'HEAD {path} HTTP/1.1\r\n{h}', f'get {path} HTTP/1.1\r\n{h}', f'GETT {path} HTTP/1.1\r\n{h}', f'GET {path}\r\n{h}', f'GET {path} HTTP/1.1 x\r\n{h}',
                  f'GET  {path} HTTP/1.1\r\n{h}', f' GET {path} HTTP/1.1\r\n{h}', f'GET\t{path} HTTP/1.1\r\n{h}', f'GET {path} HTTP/1.1\r\n', f'GET {path} HTTP/1.1\r\nX-Host: {H}\r\n', f'GET {path} HTTP/1.1\r\nHos: {H}\r\n',
                  f'GET {path} HTTP/1.1\r\n{h}{h}', f'GET {path} HTTP/1.1\r\n{h}a: b\r\nhOST: x\r\n', f'GET {path} HTTP/1.1\r\n {h}', f'PUT {path} HTTP/1.1\r\n{h}', f'{path} HTTP/1.1\r\n{h}', f'GET {path} HTTP/1.1\r\nHost {H}\r\n'):
            a = z.http_raw((r + '\r\n').encode(), half=True)
            check('400' in a[:20] or not a, f'{r!r} was answered with {a[:60]!r}')
            time.sleep(0.03)
            check(len(ep.posts) == n, f'{r!r} was accepted')
        check('pending' in z.status()['a'], z.status())
        for k, hs in enumerate((h, f'HOST:{H}\r\n', f'host:\t {H}\r\n', f'hOsT: {H}  \r\n', f'A: b\r\n c\r\n{h}d: e:f\r\n', f'Host:\r\n {H}\r\n', f'Cookie: {"x" * 3000}\r\n{h}Accept: {"y" * 3000}\r\n', 'q: r\r\n' * 120 + h, f'Hostess: a\r\n{h}X-Host: c\r\n')):
            if k:
                z.req('revoke:a')
                u, q = z.begin('a')
            a = z.http_raw(f'GET /?state={q["state"][0]}&code=c{k} HTTP/1.1\r\n{hs}\r\n'.encode())
            check(wait_for(lambda: at(z.show('a')) == f'ATc{k}', 3), f'header {hs[:60]!r}: {a[:80]!r} {z.show("a")}')
        # requests which end early are given up, or answered
        for r in ('', 'GET', f'GET {path} HTTP/1.1', f'GET {path} HTTP/1.1\r\n', f'GET {path} HTTP/1.1\r\nA: b', f'GET {path} HTTP/1.1\r\nA: b\r\n'):
            z.http_raw(r.encode(), half=True, timeout=6)
        # a request which comes in one byte at a time
        z.req('revoke:a')
        u, q = z.begin('a')
        s = socket.create_connection(('127.0.0.1', z.http), timeout=5)
        for c in f'GET /?state={q["state"][0]}&code=slow HTTP/1.1\r\n{h}\r\n'.encode():
            s.sendall(bytes([c]))
        check(wait_for(lambda: at(z.show('a')) == 'ATslow', 3), 'a request in small pieces')
        s.close()
        check(z.alive(), z.panics())
    ep.close()


@scenario('C21')
def not_blocked(b):
    ep = Endpoint()
    go = threading.Event()

    def rep(f, p):
        if f.get('code') == 'slow' or f['grant_type'] == 'refresh_token':
            go.wait(20)
        return (200, token('AT', 3600, 'r'))
    ep.reply = rep
    names = ['n' * 2000 + str(i) for i in range(300)]
    with Pizauth(b, GLOB + 'auth_notify_cmd = "sleep 5";\ntoken_event_cmd = "sleep 5";\nerror_notify_cmd = "sleep 5";\n' + account('a', ep) + account('b', ep) + ''.join(account(n, ep) for n in names)) as z:
        def quick(what):
            t = time.time()
            z.req('showtoken:withouturl b', timeout=4)
            check(time.time() - t < 3, f'blocked by {what}')
        quick('notification')
        u, q = z.begin('a')
        z.callback(q['state'][0], 'fast')
        wait_for(lambda: at(z.show('a')), 5)
        quick('an event command')
        z.req('refresh:withurl a')
        time.sleep(0.2)
        quick('a refresh')
        z.req('revoke:a')
        u, q = z.begin('a')
        z.callback(q['state'][0], 'slow')
        time.sleep(0.2)
        quick('a code exchange')
        u, q = z.begin('b')
        n = len(ep.posts)
        ss = []
        for r in (b'status:', b'dump:'):
            s = socket.socket(socket.AF_UNIX)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1)
            s.connect(z.sock)
            s.sendall(r)
            s.shutdown(socket.SHUT_WR)
            ss.append(s)
        h = socket.create_connection(('127.0.0.1', z.http))
        h.sendall(b'GET /')
        time.sleep(0.5)
        # control requests are served one after the other; the rest of the server must still run
        threading.Thread(target=lambda: z.callback(q['state'][0], 'fast'), daemon=True).start()
        check(wait_for(lambda: len(ep.posts) > n, 4), 'blocked by a client that does not read')
        go.set()
        for s in ss:
            s.close()
    ep.close()


# ---- time ----------------------------------------------------------------------------------------
@scenario('C14', 'C15', 'C22', slow=False)
def schedule(b):
    def run(conf, acct, expires, first):
        ep = Endpoint()
        ep.reply = lambda f, p: (200, token('AT', expires, 'r'))
        with Pizauth(b, GLOB + conf + account('a', ep, **acct) + account('idle', ep)) as z:
            z.login('a')
            t0 = ep.posts[0][0]
            wait_for(lambda: len(ep.posts) > 1, (first or 0) + 2.5)
            got = ep.posts[1][0] - t0 if len(ep.posts) > 1 else None
            if first is None:
                check(got is None, f'{conf!r} {acct}: refreshed after {got} s')
            else:
                check(got is not None and first - 0.3 <= got <= first + 1.5, f'{conf!r} {acct} expires_in={expires}: first refresh after {got} s, expected {first} s')
        ep.close()
    cases = [('refresh_at_least = 2s;\n', {}, 3600, 2), ('', {'refresh_at_least': '2s'}, 3600, 2), ('refresh_at_least = 1h;\n', {'refresh_at_least': '2s'}, 3600, 2), ('refresh_at_least = 1s;\n', {'refresh_at_least': '4s'}, 3600, 4),
             ('refresh_before_expiry = 58s;\n', {}, 60, 2), ('', {'refresh_before_expiry': '58s'}, 60, 2), ('refresh_before_expiry = 1s;\n', {'refresh_before_expiry': '58s'}, 60, 2), ('refresh_before_expiry = 59s;\n', {'refresh_before_expiry': '57s'}, 60, 3),
             ('refresh_before_expiry = 4s;\n', {'refresh_before_expiry': '0s'}, 5, 5), ('refresh_before_expiry = 0s;\n', {}, 4, 4), ('refresh_at_least = 1h;\n', {'refresh_at_least': '0s'}, 3600, 0),
             ('refresh_before_expiry = 1m;\n', {}, 63, 3), ('refresh_before_expiry = 1h;\n', {'refresh_before_expiry': '1m'}, 62, 2), ('refresh_before_expiry = 1s;\n', {'refresh_before_expiry': '1h'}, 3603, 3),
             ('refresh_at_least = 0s;\n', {'refresh_at_least': '1d'}, 3600, None), ('', {}, 92, 2), ('', {}, 3600, None), ('refresh_at_least = 3s;\nrefresh_before_expiry = 58s;\n', {}, 60, 2), ('refresh_at_least = 2s;\nrefresh_before_expiry = 55s;\n', {}, 60, 2)]
    with ThreadPoolExecutor(len(cases)) as ex:
        for f in [ex.submit(run, *c) for c in cases]:
            f.result()


@scenario('C14', 'C15', 'C11', 'C22')
def retry(b):
    def run(conf, acct, want):
        ep = Endpoint()
        ep.reply = lambda f, p: (200, token('AT', 3600, 'r')) if f['grant_type'] == 'authorization_code' else 'reset'
        with Pizauth(b, GLOB + 'refresh_at_least = 1s;\n' + conf + account('a', ep, **acct)) as z:
            z.login('a')
            wait_for(lambda: len(ep.posts) > 3, 1 + 2 * want + 3)
            ts = [p[0] for p in ep.posts]
            gaps = [y - x for x, y in zip(ts[1:], ts[2:])]
            check(len(gaps) >= 2 and all(want - 0.3 <= g <= want + 1.5 for g in gaps), f'{conf!r} {acct}: retries after {gaps}, expected every {want} s')
        ep.close()
    cases = [('refresh_retry = 2s;\n', {}, 2), ('refresh_retry = 1h;\n', {'refresh_retry': '2s'}, 2), ('refresh_retry = 1s;\n', {'refresh_retry': '3s'}, 3),
             ('refresh_retry = 1h;\n', {'refresh_retry': '0s'}, 0), ('refresh_retry = 0s;\n', {'refresh_retry': '2s'}, 2)]
    with ThreadPoolExecutor(len(cases)) as ex:
        for f in [ex.submit(run, *c) for c in cases]:
            f.result()


@scenario('C16', 'C22')
def notifications(b):
    ep = Endpoint()
    cmd = 'auth_notify_cmd = "echo $(date +%s.%N) $PIZAUTH_ACCOUNT $PIZAUTH_URL >> @D@/n";\nauth_notify_interval = 2s;\n'
    with Pizauth(b, GLOB + cmd + account('a', ep) + account('b', ep) + account('c', ep)) as z:
        t0 = time.time()
        ua = z.begin('a')[0]
        time.sleep(1)
        ub = z.begin('b')[0]
        z.show('a')
        z.reload(GLOB + cmd + account('a', ep) + account('b', ep) + account('c', ep))
        time.sleep(4.6)
        z.callback(Pizauth.params(ub)[1]['state'][0])
        wait_for(lambda: at(z.show('b')), 3)
        nb = len([l for l in z.file('n').split('\n') if ' b ' in l])
        time.sleep(2.5)
        ls = [l.split(' ') for l in z.file('n').split('\n') if l]
        for n, u, off in (('a', ua, 0), ('b', ub, 1)):
            ts = [float(l[0]) - t0 - off for l in ls if l[1] == n]
            check(all(l[2] == u for l in ls if l[1] == n), f'URL of {n}: {ls}')
            check(ts and -0.1 < ts[0] < 0.8, f'first notification of {n} after {ts[:1]} s')
            check(all(1.8 < y - x < 2.9 for x, y in zip(ts, ts[1:])), f'notifications of {n} at {ts}')
            check(len(ts) >= (3 if n == 'a' else 2), f'notifications of {n} at {ts}')
        check(len([l for l in ls if l[1] == 'b']) == nb, 'notified after the authentication')
        check(not [l for l in ls if l[1] == 'c'], 'notified without a pending authentication')
        check(z.alive(), z.panics())
    ep.close()


@scenario('C16', 'C07', 'C12')
def announced_while_exchanging(b):
    """announcing a pending authentication changes nothing else: the code being exchanged is not lost"""
    ep = Endpoint()

    def rep(f, p):
        time.sleep(2.6)
        return (200, token('AT', 3600, 'RT'))
    ep.reply = rep
    with Pizauth(b, GLOB + 'auth_notify_interval = 1s;\nauth_notify_cmd = "echo $PIZAUTH_ACCOUNT >> @D@/n";\n' + account('a', ep)) as z:
        u, q = z.begin('a')
        z.callback(q['state'][0])
        wait_for(lambda: z.file('n').count('a') >= 2, 4)
        check(z.show('a') in ('pending:' + u, 'access_token:AT'), f'another URL is shown: {z.show("a")}')
        check(wait_for(lambda: at(z.show('a')) == 'AT', 6), f'the token is not stored: {z.show("a")} {z.status()}')
        check(z.alive(), z.panics())
    ep.close()


@scenario('C16')
def announced_once(b):
    """an interval which never passes"""
    def one(v):
        ep = Endpoint()
        with Pizauth(b, GLOB + f'auth_notify_interval = {v};\nauth_notify_cmd = "echo $PIZAUTH_ACCOUNT >> @D@/n";\n' + ''.join(account(n, ep) for n in 'abc')) as z:
            for n in 'abc':
                z.begin(n)
                time.sleep(.1)
            z.reload(open(z.confp).read() + account('d', ep))
            z.begin('d')
            time.sleep(.3)
            check(sorted(z.file('n').split()) == list('abcd'), f'auth_notify_interval = {v}: announced {z.file("n").split()}')
            check(z.alive(), z.panics())
        ep.close()
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(one, v) for v in ('1h', '21000d', '106751991167300d', '9223372036854775807s', '9223372036854770000s', '18446744073709551615s')]:
            f.result()


@scenario('C16')
def many_announced(b):
    """many authentications which become due at the same moment"""
    ep = Endpoint()
    names = [f'acc{i}' for i in range(15)]
    conf = GLOB + 'auth_notify_interval = 3s;\nauth_notify_cmd = "echo $(date +%s.%N) $PIZAUTH_ACCOUNT $PIZAUTH_URL >> @D@/n";\n' + ''.join(account(n, ep) for n in names)
    with Pizauth(b, conf) as z:
        t0 = time.time()
        with ThreadPoolExecutor(5) as ex:
            urls = dict(zip(names, ex.map(lambda n: z.show(n)[8:], names)))
        time.sleep(.5)
        z.pause(3.2)
        time.sleep(3.5)
        z.callback(Pizauth.params(urls['acc3'])[1]['state'][0])
        wait_for(lambda: at(z.show('acc3')), 3)
        time.sleep(.3)
        ls = [l.split(' ') for l in z.file('n').split('\n') if l]
        for n in names:
            ts = [float(l[0]) for l in ls if l[1] == n]
            check(all(l[2] == urls[n] for l in ls if l[1] == n), f'URL of {n}')
            check(all(y - x > 1.5 for x, y in zip(ts, ts[1:])) and 2 <= len(ts) <= 1 + (time.time() - t0) / 3, f'notifications of {n} at {ts}')
        check(z.alive(), z.panics())
    ep.close()


@scenario('C22')
def configurations(b):
    good = [GLOB + account('a'), account('a', redirect_uri='"https://localhost/"'), 'http_listen = none;\n' + account('a', redirect_uri='"https://localhost/"'),
            GLOB + account('a', redirect_uri='"HTTP://localhost/"'), GLOB + account('a', scopes=None), GLOB + account('a\\"b')]
    bad = ['', GLOB, GLOB + 'http_listen = none;\n' + account('a'), GLOB + account('a', redirect_uri='"https://localhost/"'), 'http_listen = none;\n' + account('a'),
           GLOB + account('a') + account('b', redirect_uri='"https://localhost/"'), GLOB + account('a', token_uri=None), GLOB + account('a', client_id=None), GLOB + account('a', auth_uri=None),
           GLOB + account('a', redirect_uri='"ftp://localhost/"'), GLOB + account('a', redirect_uri='"localhost"'), GLOB + account('a', redirect_uri='"httpx://localhost/"'), GLOB + account('a', token_uri='"nonsense"'),
           GLOB + 'http_listen = "127.0.0.1:0";\nhttp_listen = "127.0.0.1:0";\n' + account('a'), GLOB + account('a', auth_uri='""')]
    with Pizauth(b, 'http_listen = "127.0.0.1:0";\n' + account('a')) as z:
        for c in good:
            check(z.reload(c) == 'ok:', f'rejected: {c!r}: {z.req("reload:")}')
        for c in bad:
            check(z.reload(c).startswith('error:'), f'accepted: {c!r}')
        check(z.alive(), z.panics())
    for c in bad:
        try:
            z = Pizauth(b, c)
        except Fail:
            continue
        z.close()
        raise Fail(f'the server starts with {c!r}')


@scenario('C24')
def client(b):
    z = Pizauth(b, GLOB + account('a'), start=False)
    try:
        os.makedirs(z.dir + '/run/pizauth', 0o700, exist_ok=True)
        reply = [b'']
        got = [b'']
        l = socket.socket(socket.AF_UNIX)
        l.bind(z.sock)
        l.listen(8)

        def serve():
            while True:
                try:
                    s, _ = l.accept()
                except OSError:
                    return
                d = b''
                while True:
                    x = s.recv(65536)
                    if not x:
                        break
                    d += x
                got[0] = d
                try:
                    s.sendall(reply[0])
                except OSError:
                    pass
                s.close()
        threading.Thread(target=serve, daemon=True).start()
        replies = {b'ok:': {'reload', 'restore', 'revoke'}, b'access_token:TOK:en': {'show'}, b'scheduled:': {'refresh'}, b'ok:a: x\nb: y': {'status'}}
        for rep in list(replies) + [b'', b'ok', b'okx:', b'error:', b'error:boom', b'pending:', b'pending:http://u', b'access_token', b'nonsense:x', b'Ok:', b'\xff', b'scheduled:x', b':']:
            for cmd in (['reload'], ['restore'], ['revoke', 'a'], ['show', 'a'], ['refresh', 'a'], ['status']):
                reply[0] = rep
                rc, out, err = z.cli(*cmd)
                ok = cmd[0] in replies.get(rep, ()) or cmd[0] == 'status' and rep.startswith(b'ok:')
                check((rc == 0) == ok, f'{cmd} with reply {rep!r}: exit status {rc}, {err!r}')
                check(ok or (out == b'' and err != b''), f'{cmd} with reply {rep!r}: {out!r} {err!r}')
                if ok and cmd[0] == 'show':
                    check(out == b'TOK:en\n', f'output {out!r}')
        for cmd, want in ((['reload'], b'reload:'), (['revoke', 'a b'], b'revoke:a b'), (['show', 'a b'], b'showtoken:withurl a b'), (['show', '-u', 'a'], b'showtoken:withouturl a'), (['refresh', 'a'], b'refresh:withurl a'),
                          (['refresh', '-u', 'a'], b'refresh:withouturl a'), (['status'], b'status:')):
            z.cli(*cmd)
            check(got[0] == want, f'{cmd} sends {got[0]!r}')
        z.cli('restore', stdin=b'\0\xff:abc')
        check(got[0] == b'restore:\0\xff:abc', f'restore sends {got[0]!r}')
        reply[0] = b'\0\xff dump'
        rc, out, err = z.cli('dump')
        check(rc == 0 and out == b'\0\xff dump' and got[0] == b'dump:', f'dump {rc} {out!r} {got[0]!r}')
        # a dump which cannot be written, and a server which gives none
        for d in (b'\0\xff\n dump', b'\n' * 50, bytes(range(256)) * 3000):
            reply[0] = d
            rc, out, err = z.cli('dump')
            check(rc == 0 and out == d, f'dump of {len(d)} bytes: {rc}, {len(out)} bytes')
            with open('/dev/full', 'wb') as full:
                rc, _, err = z.cli('dump', stdout=full)
            check(rc != 0 and err != b'', f'a dump of {len(d)} bytes which cannot be written: exit status {rc}, {err!r}')
        reply[0] = b''
        rc, out, err = z.cli('dump')
        check(rc != 0 and out == b'' and err != b'', f'dump without a reply: exit status {rc}, {err!r}')
        # an error is told as it is; results are printed as they are
        for cause in (b'boom', b'No account x: y', b'a\nb'):
            reply[0] = b'error:' + cause
            for cmd in (['reload'], ['restore'], ['revoke', 'a'], ['show', 'a'], ['refresh', 'a'], ['status']):
                rc, out, err = z.cli(*cmd)
                check(rc != 0 and cause in err and out == b'', f'{cmd} with reply {reply[0]!r}: {rc} {out!r} {err!r}')
        big = b'x:' * 400000
        reply[0] = b'access_token:' + big
        rc, out, err = z.cli('show', 'a')
        check(rc == 0 and out == big + b'\n', f'show of a long token: {rc}, {len(out)} bytes')
        for word in (b'pending', b'ok', b'scheduled', b'access_token'):
            for rest in (b'', b'x', b' ', b'\n'):
                reply[0] = word + b':' + rest
                for cmd, good in ((['reload'], b'ok:'), (['restore'], b'ok:'), (['revoke', 'a'], b'ok:'), (['refresh', 'a'], b'scheduled:')):
                    rc, out, err = z.cli(*cmd)
                    check((rc == 0) == (reply[0] == good), f'{cmd} with reply {reply[0]!r}: exit status {rc}')
                rc, out, err = z.cli('show', 'a')
                check((rc == 0) == (word == b'access_token') and out == (rest + b'\n' if rc == 0 else b''), f'show with reply {reply[0]!r}: {rc} {out!r}')
        big = os.urandom(3000000)
        reply[0] = b'ok:'
        z.cli('restore', stdin=big)
        check(got[0] == b'restore:' + big, f'restore of {len(big)} bytes sends {len(got[0])} bytes')
        z.cli('shutdown')
        for _ in range(100):
            if got[0] == b'shutdown:':
                break
            time.sleep(0.05)
        check(got[0] == b'shutdown:', f'shutdown sends {got[0]!r}')
        l.close()
        os.unlink(z.sock)
        for cmd in (['reload'], ['restore'], ['revoke', 'a'], ['show', 'a'], ['refresh', 'a'], ['status'], ['dump'], ['shutdown']):
            rc, out, err = z.cli(*cmd)
            check(rc != 0 and out == b'' and err != b'', f'{cmd} without a server: {rc} {out!r} {err!r}')
    finally:
        z.close()


@scenario('C01', 'C18', 'C20', 'C03', 'C07', 'C06')
def churn(b):
    """many concurrent operations; afterwards a fresh authentication of every account works"""
    ep = Endpoint()
    ep.reply = lambda f, p: (200, token('AT-' + f.get('code', 'r'), 3600, 'r'))
    names = 'dbac'
    conf = GLOB + ''.join(account(n, ep) for n in names)
    alt = GLOB + ''.join(account(n, ep, client_id='"%s"' % ('o' if n in 'ab' else 'cid')) for n in sorted(names)) + account('q', ep)
    with Pizauth(b, conf) as z:
        stop = time.time() + 3
        errs = []

        def w(k):
            i = k
            while time.time() < stop:
                n = names[i % 4]
                i += 1
                try:
                    r = z.req(['showtoken:withurl %s', 'refresh:withurl %s', 'revoke:%s', 'showtoken:withurl %s'][(i * 7 + k) % 4] % n)
                    if r.startswith('pending:http'):
                        z.callback(Pizauth.params(r[8:])[1]['state'][0], f'{n}')
                    if at(r) and at(r) not in (f'AT-{n}', 'AT-r'):
                        errs.append(f'{n} shows {r}')
                    if i % 5 == 0:
                        st = z.status()
                        if not set(names) <= set(st):
                            errs.append(f'{st}')
                except Fail as ex:
                    errs.append(str(ex))
                    return
        ts = [threading.Thread(target=w, args=(k,)) for k in range(6)]
        for t in ts:
            t.start()
        while time.time() < stop:
            z.reload(alt)
            z.raw(b'restore:' + z.raw('dump:'))
            z.reload(conf)
        for t in ts:
            t.join()
        check(not errs, f'{errs[:3]}')
        check(z.alive(), z.panics())
        for n in names:
            check(z.req(f'revoke:{n}') == 'ok:', 'revoke')
            z.login(n, 'fin' + n)
            check(at(z.show(n)) == 'AT-fin' + n, z.show(n))
        check(set(z.status()) == set(names), f'{z.status()}')
    ep.close()


@scenario('C09', 'C22', 'C08')
def https_redirect(b):
    import ssl
    ep = Endpoint()
    with Pizauth(b, account('a', ep, redirect_uri='"https://localhost/cb"') + account('b', ep, redirect_uri='"http://localhost/cb"') + account('c', ep, redirect_uri='"HTTPS://localhost/cb"')) as z:
        for n, sch, port in (('a', 'https', z.https), ('b', 'http', z.http), ('c', 'https', z.https)):
            u, q = z.begin(n)
            check(q['redirect_uri'] == [f'{sch}://localhost:{port}/cb'], f'{n}: {q["redirect_uri"]}')
            if n == 'a':
                z.callback(q['state'][0], path='/cb')
                z.callback(q['state'][0], path='/cb', port=z.https)
                time.sleep(0.2)
                check(z.show(n).startswith('pending:'), 'accepted over HTTP')
                check(not ep.posts, 'accepted over HTTP')
        cx = ssl.create_default_context()
        cx.check_hostname = False
        cx.verify_mode = ssl.CERT_NONE
        u, q = z.begin('a')
        with socket.create_connection(('127.0.0.1', z.https), timeout=10) as s0:
            with cx.wrap_socket(s0, server_hostname='localhost') as s:
                s.sendall(f'GET /cb?state={q["state"][0]}&code=z HTTP/1.1\r\nHost: localhost:{z.https}\r\n\r\n'.encode())
                try:
                    s.recv(100)
                except OSError:
                    pass
        check(wait_for(lambda: at(z.show('a')) == 'at', 4), 'HTTPS callback')
        check(z.alive(), z.panics())
    ep.close()


@scenario('C22')
def config_accept(b):
    """which configurations are accepted, with and without a defect planted in an otherwise good one"""
    L = {'auth_notify_cmd': '"true"', 'auth_notify_interval': '3m', 'error_notify_cmd': '"true"', 'http_listen': '"127.0.0.1:0"', 'transient_error_if_cmd': '"true"',
         'refresh_at_least': '1h', 'refresh_before_expiry': '10s', 'refresh_retry': '9s', 'token_event_cmd': '"true"'}
    A = {'auth_uri': '"http://h/a"', 'auth_uri_fields': '{"k": "v"}', 'client_id': '"c"', 'client_secret': '"s"', 'redirect_uri': '"http://localhost/r"',
         'refresh_at_least': '2h', 'refresh_before_expiry': '11s', 'refresh_retry': '8s', 'scopes': '["x"]', 'token_uri': '"https://h/t"'}

    def conf(top=L, acct=A, more='', amore='', extra='', https='none'):
        return (f'https_listen = {https};\n' if https else '') + ''.join(f'{k} = {v};\n' for k, v in top.items()) + more + 'account "a" {\n' + ''.join(f'{k} = {v};\n' for k, v in acct.items()) + amore + '}\n' + extra
    second = conf(top={}, https=None).replace('account "a"', 'account "b"')
    good, bad = [conf(), conf(extra=second)], []
    for k, v in L.items():
        good += [conf(top={x: y for x, y in L.items() if x != k}), conf(more='', top=dict(reversed(list(L.items()))))]
        bad += [conf(more=f'{k} = {v};\n'), conf(extra=f'{k} = {v};\n')]
        if v[0] == '"':
            bad += [conf(top=dict(L, **{k: '3s'}))] + ([conf(top=dict(L, **{k: 'none'}))])
        else:
            good += [conf(top=dict(L, **{k: t})) for t in ('0s', '1s', '7m', '3h', '200d', '18446744073709551615s', '213503982334601d')]
            bad += [conf(top=dict(L, **{k: t})) for t in ('"3s"', '3', '18446744073709551616s', '213503982334602d', '307445734561825861m', '5124095576030432h', '3w', '1.5h', '-1s')]
    for k, v in A.items():
        less = conf(acct={x: y for x, y in A.items() if x != k})
        (bad if k in ('auth_uri', 'client_id', 'token_uri') else good).append(less)
        other = {'[': '[]', '{': '{}'}.get(v[0], v)
        bad += [conf(amore=f'{k} = {v};\n'), conf(amore=f'{k} = {other};\n'), conf(acct=dict(A, **{k: other}), amore=f'{k} = {v};\n'), conf(acct=dict(A, **{k: other}), amore=f'{k} = {other};\n')]
        bad += [conf(extra=second.replace(f'{k} = {v};', f'{k} = {v};\n{k} = {v};'))]
        if v[0].isdigit():
            good += [conf(acct=dict(A, **{k: t})) for t in ('0s', '5m', '200d', '213503982334601d')]
            bad += [conf(acct=dict(A, **{k: t})) for t in ('18446744073709551616s', '213503982334602d', '307445734561825861m', '5124095576030432h')]
        if k.endswith('uri'):
            good += [conf(acct=dict(A, **{k: u})) for u in ('"http://h/x?y=z"', '"HTTP://h"', '"http://127.0.0.1:99/"', '"http://[::1]/"')]
            bad += [conf(acct=dict(A, **{k: u})) for u in ('""', '"h"', '"/p"', '"ftp://h/"', '"httpx://h/"', '"http:"', '"mailto:a@b"', '"file:///x"', '"https"', '"http://h:99999/"', '"http://[/"')]
            bad += [conf(extra=second.replace(f'{k} = {v};', f'{k} = "ftp://h/";'))]
    good += [conf(acct=dict(A, scopes='[]', auth_uri_fields='{}')), conf(acct=dict(A, auth_uri_fields='{"k": "v", "k": "v"}')), conf(amore='login_hint = "x";\n'),
             conf(https='"127.0.0.1:0"', acct=dict(A, redirect_uri='"https://localhost/"')), conf(https='', acct=dict(A, redirect_uri='"https://localhost/"')),
             conf(top=dict(L, http_listen='none'), https='"127.0.0.1:0"', acct=dict(A, redirect_uri='"https://localhost/"')), conf() + '// trailing\n', conf(top={}, https=None)]
    bad += [conf(amore='login_hint = "x";\nlogin_hint = "x";\n'), conf(acct=dict(A, auth_uri_fields='{"k": "v", "login_hint": "y"}'), amore='login_hint = "x";\n'),
            conf(top=dict(L, http_listen='none')), conf(top=dict(L, http_listen='none'), https='"127.0.0.1:0"'), conf(top=dict(L, http_listen='none'), https=''),
            conf(acct=dict(A, redirect_uri='"https://localhost/"')), conf(extra=second.replace('"http://localhost/r"', '"https://localhost/r"')), conf(acct=dict(A, redirect_uri='"HTTPS://localhost/"')),
            conf(top=dict(L, http_listen='none'), https='"127.0.0.1:0"', acct=dict(A, redirect_uri='"https://localhost/"'), extra=second),
            conf(top=dict(L, http_listen='none'), acct=dict(A, redirect_uri='"https://localhost/"')), conf(top=dict(L, auth_error_cmd='"true"')), conf(more='https_listen = none;\n'), conf(more='https_listen = "127.0.0.1:0";\n'),
            conf()[:conf().index('account')], conf(top={})[:conf(top={}).index('account')], '// nothing\n', conf(top=dict(L, http_listen='none'))[:conf(top=dict(L, http_listen='none')).index('account')],
            conf(more='http_listen = none;\n'), conf(more='unknown = "x";\n'), conf(amore='unknown = "x";\n'), conf()[:-3], conf() + '@', conf(amore='http_listen = "x";\n'), '', 'https_listen = none;\n', 'http_listen = none;\n' + second]
    tls = second.replace('"http://localhost/r"', '"https://localhost/r"')
    for n in range(4):
        # one account among several whose listener is off, wherever it is looked at
        accts = [x.replace('account "b"', f'account "{y}{n}"') for y, x in zip('cdefgh', [tls] * 5 + [second])]
        on = '"127.0.0.1:0"'
        for hs in (None, on):
            h = f'https_listen = {hs};\n' if hs else ''
            g = f'http_listen = {hs};\n' if hs else ''
            bad += [h + 'http_listen = none;\n' + ''.join(accts), h + 'http_listen = none;\n' + ''.join(reversed(accts)), g + 'https_listen = none;\n' + second + ''.join(accts[4:])]
            good += [h + 'http_listen = none;\n' + ''.join(accts[:5]), g + h + ''.join(accts)]
    with Pizauth(b, GLOB + account('a')) as z:
        for c in good:
            r = z.reload(c)
            check(r == 'ok:', f'rejected: {c!r}: {r}')
        check(z.reload(GLOB + account('a')) == 'ok:', 'reload')
        for c in bad:
            r = z.reload(c)
            check(r.startswith('error:'), f'accepted ({r!r}): {c!r}')
            check(z.alive(), z.panics())
            check(list(z.status()) == ['a'], f'changed by a rejected configuration: {z.status()}')
        check(z.alive(), z.panics())


@scenario('C22', 'C09')
def config_used(b):
    """every setting is used with the value given for it"""
    ep = Endpoint()
    ep.reply = lambda f, p: (200, token('AT' + f['code'], 3600, 'RT'))
    top = ''.join(f'{k} = "echo $PIZAUTH_ACCOUNT >> @D@/{k}";\n' for k in ('auth_notify_cmd', 'error_notify_cmd', 'token_event_cmd'))
    accts = ''
    for n in 'abc':
        accts += account(n, ep, auth_uri=f'"http://{n}.example/{n}auth"', token_uri=f'"{ep.url("/" + n)}"', client_id=f'"id{n}\\"\\\\x"', client_secret=f'"sec{n}"' if n != 'c' else None,
                         redirect_uri=f'"http://localhost/re{n}"' if n != 'b' else None, scopes=f'["{n}2", "{n}1", "{n}2"]' if n != 'a' else None, auth_uri_fields=f'{{"f{n}": "v{n}", "g{n}": "w"}}' if n != 'b' else None)
    with Pizauth(b, GLOB + top + accts) as z:
        for n in 'abc':
            u, q = z.begin(n)
            check(u.startswith(f'http://{n}.example/{n}auth?'), f'auth_uri of {n}: {u}')
            check(q['client_id'] == [f'id{n}"\\x'], f'client_id of {n}: {u}')
            check(q.get('scope') == (None if n == 'a' else [f'{n}2 {n}1 {n}2']), f'scopes of {n}: {u}')
            path = f'/re{n}' if n != 'b' else '/'
            check(q['redirect_uri'] == [f'http://localhost:{z.http}{path}'], f'redirect_uri of {n}: {u}')
            check((q.get(f'f{n}'), q.get(f'g{n}')) == ((None, None) if n == 'b' else ([f'v{n}'], ['w'])), f'auth_uri_fields of {n}: {u}')
            z.callback(q['state'][0], n, path=path)
            check(wait_for(lambda: at(z.show(n)) == f'AT{n}', 5), f'authentication of {n}: {z.show(n)}')
            _, p, f = ep.posts[-1][:3]
            check(p == f'/{n}' and f.get('client_id') == f'id{n}"\\x' and f.get('client_secret') == (f'sec{n}' if n != 'c' else None) and f.get('redirect_uri') == q['redirect_uri'][0], f'token request of {n}: {p} {f}')
        check(wait_for(lambda: all(z.file('token_event_cmd').split() == list('abc') and z.file('auth_notify_cmd').split() == list('abc') for _ in 'a'), 5), f'commands run: {z.file("token_event_cmd")!r} {z.file("auth_notify_cmd")!r}')
        check(z.file('error_notify_cmd') == '', 'error_notify_cmd run')
        check(z.alive(), z.panics())
    ep.close()
    ep = Endpoint()
    ep.reply = lambda f, p: (200, token('AT', 3600, 'r')) if f['grant_type'] == 'authorization_code' else 'reset'
    for rc, want in (('0', 'Active'), ('1', 'No access token')):
        with Pizauth(b, GLOB + 'refresh_retry = 1s;\nrefresh_at_least = 1s;\n' + f'transient_error_if_cmd = "echo $PIZAUTH_ACCOUNT >> @D@/t; exit {rc}";\nerror_notify_cmd = "echo $PIZAUTH_ACCOUNT >> @D@/e";\n' + account('a', ep)) as z:
            z.login('a')
            check(wait_for(lambda: z.file('t'), 6), 'transient_error_if_cmd is not run')
            wait_for(lambda: z.status()['a'].startswith(want), 3)
            check(z.status()['a'].startswith(want), f'transient_error_if_cmd exits with {rc}: {z.status()}')
    ep.close()


def run_one(name, b):
    t = time.time()
    try:
        SC[name][0](b)
        return name, None, time.time() - t
    except Fail as ex:
        return name, str(ex), time.time() - t
    except Exception:
        return name, traceback.format_exc(), time.time() - t


def run_names(names, b, par=6):
    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(lambda n: run_one(n, b), names))


def run_for(pid, seed=1, tier='quick'):
    names = [n for n, (f, ps, slow) in SC.items() if pid in ps]
    if not names:
        return {'ran': 0, 'failed': []}
    b = binary()
    bad = []
    for n, err, t in run_names(names, b):
        if err:
            # once more, alone: a timing problem of this machine is no violation
            _, err2, _ = run_one(n, b)
            if err2:
                bad.append({'name': n, 'detail': err2})
    out = {'ran': len(names), 'failed': bad, 'names': names}
    if not bad and pid in EXPLORED:
        import explore
        rs = explore.run(b, seed, 45 if tier == 'quick' else 90)
        out['random_steps'] = sum(n for _, (n, _) in rs)
        # the same histories once more: a timing problem of this machine is no violation
        again = [k for k, (n, err) in rs if err]
        if again:
            for k, (n, err) in explore.run_seeds(b, again[:8], 90):
                if err:
                    out['failed'] = [{'name': 'random history', 'detail': err, 'rerun': f'python3-vt mirvc/explore.py {b} {k} 90 1'}]
                    break
    return out


EXPLORED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C17', 'C18', 'C20', 'C23']


if __name__ == '__main__':
    b = binary()
    rc = 0
    for n, err, t in run_names(sys.argv[1:] or list(SC), b):
        print(f'{n}: {"ok" if not err else "FAIL " + err} ({t:.1f} s)')
        rc |= bool(err)
    sys.exit(rc)

"""Random histories of the real program against a reference model of a single user's view of pizauth:
accounts, authentications, refreshes that are held back at the token endpoint, reloads, dumps,
restarts.  Used to find a concrete failing history once an obligation has failed or is undecided;
never used to conclude that a property holds."""
import email.utils
import json
import os
import random
import re
import sys
import threading
import time
import urllib.parse
from collections import Counter
from pz import *

GLOB = ('https_listen = none;\nrefresh_retry = 1h;\nrefresh_before_expiry = 1s;\n'
        'token_event_cmd = "echo $PIZAUTH_EVENT $PIZAUTH_ACCOUNT >> @D@/events";\n'
        'auth_notify_cmd = "echo $PIZAUTH_ACCOUNT $PIZAUTH_URL >> @D@/n";\n'
        'error_notify_cmd = "echo $PIZAUTH_ACCOUNT >> @D@/err";\n'
        'transient_error_if_cmd = "echo $PIZAUTH_ACCOUNT >> @D@/trans; test ! -e @D@/bad";\n')
SEC = {'auth_uri': ['"http://127.0.0.1:9/auth"', '"http://127.0.0.1:9/auth2"'], 'client_id': ['"cid"', '"cid2"'], 'client_secret': [None, '"s"', '"s2"', '""'],
       'redirect_uri': ['"http://localhost/"', '"http://127.0.0.1/"', '"http://localhost/x"'], 'scopes': ['["s1", "s2"]', '["s2", "s1"]', '["s1"]', None, '["s1", "s2", "s3"]', '["s1 s2"]'],
       'auth_uri_fields': [None, '{"k": "v"}', '{"k": "v", "k2": "v2"}', '{"k": "v", "k": "v2"}', '{"k2": "v2", "k": "v"}'], 'path': ['/token', '/token2']}
OTHER = {'refresh_at_least': [None, '80m', '2h'], 'refresh_retry': [None, '2h']}
EXPIRED = 'error:Access token has expired. '
BAD = [(400, '{"error": "invalid_grant"}'), (200, 'nonsense'), (200, '{"error": "e"}'), (200, '{}'), (401, ''), (200, json.dumps({'access_token': 'X', 'token_type': 'Bearer'})),
       (200, json.dumps({'access_token': 'X', 'expires_in': 3600, 'token_type': 'mac'})), (500, 'x'), (200, json.dumps({'expires_in': 3600, 'token_type': 'Bearer', 'refresh_token': 'r'})),
       (200, json.dumps({'access_token': 'X', 'expires_in': 3600, 'token_type': 'Bearer', 'error': 'bad'}))]


def hdr(conf):
    return urllib.parse.urlparse(conf['redirect_uri'].strip('"')).hostname


class Acct:
    def __init__(self, conf):
        self.conf, self.gen = conf, object()
        self.k = 'E'

    def set(self, k, **kw):
        self.gen = object()
        self.k = k
        self.__dict__.update(kw)


class Flight:
    def __init__(self, kind, name, gen, plan, gate):
        self.kind, self.name, self.gen, self.plan, self.gate = kind, name, gen, plan, gate
        self.seen, self.go = threading.Event(), threading.Event()
        if not gate:
            self.go.set()


class World:
    def __init__(self, binary, seed, log):
        self.r = random.Random(seed)
        self.log = log
        self.ep = Endpoint()
        self.ep.reply = self.reply
        self.plan = {}              # key of a post -> Flight
        self.bad = []
        self.n = 0
        self.flights = []
        self.events, self.ann, self.errs = [], Counter(), Counter()
        self.dead = []              # state values that are no longer good
        self.dumps = []
        self.focus, self.left = None, 0
        names = self.r.sample(['a', 'b', 'ab', 'c c', 'é', 'z'], 4)
        self.acc = {n: Acct(self.rconf()) for n in names}
        self.z = Pizauth(binary, self.conf())

    def close(self):
        for f in self.flights:
            f.go.set()
        self.z.close()
        self.ep.close()

    # ---- configuration ----------------------------------------------------------
    def rconf(self):
        d = {k: self.r.choice(v[:2]) if self.r.random() < .6 else self.r.choice(v) for k, v in SEC.items()}
        d.update({k: self.r.choice(v) for k, v in OTHER.items()})
        return d

    def conf(self):
        names = list(self.acc)
        self.r.shuffle(names)
        out = GLOB
        for n in names:
            c = dict(self.acc[n].conf)
            p = c.pop('path')
            out += account(n, self.ep, **dict(c, token_uri=f'"{self.ep.url(p)}"'))
        return out

    # ---- the token endpoint --------------------------------------------------------
    def reply(self, f, path):
        key = ('c', f.get('code')) if f.get('grant_type') == 'authorization_code' else ('r', f.get('refresh_token'))
        fl = self.plan.pop(key, None)
        if fl is None:
            self.bad.append(f'an unexpected request is sent to the token endpoint: {path} {f}')
            return (400, '')
        want = dict(fl.form)
        ver = f.get('code_verifier')
        if fl.kind == 'exchange':
            f = dict(f)
            f.pop('code_verifier', None)
            if not ver or challenge(ver) != fl.challenge:
                self.bad.append('the code verifier does not match the challenge')
        if f != want or path != fl.path:
            self.bad.append(f'the token endpoint is sent {path} {f}, expected {fl.path} {want}')
        fl.seen.set()
        fl.go.wait(60)
        return fl.plan['reply']

    def form(self, a):
        c = a.conf
        d = {'client_id': c['client_id'].strip('"')}
        if c['client_secret'] is not None:
            d['client_secret'] = c['client_secret'].strip('"')
        return d

    def redirect(self, a):
        u = urllib.parse.urlparse(a.conf['redirect_uri'].strip('"'))
        return f'http://{u.hostname}:{self.z.http}{u.path or "/"}'

    def newplan(self, kind):
        self.n += 1
        x = self.r.random()
        if x < .62:
            exp = self.r.choice([40, 59, 61, 600, 3600, 3601, 7200, 100000])
            rt = f'RT{self.n}x' if self.r.random() < .75 else None
            how = None
            if kind == 'refresh' and self.r.random() < .12:
                how = self.r.choice(['null', 7, ['x']])
            kw = {}
            if how is not None:
                rt = None
                kw = {'refresh_token': None if how == 'null' else how}
            return {'ok': True, 'at': f'AT{self.n}x', 'rt': rt, 'lost': how is not None, 'exp': exp, 'reply': (200, token(f'AT{self.n}x', exp, rt, **kw))}
        if kind == 'refresh' and x < .8:
            return {'ok': False, 'temp': True, 'reply': self.r.choice(['reset', 'short'])}
        return {'ok': False, 'temp': False, 'reply': self.r.choice(BAD)}

    # ---- effects of completed requests -----------------------------------------------
    def complete(self, fl):
        self.flights.remove(fl)
        a = self.acc.get(fl.name)
        if a is None or a.gen is not fl.gen:
            return
        p = fl.plan
        if fl.kind == 'exchange':
            self.die(a)
            if p['ok']:
                a.set('A', at=p['at'], rt=p['rt'], exp=time.time() + p['exp'], flight=None, fails=0)
                self.events.append(('token_new', fl.name))
            else:
                a.set('E')
                self.errs[fl.name] += 1
            return
        if p['ok']:
            a.set('A', at=p['at'], rt=p['rt'] if p['rt'] is not None or p['lost'] else a.rt, exp=time.time() + p['exp'], flight=None, fails=0)
            self.events.append(('token_refreshed', fl.name))
        elif p['temp']:
            fails = a.fails + 1
            if fails % 6 == 0 and os.path.exists(self.z.dir + '/bad'):
                a.set('E')
                self.events.append(('token_invalidated', fl.name))
            else:
                a.set('A', flight=None, fails=fails)
        else:
            a.set('E')
            self.events.append(('token_invalidated', fl.name))

    def die(self, a):
        if a.k == 'P':
            self.dead.append((a.state, hdr(a.conf)))

    # ---- checking -----------------------------------------------------------------------
    def mismatch(self):
        z = self.z
        if self.bad:
            return self.bad[0]
        if not z.alive():
            return 'the server has panicked or ended: ' + z.panics()
        st = z.status()
        if set(st) != set(self.acc):
            return f'status lists {sorted(st)}, expected {sorted(self.acc)}'
        for n, a in self.acc.items():
            s = st[n]
            if a.k == 'E' and s != 'No access token':
                return f'{n}: status is {s!r}, expected no access token'
            if a.k == 'P':
                if 'pending' not in s:
                    return f'{n}: status is {s!r}, expected a pending authentication'
                r = z.show(n)
                if r != 'pending:' + a.url:
                    return f'{n}: show says {r[:300]!r}, expected pending:{a.url}'
            if a.k == 'A' and a.exp > time.time() + 1:
                m = re.match(r'Active access token \(obtained .*; expires (.*)\)', s)
                if not m:
                    return f'{n}: status is {s!r}, expected an active token'
                if abs(email.utils.parsedate_to_datetime(m.group(1)).timestamp() - a.exp) > 6:
                    return f'{n}: {s!r}, expected expiry at {time.ctime(a.exp)}'
                r = z.req(f'showtoken:{self.r.choice(["withurl", "withouturl"])} {n}')
                if r != 'access_token:' + a.at:
                    return f'{n}: show says {r[:200]!r}, expected the token {a.at}'
            if a.k == 'A' and a.exp < time.time() - .1:
                if not s.startswith('Access token expired'):
                    return f'{n}: status is {s!r}, expected an expired token'
                for how in ['withurl', 'withouturl'] if a.flight else []:
                    r = z.req(f'showtoken:{how} {n}')
                    if not r.startswith(EXPIRED) or 'in progress' not in r:
                        return f'{n}: show of an expired token which is being refreshed says {r[:200]!r}'
        ev = z.events()
        if ev != self.events:
            return f'token events are {ev[-4:]} ({len(ev)}), expected {self.events[-4:]} ({len(self.events)})'
        er = Counter(x for x in z.file('err').split('\n') if x)
        if er != self.errs:
            return f'authentication errors reported: {dict(er)}, expected {dict(self.errs)}'
        an = Counter(tuple(x.rsplit(' ', 1)) for x in z.file('n').split('\n') if x)
        if an != self.ann:
            return f'announcements differ: unexpected {list((an - self.ann).items())[:2]}, missing {list((self.ann - an).items())[:2]}'
        return None

    def verify(self, quiet=False):
        if quiet:
            time.sleep(.12)
        end = time.time() + 3
        while True:
            m = self.mismatch()
            if m is None:
                return
            if time.time() > end:
                raise Fail(m)
            time.sleep(.02)

    def pick(self, ns):
        if self.left <= 0:
            self.focus, self.left = self.r.choice(list(self.acc)), self.r.randrange(8, 25)
        return self.focus if self.focus in ns and (self.seq or self.r.random() < .75) else self.r.choice(ns)

    # ---- operations -----------------------------------------------------------------------
    def op_begin(self):
        n = self.pick(list(self.acc))
        a = self.acc[n]
        if a.k == 'A':
            return
        z = self.z
        how = self.r.choice(['withurl', 'withouturl'])
        cmd = 'showtoken' if a.k == 'E' and self.r.random() < .6 else 'refresh'
        self.log(f'{cmd} {n} ({how})')
        r = z.req(f'{cmd}:{how} {n}')
        if how == 'withouturl':
            check(r == 'pending:', f'{cmd} without URL says {r[:200]!r}')
            r = z.show(n)
        check(r.startswith('pending:http'), f'{cmd} of {n} says {r[:200]!r}')
        url, q = z.params(r[8:])
        ps = urllib.parse.parse_qsl(urllib.parse.urlparse(url).query, keep_blank_values=True)
        c = a.conf
        want = {'access_type': ['offline'], 'code_challenge_method': ['S256'], 'client_id': [c['client_id'].strip('"')], 'redirect_uri': [self.redirect(a)], 'response_type': ['code']}
        if c['scopes']:
            want['scope'] = [' '.join(json.loads(c['scopes']))]
        xs = [x for x in ps if x[0] in ('k', 'k2')]
        got = {k: v for k, v in q.items() if k not in ('state', 'code_challenge', 'k', 'k2')}
        check(got == want, f'authentication URL of {n} has {got}, expected {want}')
        f = c['auth_uri_fields']
        check(xs == (re.findall(r'"(\w+)": "(\w+)"', f) if f else []), f'authentication URL of {n} has the extra fields {xs}, configured {f}')
        check(url.startswith(c['auth_uri'].strip('"') + '?'), f'authentication URL {url}')
        check(len(q.get('state', [])) == 1 and len(q.get('code_challenge', [])) == 1, f'parameters {q}')
        s = q['state'][0]
        check(s not in self.seen and q['code_challenge'][0] not in self.seen, 'a state or challenge is used twice')
        self.seen |= {s, q['code_challenge'][0]}
        self.die(a)
        # the announcement is a change of its own: wait for it
        check(wait_for(lambda: 'last notification' in z.status().get(n, ''), 3), f'the authentication of {n} is not announced')
        self.ann[(n, url)] += 1
        a.set('P', url=url, state=s, challenge=q['code_challenge'][0])

    seen = set()

    def exchange(self, n, gate):
        a = self.acc[n]
        p = self.newplan('exchange')
        fl = Flight('exchange', n, a.gen, p, gate)
        code = f'code{self.n}'
        fl.form = dict(self.form(a), code=code, redirect_uri=self.redirect(a), grant_type='authorization_code')
        fl.path, fl.challenge = a.conf['path'], a.challenge
        self.plan[('c', code)] = fl
        self.flights.append(fl)
        self.log(f'callback of {n} with {code}, reply {p["reply"]}{" held back" if gate else ""}')
        self.z.callback(a.state, code, header_host=f'{hdr(a.conf)}:{self.z.http}', path=urllib.parse.urlparse(a.conf['redirect_uri'].strip('"')).path or '/')
        check(fl.seen.wait(4), f'no code is exchanged for {n}')
        if not gate:
            self.complete(fl)

    def op_callback(self):
        ps = [n for n, a in self.acc.items() if a.k == 'P']
        if ps:
            self.exchange(self.pick(ps), 'op_release' in self.next or self.r.random() < .5)

    def op_denied(self):
        ps = [n for n, a in self.acc.items() if a.k == 'P']
        if ps and self.r.random() < .5:
            n = self.r.choice(ps)
            a = self.acc[n]
            self.log(f'callback of {n} with an error')
            self.z.callback(a.state, code=self.r.choice([None, 'x']), extra='error=denied', header_host=f'{hdr(a.conf)}:{self.z.http}')
            self.die(a)
            a.set('E')
            self.errs[n] += 1

    def op_wrong(self):
        r = self.r
        ps = [a for a in self.acc.values() if a.k == 'P']
        kw = {'code': r.choice(['c', 'c', None]), 'extra': r.choice(['', '', 'error=x'])}
        if self.dead and r.random() < .5:
            s, h = r.choice(self.dead)
            self.log('callback with a state value that is no longer good')
            self.z.callback(s, header_host=f'{h}:{self.z.http}', **kw)
        elif ps:
            a = r.choice(ps)
            h = r.choice(['evil.example', f'{hdr(a.conf)}:{self.z.http + 1}', f'{hdr(a.conf)}', f'x.{hdr(a.conf)}:{self.z.http}'] + ['localhost:%d' % self.z.http if hdr(a.conf) != 'localhost' else '127.0.0.1:%d' % self.z.http])
            if r.random() < .4:
                st = r.choice([a.state[:-1], a.state + 'A', a.state[1:], '', a.state.swapcase()])
                self.log('callback with a wrong state')
                self.z.callback(st, header_host=f'{hdr(a.conf)}:{self.z.http}', **kw)
            else:
                self.log(f'callback with host {h}')
                self.z.callback(a.state, header_host=h, **kw)
        self.quiet = True

    def start_refresh(self, n, gate, trigger):
        a = self.acc[n]
        if a.rt is None:
            self.log(f'refresh of {n}, which has no refresh token')
            trigger()
            a.set('E')
            self.events.append(('token_invalidated', n))
            return
        p = self.newplan('refresh')
        a.set('A')
        fl = Flight('refresh', n, a.gen, p, gate)
        fl.form = dict(self.form(a), refresh_token=a.rt, grant_type='refresh_token')
        fl.path = a.conf['path']
        self.plan[('r', a.rt)] = fl
        self.flights.append(fl)
        a.flight = fl
        self.log(f'refresh of {n}, reply {p["reply"]}{" held back" if gate else ""}')
        trigger()
        if not fl.seen.wait(1):
            trigger()       # the end of an earlier refresh that failed may have been under way
        check(fl.seen.wait(4), f'no refresh of {n} is tried')
        if not gate:
            self.complete(fl)

    def op_refresh(self, only=None, gate=None):
        ps = [n for n, a in self.acc.items() if a.k == 'A']
        if not ps:
            return
        n = only or self.pick(ps)
        a = self.acc[n]

        def trig():
            if a.exp < time.time() - .1 and self.r.random() < .6:
                r = self.z.req(f'showtoken:withurl {n}')
                check(r.startswith(EXPIRED), f'show of an expired token says {r[:200]!r}')
                return
            r = self.z.req(f'refresh:{self.r.choice(["withurl", "withouturl"])} {n}')
            check(r == 'scheduled:', f'refresh of {n} says {r[:200]!r}')
        if a.flight:
            self.log(f'refresh of {n}, which is being refreshed')
            trig()
            self.quiet = True
            return
        if any(k == ('r', a.rt) for k in self.plan) or any(f.kind == 'refresh' and f.form['refresh_token'] == a.rt for f in self.flights):
            return          # the same refresh token twice (after a restore): replies could not be told apart
        self.start_refresh(n, ('op_release' in self.next or self.r.random() < .45) if gate is None else gate, trig)

    def op_fails(self):
        """a series of refreshes"""
        ps = [n for n, a in self.acc.items() if a.k == 'A' and not a.flight and a.rt]
        if not ps:
            return
        n = self.r.choice(ps)
        np = self.newplan
        bad = self.z.dir + '/bad'
        if self.r.random() < .5:
            open(bad, 'w').close()
        elif os.path.exists(bad):
            os.unlink(bad)
        for _ in range(self.r.randrange(5, 9)):
            a = self.acc[n]
            if a.k != 'A' or a.flight or not a.rt or a.exp < time.time() + 2:
                break
            self.newplan = lambda kind: {'ok': False, 'temp': True, 'reply': self.r.choice(['reset', 'short'])}
            try:
                self.op_refresh(n, False)
            finally:
                self.newplan = np
            time.sleep(.08)
            self.verify()

    def op_release(self):
        if self.flights:
            fl = self.r.choice([f for f in self.flights if self.seq and f.name == self.focus] or self.flights)
            a = self.acc.get(fl.name)
            self.log(f'release the held back {fl.kind} of {fl.name}' + ('' if a and a.gen is fl.gen else ' (superseded)'))
            if not (a and a.gen is fl.gen):
                self.quiet = True
            self.complete(fl)
            fl.go.set()
            if fl.plan.get('temp'):
                time.sleep(.1)

    def op_revoke(self):
        n = self.pick(list(self.acc))
        if self.r.random() < .1:
            for x in (n + 'x', n[:-1], n.upper() + '!'):
                if x not in self.acc:
                    self.log(f'revoke {x!r}')
                    r = self.z.req(f'revoke:{x}')
                    check(r.startswith('error:'), f'revoke {x!r} says {r!r}')
            return
        self.log(f'revoke {n}')
        check(self.z.req(f'revoke:{n}') == 'ok:', 'revoke')
        self.die(self.acc[n])
        self.acc[n].set('E')
        self.events.append(('token_revoked', n))
        self.quiet = True

    def op_reload(self):
        r = self.r
        x = r.random() if not self.seq else 1
        if x < .12:
            bad = r.choice(['nonsense', '', 'https_listen = none;\n', self.conf() + 'account "n" {\n}\n', self.conf() + account('n', self.ep, redirect_uri='"ftp://x/"')])
            self.log('reload of a configuration that is not acceptable')
            check(self.z.reload(bad).startswith('error:'), 'an unacceptable configuration is accepted')
            self.z.write(self.conf())
            return
        old = {n: dict(a.conf) for n, a in self.acc.items()}
        new = dict(self.acc)
        if x < .3 and len(new) > 1:
            n = r.choice(list(new))
            del new[n]
        if x < .2 or .3 < x < .45:
            n = r.choice(['a', 'b', 'ab', 'c c', 'é', 'z', 'new'])
            if n not in new:
                new[n] = Acct(self.rconf())
        for n in list(new):
            if r.random() < (.9 if n == self.focus and self.seq else .6 if n == self.focus else .15):
                c = dict(new[n].conf)
                k = r.choice(list(SEC) + ['scopes', 'auth_uri_fields']) if r.random() < .5 else r.choice(list(OTHER))
                c[k] = r.choice({**SEC, **OTHER}[k])
                if n in old and any(c[k] != old[n][k] for k in SEC):
                    self.log(f'in the next configuration {k} of {n} is {c[k]}')
                    self.die(new[n])
                    new[n] = Acct(c)
                else:
                    new[n].conf = c
        gone = [n for n in self.acc if n not in new]
        for n in gone:
            self.die(self.acc[n])
        self.acc = new
        self.log(f'reload with accounts {sorted(new)}')
        check(self.z.reload(self.conf()) == 'ok:', 'reload')

    def op_dump(self):
        if any(a.k == 'A' and a.exp < time.time() + 70 for a in self.acc.values()):
            return
        self.log('dump')
        d = self.z.raw('dump:')
        check(not d.startswith(b'error'), 'dump')
        for s in (b'AT', b'RT'):
            check(not re.search(s + rb'\d+x', d), 'a dump shows a credential')
        self.dumps.append((d, {n: (dict(a.conf), (a.at, a.rt, a.exp) if a.k == 'A' else None) for n, a in self.acc.items()}))

    def op_restore(self):
        r = self.r
        if not self.seq and r.random() < .2:
            self.log('restart')
            self.z.stop()
            for f in list(self.flights):
                f.go.set()
            self.flights = []
            self.plan = {}
            for a in self.acc.values():
                self.die(a)
                a.set('E')
            time.sleep(.05)
            self.z.start()
            if r.random() < .3:
                return
        if not self.dumps:
            return
        d, m = r.choice(self.dumps[-3:] if not self.seq else self.dumps[-1:])
        if r.random() < .1:
            self.log('restore of a damaged dump')
            k = r.randrange(len(d))
            check(self.z.raw(b'restore:' + d[:k] + bytes([d[k] ^ (1 << r.randrange(8))]) + d[k + 1:]).startswith(b'error:'), 'a damaged dump is accepted')
            return
        self.log('restore')
        check(self.z.raw(b'restore:' + d) == b'ok:', 'restore')
        for n, a in self.acc.items():
            if a.k != 'A' and n in m and m[n][1] and all(m[n][0][k] == a.conf[k] for k in SEC):
                self.die(a)
                at, rt, exp = m[n][1]
                a.set('A', at=at, rt=rt, exp=exp, flight=None, fails=0)

    def op_expire(self):
        """a token that is about to expire, and the refresh the server starts by itself"""
        ps = [n for n, a in self.acc.items() if a.k == 'P']
        if not ps or self.r.random() < .3:
            return
        n = self.r.choice(ps)
        np = self.newplan

        def short(kind):
            self.n += 1
            return {'ok': True, 'at': f'AT{self.n}x', 'rt': f'RT{self.n}x', 'lost': False, 'exp': 2, 'reply': (200, token(f'AT{self.n}x', 2, f'RT{self.n}x'))}
        a = self.acc[n]
        self.newplan = short
        rt = f'RT{self.n + 1}x'
        # the refresh which follows by itself
        try:
            self.exchange_then(n, rt, np)
        finally:
            self.newplan = np

    def exchange_then(self, n, rt, np):
        a = self.acc[n]
        pr = np('refresh')
        rt = f'RT{self.n + 1}x'
        fl = Flight('refresh', n, None, pr, True)
        fl.form = dict(self.form(a), refresh_token=rt, grant_type='refresh_token')
        fl.path = a.conf['path']
        self.plan[('r', rt)] = fl
        t = time.time()
        self.exchange(n, False)
        check(fl.seen.wait(4), f'the token of {n} expires and is not refreshed')
        self.log(f'refresh of {n} by the server itself, reply {pr["reply"]} held back')
        check(time.time() - t > .7, 'refreshed too early')
        a.set('A', flight=fl)
        fl.gen = a.gen
        self.flights.append(fl)
        time.sleep(max(0, a.exp + .15 - time.time()))

    OPS = [('op_begin', 10), ('op_callback', 10), ('op_denied', 2), ('op_wrong', 4), ('op_refresh', 10), ('op_release', 8), ('op_revoke', 4), ('op_reload', 6), ('op_dump', 6), ('op_restore', 4), ('op_fails', 1), ('op_expire', 4)]

    # short sequences in which operations on one account meet
    THEN = {'op_dump': [['op_reload', 'op_restore'], ['op_revoke', 'op_begin', 'op_callback', 'op_restore', 'op_release'], ['op_revoke', 'op_reload', 'op_restore', 'op_reload', 'op_restore']],
            'op_callback': [['op_reload', 'op_release'], ['op_restore', 'op_release'], ['op_dump'], ['op_refresh', 'op_reload', 'op_release']],
            'op_refresh': [['op_reload', 'op_release'], ['op_restore', 'op_release'], ['op_revoke', 'op_restore', 'op_release'], ['op_revoke', 'op_begin', 'op_callback', 'op_release', 'op_release']],
            'op_begin': [['op_begin', 'op_wrong'], ['op_reload', 'op_callback']]}
    next, seq = (), False

    def step(self):
        self.quiet = False
        self.left -= 1
        self.seq = bool(self.next)
        o = self.next.pop(0) if self.next else self.r.choices([o for o, _ in self.OPS], [w for _, w in self.OPS])[0]
        if not self.next and o in self.THEN and self.r.random() < .5:
            act = [n for n, a in self.acc.items() if a.k == 'A' and (not a.flight or o == 'op_dump')]
            if o in ('op_dump', 'op_refresh') and act:
                self.focus, self.left, self.seq = self.r.choice(act), 12, True
            self.next = list(self.r.choice(self.THEN[o]))
        getattr(self, o)()
        self.verify(self.quiet)
        self.old_tokens()

    def old_tokens(self):
        """tokens with a short life are not left to the clock"""
        for n, a in self.acc.items():
            if a.k == 'A' and not a.flight and a.exp < time.time() + 30:
                self.op_refresh(n, False)
                if a.k == 'A' and a.exp < time.time() + 30:
                    check(self.z.req(f'revoke:{n}') == 'ok:', 'revoke')
                    a.set('E')
                    self.events.append(('token_revoked', n))
                self.verify()


def history(binary, seed, secs):
    """(number of steps, None | failure text)"""
    lines = []
    w = None
    steps = 0
    end = time.time() + secs
    try:
        w = World(binary, seed, lambda s: lines.append(s))
        while time.time() < end and steps < 2000:
            w.step()
            steps += 1
    except Fail as ex:
        return steps, f'history of seed {seed}:\n' + '\n'.join('  ' + x for x in lines[-40:]) + f'\nthen: {ex}'
    finally:
        if w is not None:
            w.close()
    return steps, None


def run_seeds(binary, ks, secs):
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(len(ks)) as ex:
        return list(zip(ks, ex.map(history, [binary] * len(ks), ks, [secs] * len(ks))))


def run(binary, seed, secs=40, par=8):
    return run_seeds(binary, [seed * 1000 + i for i in range(par)], secs)


if __name__ == '__main__':
    b, seed, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    rc = 0
    for k, (n, err) in run(b, seed, secs) if len(sys.argv) < 5 else run_seeds(b, [seed], secs):
        print(k, n, err or 'ok')
        rc |= bool(err)
    sys.exit(rc)

"""Drives the real pizauth binary: scratch directories, a mock OAuth2 token endpoint on loopback and
the control socket.  Self-contained (standard library only)."""
import base64
import hashlib
import http.server
import json
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import urllib.parse


class Fail(Exception):
    pass


def check(c, msg):
    if not c:
        raise Fail(msg)


def wait_for(f, secs=10.0, step=0.02):
    end = time.time() + secs
    while True:
        r = f()
        if r:
            return r
        if time.time() > end:
            return r
        time.sleep(step)


class Endpoint:
    """token endpoint: `reply` is called with (form dict, path) and returns (status, body) | 'reset' |
    'short' (truncated body); posts are logged"""

    def __init__(self):
        ep = self
        ep.posts = []
        ep.reply = lambda form, path: (200, token('at', 3600, 'rt'))
        ep.lock = threading.Lock()

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_POST(self):
                n = int(self.headers.get('Content-Length', '0'))
                raw = self.rfile.read(n).decode()
                form = dict(urllib.parse.parse_qsl(raw, keep_blank_values=True))
                with ep.lock:
                    ep.posts.append((time.time(), self.path, form))
                r = ep.reply(form, self.path)
                if r == 'reset':
                    self.close_connection = True
                    self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b'\1\0\0\0\0\0\0\0')
                    self.connection.close()
                    return
                if r == 'short':
                    self.wfile.write(b'HTTP/1.1 200 OK\r\nContent-Length: 500\r\n\r\n{"access')
                    self.wfile.flush()
                    self.connection.shutdown(socket.SHUT_WR)
                    self.close_connection = True
                    return
                st, body = r
                b = body.encode() if isinstance(body, str) else body
                self.send_response(st)
                self.send_header('Content-Type', 'application/json')
                self.send_header('Content-Length', str(len(b)))
                self.end_headers()
                self.wfile.write(b)

            do_GET = do_POST
        http.server.ThreadingHTTPServer.daemon_threads = True
        self.srv = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
        self.srv.handle_error = lambda *a: None
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, args=(0.05,), daemon=True).start()

    def url(self, path='/token'):
        return f'http://127.0.0.1:{self.port}{path}'

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()


def token(access, expires, refresh=None, **kw):
    d = {'access_token': access, 'expires_in': expires, 'token_type': 'Bearer'}
    if refresh is not None:
        d['refresh_token'] = refresh
    d.update(kw)
    return json.dumps(d)


def account(name, ep=None, **kw):
    """text of an account section; kw values are written verbatim"""
    d = {'auth_uri': '"http://127.0.0.1:9/auth"', 'token_uri': f'"{ep.url() if ep else "http://127.0.0.1:9/token"}"', 'client_id': '"cid"', 'scopes': '["s1", "s2"]'}
    d.update(kw)
    return f'account "{name}" {{\n' + ''.join(f'  {k} = {v};\n' for k, v in d.items() if v is not None) + '}\n'


class Pizauth:
    def __init__(self, binary, conf, env=None, start=True):
        self.bin = binary
        self.dir = tempfile.mkdtemp(prefix='pz')
        os.mkdir(self.dir + '/run', 0o700)
        os.mkdir(self.dir + '/conf')
        self.confp = self.dir + '/conf/pizauth.conf'
        self.env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': self.dir, 'XDG_RUNTIME_DIR': self.dir + '/run', 'XDG_CONFIG_HOME': self.dir + '/conf',
                    'SHELL': '/bin/sh', 'TMPDIR': self.dir, 'D': self.dir, 'TZ': 'UTC'}
        self.env.update(env or {})
        self.sock = self.dir + '/run/pizauth/pizauth.sock'
        self.proc = None
        self.log = self.dir + '/log'
        self.write(conf)
        if start:
            self.start()

    def write(self, conf):
        with open(self.confp, 'w') as f:
            f.write(conf.replace('@D@', self.dir))

    def start(self):
        self.proc = subprocess.Popen([self.bin, 'server', '-d', '-vvvv', '-c', self.confp], env=self.env, cwd=self.dir,
                                     stdin=subprocess.DEVNULL, stdout=open(self.log, 'ab'), stderr=subprocess.STDOUT, start_new_session=True)

        def up():
            if self.proc.poll() is not None:
                return True
            try:
                s = socket.socket(socket.AF_UNIX)
                s.connect(self.sock)
                s.close()
                return True
            except OSError:
                return False
        if not wait_for(up, 15) or self.proc.poll() is not None:
            raise Fail('the server does not start: ' + open(self.log).read()[-500:])
        i = json.loads(self.req('info:'))
        self.http = int(i['http_port']) if i['http_port'] != 'none' else None
        self.https = int(i['https_port']) if i['https_port'] != 'none' else None

    def stop(self):
        if self.proc:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
            self.proc = None

    def close(self):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def alive(self):
        return self.proc.poll() is None and self.panics() == ''

    def pause(self, secs):
        """stop the server for a while"""
        self.proc.send_signal(signal.SIGSTOP)
        time.sleep(secs)
        self.proc.send_signal(signal.SIGCONT)

    def panics(self):
        t = open(self.log, errors='replace').read()
        i = t.find('panicked at')
        return t[i:i + 300] if i >= 0 else ''

    def file(self, name):
        try:
            return open(os.path.join(self.dir, name)).read()
        except OSError:
            return ''

    # ---- control socket --------------------------------------------------------
    def raw(self, data, timeout=20):
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(timeout)
        try:
            s.connect(self.sock)
            s.sendall(data if isinstance(data, bytes) else data.encode())
            s.shutdown(socket.SHUT_WR)
            out = b''
            while True:
                b = s.recv(65536)
                if not b:
                    return out
                out += b
        except socket.timeout:
            raise Fail(f'no reply to {data[:40]!r} within {timeout} s')
        except OSError as ex:
            raise Fail(f'the server does not answer {data[:40]!r}: {ex}; {self.panics()}')
        finally:
            s.close()

    def req(self, data, timeout=20):
        return self.raw(data, timeout).decode(errors='replace')

    def cli(self, *args, stdin=b'', timeout=20, stdout=subprocess.PIPE):
        r = subprocess.run([self.bin, *args], env=self.env, cwd=self.dir, input=stdin, stdout=stdout, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout, r.stderr

    def show(self, name):
        return self.req(f'showtoken:withurl {name}')

    def status(self):
        r = self.req('status:')
        check(r.startswith('ok:'), f'status says {r[:200]!r}')
        return dict(l.split(': ', 1) for l in r[3:].split('\n'))

    def reload(self, conf):
        self.write(conf)
        return self.req('reload:')

    # ---- authentication ----------------------------------------------------------
    def begin(self, name):
        """start an authentication: the URL and its parameters"""
        r = self.show(name)
        check(r.startswith('pending:'), f'show {name} says {r[:200]!r}')
        self.ready(name)
        return self.params(r[8:])

    def ready(self, name):
        """noting when an authentication was announced is a change of its own: wait for it"""
        wait_for(lambda: 'last notification' in self.status().get(name, ''), 1)

    @staticmethod
    def params(url):
        u = urllib.parse.urlparse(url)
        d = urllib.parse.parse_qs(u.query, keep_blank_values=True)
        return url, {k: v for k, v in d.items()}

    def callback(self, state, code='code1', host='localhost', port=None, path='/', extra='', header_host=None, wait=True):
        q = '?' + '&'.join(x for x in ([f'state={urllib.parse.quote(state)}'] if state is not None else []) + ([f'code={code}'] if code is not None else []) + ([extra] if extra else []))
        h = header_host if header_host is not None else f'{host}:{port or self.http}'
        return self.http_raw(f'GET {path}{q} HTTP/1.1\r\nHost: {h}\r\n\r\n'.encode(), port=None)

    def http_raw(self, data, port=None, timeout=20, half=False):
        s = socket.create_connection(('127.0.0.1', port or self.http), timeout=timeout)
        try:
            s.sendall(data)
            if half:
                s.shutdown(socket.SHUT_WR)
            out = b''
            while True:
                b = s.recv(65536)
                if not b:
                    break
                out += b
            return out.decode(errors='replace')
        except (BrokenPipeError, ConnectionResetError):
            return ''
        except socket.timeout:
            raise Fail('the HTTP listener does not answer')
        finally:
            s.close()

    def login(self, name, code='code1'):
        """a complete authentication"""
        url, q = self.begin(name)
        self.callback(q['state'][0], code)
        r = wait_for(lambda: (lambda x: x if x.startswith('access_token:') or x.startswith('error:') else '')(self.show(name)), 10)
        check(r, f'authentication of {name} does not complete: {self.show(name)[:200]}')
        return r

    def events(self):
        return [tuple(l.split(' ', 1)) for l in self.file('events').split('\n') if l]

    EVCMD = 'token_event_cmd = "echo $PIZAUTH_EVENT $PIZAUTH_ACCOUNT >> @D@/events";\n'


def challenge(verifier):
    return base64.urlsafe_b64encode(hashlib.sha256(verifier.encode()).digest()).rstrip(b'=').decode()

"""Everything between /repo's source and the properties: build the MIR, run the entry points,
cut their executions into critical sections, discharge obligations in parallel."""
import fcntl
import glob
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import z3
from mir import Prog, Unsupported
from engine import Eng, St, Panic, Ret, Stop
from lstate import LState
from values import *
from models import I, B, F, told_init
import loopinv
import confinv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
REPO = os.environ.get('PIZ_REPO', '/repo')
MAIN = 'AuthenticatorState.locked_state'
NPROC = int(os.environ.get('PIZ_JOBS', '8'))


class BuildFailed(Exception):
    pass


def build_mir():
    """compile the extractor when needed and run it on /repo's working tree"""
    if os.environ.get('PIZ_MIR'):
        return os.environ['PIZ_MIR']
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ)
        env['PATH'] = '/root/.cargo/bin:' + env['PATH']
        for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN'):
            env.pop(k, None)
        env['CARGO_NET_OFFLINE'] = 'true'
        e1 = dict(env, CARGO_TARGET_DIR=os.path.join(CACHE, 'drv'))
        r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=os.path.join(VERIF, 'driver'), env=e1,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildFailed('extractor: ' + r.stdout[-3000:])
        nt = os.path.join(CACHE, 'nt')
        for f in glob.glob(os.path.join(nt, 'debug/.fingerprint/pizauth-*')) + glob.glob(os.path.join(nt, 'debug/build/pizauth/*/fingerprint')):
            for g in glob.glob(os.path.join(f, '*bin-pizauth*')):
                if os.path.isdir(g):
                    shutil.rmtree(g, ignore_errors=True)
                else:
                    os.unlink(g)
        lib = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=env, stdout=subprocess.PIPE, text=True).stdout.strip() + '/lib'
        out = tempfile.mktemp(prefix='mir', suffix='.json', dir=CACHE)
        e2 = dict(env, CARGO_TARGET_DIR=nt, MIRDUMP_CRATE='pizauth', MIRDUMP_OUT=out, LD_LIBRARY_PATH=lib,
                  RUSTC_WORKSPACE_WRAPPER=os.path.join(CACHE, 'drv/debug/mirdump'))
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline'], cwd=REPO, env=e2,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(out):
            raise BuildFailed('pizauth: ' + r.stdout[-3000:])
    return out


class Ctx:
    """one engine over one extracted program"""

    def __init__(self, path):
        self.P = Prog(path)
        self.e = Eng(self.P)
        self.L = LState(self.e)
        self.e.L = self.L
        self.e.lock_content = self.L.lock_content
        self.e.opaque = self.L.helpers()
        for i in self.L.config_fns():
            self.e.contracts[i] = self.L.config_contract
        self.e.loop_inv = [loopinv.gen(self.L), confinv.gen(self.L)]
        self.M = self.e.models
        for i in self.e.opaque:
            self.e.opaque[i] = self.helper_contract(i)
        self.folders, self.servers = self.find_client_callees()
        for i in self.folders:
            self.e.contracts[i] = self.folder_contract
        for i in self.servers:
            self.e.contracts[i] = self.server_contract
        self.acctreaders = self.find_acctreaders()
        for i in self.acctreaders:
            self.e.contracts[i] = self.account_contract
        self.decoders = self.find_decoders()
        for i in self.decoders:
            self.e.contracts[i] = self.decode_contract
        self.parsers = self.find_parsers()
        for i in self.parsers:
            self.e.contracts[i] = self.parse_contract

    # ---- contracts of what `main` calls: finding its folders, and being the server ----
    def find_client_callees(self):
        P = self.P
        fo, se = [], []
        for i, f in self.piz():
            if '{closure' in f['name']:
                continue
            t = P.types[P.strip(f['body']['locals'][0])]
            if t['k'] != 'adt':
                continue
            an = self.argnames(i)
            if t['name'].endswith('path::PathBuf') and set(an) <= {'Matches'}:
                fo.append(i)
            elif t['name'].endswith('result::Result') and 'Config' in an and P.types[P.strip(t['args'][0])]['k'] == 'tuple':
                se.append(i)
        return fo, se

    def folder_contract(self, eng, fid, args, st):
        """some path, or a failing exit with a message"""
        n = self.P.fns[fid]['name'].split('::')[-1]
        s2 = st.copy()
        eng.event(s2, 'eprint', data=Rope([z3.Const('folder_message', Str)]))
        eng.event(s2, 'exit', code=1)
        return [(st, Ret(Rope([z3.Const('path:' + n, Str)]))), (s2, Stop('exit'))]

    def server_contract(self, eng, fid, args, st):
        rt = self.P.fns[fid]['body']['locals'][0]
        s2 = st.copy()
        eng.event(st, 'served', ok=True)
        eng.event(s2, 'served', ok=False)
        return [(st, Ret(self.M.ok(Agg(None, 0, ()), rt))), (s2, Ret(self.M.err(Nat('err', msg=Rope([z3.Const('servererr', Str)])), rt)))]

    # ---- contract of the reader of one account: an error, or an account of that name ---------
    def find_acctreaders(self):
        P = self.P
        out = []
        for i, f in self.piz():
            if not f['name'].startswith('pizauth::config::') or '{closure' in f['name']:
                continue
            t = P.types[P.strip(f['body']['locals'][0])]
            if t['k'] == 'adt' and t['name'].endswith('result::Result') and P.strip(t['args'][0]) == self.L.accty and len(self.names_of(i)) == 1:
                out.append(i)
        return out

    def names_of(self, fid):
        b = self.P.fns[fid]['body']
        return [n for n in range(b['argc']) if self.P.sort(b['locals'][n + 1]) == Str]

    def account_contract(self, eng, fid, args, st):
        P, L = self.P, self.L
        rt = P.fns[fid]['body']['locals'][0]
        nm = args[self.names_of(fid)[0]]
        nm = eng.deref(st, nm) if isinstance(nm, MutRef) else nm
        s2 = st.copy()
        a = eng.fresh(st, self.M.okty(rt), 'account')
        t = eng.to_term(a, self.M.okty(rt))
        eng.assume(st, L.a_name(t) == rope(nm).term(), *[confinv.http_uri(P, L.a_field(t, f)) for f in ('auth_uri', 'redirect_uri', 'token_uri')])
        return [(st, Ret(self.M.ok(a, rt))), (s2, Ret(self.M.err(eng.fresh(s2, self.M.errty(rt), 'accterr'), rt)))]

    # ---- contracts of the decoders of texts in a configuration: some text, or some time ------
    def find_decoders(self):
        P = self.P
        return [i for i, f in self.piz() if f['name'].startswith('pizauth::config::') and '{closure' not in f['name'] and self.argnames(i) == ['str']
                and (P.sort(f['body']['locals'][0]) == Str or 'Result<' in P.tname(P.strip(f['body']['locals'][0])))]

    def decode_contract(self, eng, fid, args, st):
        P = self.P
        rt = P.fns[fid]['body']['locals'][0]
        t = args[0]
        t = rope(eng.deref(st, t) if isinstance(t, MutRef) else t).term()
        if P.sort(rt) == Str:
            return [(st, Ret(Rope([F('decoded', Str, Str)(t)])))]
        s2 = st.copy()
        eng.assume(st, F('time_ok', Str, B)(t))
        eng.assume(s2, z3.Not(F('time_ok', Str, B)(t)))
        v = eng.fresh(st, self.M.okty(rt), 'time')
        eng.assume(st, zint(v) == F('time_of', Str, I)(t))
        return [(st, Ret(self.M.ok(v, rt))), (s2, Ret(self.M.err(eng.fresh(s2, self.M.errty(rt), 'timeerr'), rt)))]

    # ---- contract of the HTTP request reader: an error, or some URL ------
    def find_parsers(self):
        P = self.P
        out = []
        for i, f in self.piz():
            if '{closure' in f['name']:
                continue
            t = P.types[P.strip(f['body']['locals'][0])]
            if t['k'] == 'adt' and t['name'].endswith('result::Result') and P.tname(P.strip(t['args'][0])) == 'Url' \
                    and any(a in ('TcpStream', 'Stream') for a in self.argnames(i)):
                out.append(i)
        return out

    def parse_contract(self, eng, fid, args, st):
        rt = self.P.fns[fid]['body']['locals'][0]
        s2 = st.copy()
        ut = self.P.types[self.P.strip(rt)]['args'][0]
        u = eng.fresh(st, ut, 'requesturl')
        er = z3.Const(fresh_name('parseerr'), Str)
        eng.event(st, 'parsed', url=u)
        eng.event(s2, 'parsed', url=None)
        return [(st, Ret(self.M.ok(u, rt))), (s2, Ret(self.M.err(Nat('err', msg=Rope([er])), rt)))]

    def callers(self, fid):
        """functions of this crate which call fid themselves (a closure counts for its function)"""
        if not hasattr(self, 'callees'):
            self.callees = {}
            for i, f in self.piz():
                todo, cs = [f['body']], set()
                while todo:
                    x = todo.pop()
                    if isinstance(x, dict):
                        todo += x.values()
                    elif isinstance(x, (list, tuple)):
                        if len(x) == 2 and x[0] == 'fn' and isinstance(x[1], int):
                            cs.add(x[1])
                        todo += x
                for c in cs:
                    self.callees.setdefault(c, set()).add(f['name'].split('::{closure')[0])
        return self.callees.get(fid, set())

    def outermost(self, cands):
        """the candidates which are not merely parts of other candidates"""
        names = {self.P.fns[i]['name'] for i in cands}
        return [i for i in cands if self.callers(i) - names] or list(cands)

    helper_contracts = []       # property modules add (ctx, fid) -> contract | None

    def helper_contract(self, i):
        for h in Ctx.helper_contracts:
            c = h(self, i)
            if c is not None:
                return c
        return None

    # ---- entry points, by name first and by signature otherwise ---------
    def by_name(self, *names):
        P = self.P
        out = []
        for n in names:
            out += [i for i, f in enumerate(P.fns) if f['body'] and (f['name'] == 'pizauth::' + n)]
        return out

    def piz(self):
        for i, f in enumerate(self.P.fns):
            if f['body'] and f['name'].startswith('pizauth::'):
                yield i, f

    def ups(self, fid):
        """short names of the captured types of a closure"""
        P = self.P
        b = P.fns[fid]['body']
        if b['argc'] < 1:
            return None
        t = P.types[P.strip(b['locals'][1])]
        if t['k'] != 'closure':
            return None
        return sorted(P.tname(P.strip(x)).split('<')[0] for x in t['f'])

    def argnames(self, fid):
        P = self.P
        b = P.fns[fid]['body']
        return [P.tname(P.strip(b['locals'][n + 1])).split('<')[0] for n in range(b['argc'])]

    def closures(self, ups, within=None):
        """thread bodies: closures of no argument capturing exactly these types"""
        return [i for i, f in self.piz() if f['body']['argc'] == 1 and self.ups(i) == sorted(ups)
                and (within is None or within in f['name'])]

    def entry(self, role):
        P = self.P
        r = []
        if role == 'ctl':
            r = [i for i, f in self.piz() if '{closure' not in f['name'] and 'UnixStream' in self.argnames(i) and 'AuthenticatorState' in self.argnames(i)]
        elif role in ('http', 'https'):
            s = 'TcpStream' if role == 'http' else 'Stream'
            r = [i for i, f in self.piz() if '{closure' not in f['name'] and s in self.argnames(i) and 'AuthenticatorState' in self.argnames(i)]
            r = [i for i in r if P.fns[i]['name'] == 'pizauth::server::http_server::request'] or r
        elif role == 'refresh':
            r = self.closures(['AuthenticatorState', 'Refresher', 'AccountId'])
        elif role == 'refresher':
            r = self.closures(['AuthenticatorState', 'Refresher'])
        elif role == 'notifier':
            r = self.closures(['AuthenticatorState', 'Notifier'])
        elif role == 'eventer':
            r = self.closures(['AuthenticatorState', 'Eventer'])
        elif role in ('dump', 'restore', 'new', 'fail'):
            n = {'dump': 'server::state::AuthenticatorState::dump', 'restore': 'server::state::AuthenticatorState::restore',
                 'new': 'server::state::AuthenticatorState::new', 'fail': 'server::http_server::fail'}[role]
            a = {'dump': ['AuthenticatorState'], 'restore': ['AuthenticatorState', 'Vec'], 'new': None, 'fail': ['AuthenticatorState', 'AccountId', 'str']}[role]
            r = self.by_name(n) or ([i for i, f in self.piz() if '{closure' not in f['name'] and self.argnames(i) == a and 'Result' in P.tname(P.strip(f['body']['locals'][0]))] if a else [])
        elif role == 'client':
            r = self.by_name('main')
        elif role == 'folders':
            r = list(self.folders)
        elif role == 'config':
            r = [i for i in self.L.config_fns() if 'str' in self.argnames(i)]
        elif role == 'account':
            r = list(self.acctreaders)
        elif role == 'parse':
            r = list(self.parsers)
        elif role == 'helpers':
            return sorted(self.e.opaque)
        else:
            r = self.by_name(*role.split('|'))
        if not r:
            raise Unsupported(f'no function found for the entry {role}')
        return r

    def arg(self, st, t, n):
        e, P, L = self.e, self.P, self.L
        x = P.types[P.strip(t)]
        if L.guard_ty(t):
            ty = P.variants(P.strip(t))[0][2][0][1]
            e.fstack.append(('entry', 0))
            g = e.lock(st, Nat('mutex', name=MAIN, ty=L.ls))
            e.fstack.pop()
            v = Agg(P.strip(t), 0, [g])
            if P.types[t]['k'] == 'ref' and P.types[t]['mut']:
                loc = ('heap', fresh_loc('ctg'))
                st.store[loc] = v
                return MutRef(loc)
            return v
        v = e.fresh(st, t, n)
        if x['k'] == 'adt' and P.strip(t) == L.idty:
            self.note_id(st, v)
        if x['k'] == 'closure':
            for a in v.f:
                if isinstance(a, Dt) and a.tid == L.idty:
                    self.note_id(st, a)
        return v

    def note_id(self, st, v):
        """versions handed to an entry point were current at some time in the past"""
        L, e = self.L, self.e
        c = L.id_of(v.t)
        st.gr['ids'] = st.gr.get('ids', ()) + (c,)
        if MAIN in st.held:
            e.assume(st, c >= 0, c < L.parts(st.store[('mutex', MAIN)])[0])

    def is_worker(self, fid):
        u = self.ups(fid)
        return u is not None and 'AuthenticatorState' in u and ('Refresher' in u or 'Notifier' in u) and 'AccountId' not in u

    def pstate(self, args):
        """the shared server state among the arguments of an entry point"""
        todo = list(args)
        while todo:
            v = todo.pop(0)
            if isinstance(v, Agg) and v.tid is not None:
                t = self.P.types[v.tid]
                if t['k'] == 'adt' and t['name'].endswith('::AuthenticatorState'):
                    return v
                todo += v.f
        return None

    def ports(self, args):
        """(HTTP port, HTTPS port) of the shared state: terms of Option<u16>"""
        ps = self.pstate(args)
        if ps is None:
            return None
        out = {}
        for n, (fn, ft) in enumerate(self.P.variants(ps.tid)[0][2]):
            if fn in ('http_port', 'https_port'):
                out[fn] = (self.e.to_term(self.e.field(ps, n), ft), self.P.strip(ft))
        if len(out) != 2:
            return None
        return out['http_port'], out['https_port']

    def startup(self, st, args):
        """established before the shared state exists: at least one listener has a port"""
        pp = self.ports(args)
        if pp:
            cs = []
            for t, ty in pp:
                vs = self.P.variants(ty)
                k = [n for n, v in enumerate(vs) if v[0] == 'Some'][0]
                cs.append(self.P.dt(ty)[1][k][1](t))
            self.e.assume(st, z3.Or(*cs))

    def run(self, fid, args=None, st=None, nocontract=False):
        e = self.e
        b = self.P.fns[fid]['body']
        st = st or St()
        if args is None:
            args = [self.arg(st, b['locals'][n + 1], f'a{n}') for n in range(b['argc'])]
            if fid in e.opaque:
                # its precondition: the version is current (an obligation wherever it is called)
                for a in args:
                    a = e.deref(st, a) if isinstance(a, MutRef) else a
                    if isinstance(a, Dt) and a.tid == self.L.idty:
                        S = st.store[('mutex', MAIN)]
                        self.L.touch_id(st, S, self.L.id_of(a.t))
                        e.assume(st, self.L.has_id(S, self.L.id_of(a.t))[0])
        if self.is_worker(fid):
            told_init(st)
        self.startup(st, args)
        e.npaths = 0
        e.obl = []
        e.solver.reset()
        sv = e.contracts.pop(fid, None)
        e.solver.calls, e.solver.time = 0, 0.0
        t = time.time()
        res = e.exec_fn(fid, args, st)
        if sv:
            e.contracts[fid] = sv
        return Run(self, fid, args, res, list(e.obl), time.time() - t)


class Sec:
    """one critical section of the global lock: everything from acquiring it to releasing it"""

    def __init__(self, lock, unlock, idx):
        self.lock, self.unlock, self.idx = lock, unlock, idx
        self.pre, self.post, self.snap = lock.content, unlock.content, unlock.a['snap']


class Path:
    def __init__(self, n, st, out, secs, open_lock):
        self.n, self.st, self.out, self.secs, self.open_lock = n, st, out, secs, open_lock


class Run:
    def __init__(self, ctx, fid, args, res, obl, wall):
        self.ctx, self.fid, self.args, self.obl, self.wall = ctx, fid, args, obl, wall
        self.name = ctx.P.fns[fid]['name']
        self.paths = []
        self.secs = []
        seen = {}
        for n, (st, out) in enumerate(res):
            secs, cur = [], None
            for ev in st.tr:
                if ev.k == 'lock' and ev.name == MAIN:
                    cur = ev
                elif ev.k == 'unlock' and ev.name == MAIN and cur is not None:
                    s = seen.get(id(ev))
                    if s is None:
                        s = seen[id(ev)] = Sec(cur, ev, len(secs))
                        s.prev = secs[-1] if secs else None
                        s.path = n
                        self.secs.append(s)
                    secs.append(s)
                    cur = None
            self.paths.append(Path(n, st, out, secs, cur))

    def taints(self):
        return sorted({t for p in self.paths for t in p.st.taint})


class Ob:
    """an obligation: in state st, goal holds.  `key` names it in reports."""
    __slots__ = ('name', 'st', 'goal', 'info')

    def __init__(self, name, st, goal=None, info=None):
        self.name, self.st, self.goal, self.info = name, st, goal, info


def discharge(e, ob, timeout=15000):
    """('ok' | 'fail' | 'unknown' | 'tainted', detail)"""
    if callable(ob.st):
        ob.st, ob.goal = ob.st()        # built in the worker that discharges it
    g = ob.goal
    if g is True:
        return 'ok', 'structural'
    if g is False:
        g = z3.BoolVal(False)
    st = ob.st
    if z3.is_true(g):
        return 'ok', 'structural'
    if g.get_id() in st.pcs:
        return 'ok', 'path'
    fs = [e.solver.litax()] + st.pc + [z3.Not(g)]
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    s.add(*fs)
    c = s.check()
    if c == z3.unsat:
        return 'ok', 'z3'
    if c == z3.unknown:
        s2 = z3.Solver()
        s2.set('timeout', timeout)
        s2.add(*fs)
        c2 = s2.check()
        if c2 == z3.unsat:
            return 'ok', 'z3'
        if c2 == z3.unknown:
            return 'unknown', 'solver gave up: ' + s2.reason_unknown()
        s = s2
    if saturate(e, st):
        return discharge(e, ob, timeout)
    m = s.model()
    d = model_text(m)
    if st.taint or 'weak' in st.gr:
        return 'tainted', 'outside the modelled library: ' + ', '.join(sorted(st.taint)) + '\n' + d
    return 'fail', d


def saturate(e, st):
    """before believing a countermodel, instantiate the table facts at every row index mentioned"""
    if 'saturated' in st.gr:
        return False
    st.gr['saturated'] = (z3.BoolVal(True),)
    tags = {t for t, _ in st.uni}
    ixs = [t for t in tags if t[0] == 'ix']
    keys = [t for t in tags if t[0] == 'key']
    n0 = len(st.pc)
    for grp in (ixs, keys):
        terms = []
        for t in grp:
            terms += st.gr.get(t, ())
        uniq = {x.get_id(): x for x in terms}
        if len(uniq) > 40:
            continue
        for t in grp:
            for x in uniq.values():
                if len(st.pc) > n0 + 3000:
                    return True
                e.add_term(st, t, x)
    return len(st.pc) > n0


def model_text(m):
    out = []
    for d in m.decls():
        if d.arity() == 0:
            v = str(m[d])
            n = d.name()
            if n.startswith('lit:') or len(v) > 400:
                continue
            out.append(f'{n} = {v}')
    return '\n'.join(sorted(out)[:120])


# ---- parallel discharge ----------------------------------------------------
def fork_map(n, jobs, worker, timeout):
    """worker(k) for k in range(n), in forked children; the results in order (None = lost)"""
    res = [None] * n
    live = {}
    nxt = 0
    t_end = time.time() + timeout
    while nxt < n or live:
        while nxt < n and len(live) < jobs:
            fd, path = tempfile.mkstemp(prefix='piz')
            os.close(fd)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    try:
                        r = ('ok', worker(nxt))
                    except Unsupported as ex:
                        r = ('unsupported', str(ex)[:500])
                    except RecursionError:
                        r = ('unsupported', 'recursion limit')
                    except Exception as ex:
                        r = ('error', traceback.format_exc()[-2000:])
                    with open(path, 'wb') as f:
                        pickle.dump(r, f)
                except BaseException:
                    rc = 3
                finally:
                    os._exit(rc)
            live[pid] = (nxt, path)
            nxt += 1
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > t_end:
                for p in live:
                    try:
                        os.kill(p, 9)
                    except ProcessLookupError:
                        pass
                for p in list(live):
                    os.waitpid(p, 0)
                    k, path = live.pop(p)
                    res[k] = ('unsupported', 'time budget exhausted')
                    os.unlink(path)
                for k in range(nxt, n):
                    res[k] = ('unsupported', 'time budget exhausted')
                break
            time.sleep(0.01)
            continue
        if pid in live:
            k, path = live.pop(pid)
            try:
                with open(path, 'rb') as f:
                    res[k] = pickle.load(f)
            except Exception:
                res[k] = ('unsupported', 'worker ended without a result (memory?)')
            os.unlink(path)
    return res

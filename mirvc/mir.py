"""MIR program: loaded from the JSON that driver/ emits for /repo's current source."""
import json
import z3

Str = z3.DeclareSort('Str')          # strings and byte strings
UNIT = None


class Unsupported(Exception):
    pass


class Prog:
    def __init__(self, path):
        m = json.load(open(path))
        self.types = m['types']
        self.fns = m['fns']
        self.roots = m['roots']
        self.by_name = {}
        for i, f in enumerate(self.fns):
            self.by_name.setdefault(f['name'], []).append(i)
        self._sorts = {}
        self._dts = {}
        self._loops = {}
        self._adt_by_name = {}
        for i, t in enumerate(self.types):
            if t and t['k'] == 'adt':
                self._adt_by_name.setdefault(t['name'], []).append(i)

    # ---- lookup -------------------------------------------------------
    def fn(self, suffix, arg_filter=None):
        """id of the unique body-carrying fn whose path is pizauth::<suffix>, or None."""
        name = 'pizauth::' + suffix
        c = [i for i in self.by_name.get(name, []) if self.fns[i]['body']]
        if arg_filter:
            c = [i for i in c if arg_filter(self.fns[i])]
        return c[0] if c else None

    def adt(self, name):
        c = self._adt_by_name.get(name, [])
        return c[0] if c else None

    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        t = self.types[i]
        k = t['k']
        if k == 'adt':
            a = [self.tname(x) for x in t['args'] if isinstance(x, int)]
            return t['name'].split('::')[-1] + ('<' + ','.join(a) + '>' if a else '')
        if k in ('ref', 'ptr'):
            return '&' + self.tname(t['e'])
        if k == 'tuple':
            return '(' + ','.join(self.tname(x) for x in t['f']) + ')'
        if k == 'int':
            return ('i' if t['s'] else 'u') + str(t['w'])
        if k in ('slice', 'array'):
            return '[' + self.tname(t['e']) + ']'
        return t.get('n', k)

    def find_type(self, pred):
        for i, t in enumerate(self.types):
            if t and pred(t):
                return i
        return None

    def strip(self, i):
        """look through &, Box, Arc, MaybeUninit-free wrappers"""
        while True:
            t = self.types[i]
            if t['k'] in ('ref', 'ptr'):
                i = t['e']
            elif t['k'] == 'adt' and (t['box'] or t['name'] in ('std::sync::Arc', 'alloc::sync::Arc')):
                i = t['args'][0]
            else:
                return i

    STRS = {'std::string::String', 'alloc::string::String', 'std::path::PathBuf', 'std::path::Path',
            'std::ffi::OsString', 'std::ffi::OsStr', 'std::ffi::os_str::OsStr'}
    INTLIKE = {'std::time::Duration', 'core::time::Duration', 'std::time::Instant', 'std::time::SystemTime',
               'boot_time::Instant', 'boot_time::Duration'}

    def is_bytes(self, i):
        t = self.types[i]
        return t['k'] == 'int' and t['w'] == 8 and not t['s']

    def is_str(self, i):
        i = self.strip(i)
        t = self.types[i]
        if t['k'] == 'str':
            return True
        if t['k'] in ('slice', 'array') and self.is_bytes(t['e']):
            return True
        if t['k'] == 'adt':
            if t['name'] in self.STRS:
                return True
            if t['name'] in ('std::vec::Vec', 'alloc::vec::Vec') and self.is_bytes(t['args'][0]):
                return True
            if t['name'] in ('std::borrow::Cow', 'alloc::borrow::Cow'):
                return self.is_str(t['args'][0])
        return False

    def is_vec(self, i):
        """element type if Vec/slice/array of non-bytes"""
        i = self.strip(i)
        t = self.types[i]
        if t['k'] in ('slice', 'array') and not self.is_bytes(t['e']):
            return t['e']
        if t['k'] == 'adt' and t['name'] in ('std::vec::Vec', 'alloc::vec::Vec') and not self.is_bytes(t['args'][0]):
            return t['args'][0]
        return None

    def is_map(self, i):
        i = self.strip(i)
        t = self.types[i]
        if t['k'] == 'adt' and t['name'].endswith('::HashMap') or t['k'] == 'adt' and t['name'].endswith('::BTreeMap'):
            return t['args'][0], t['args'][1]
        return None

    # ---- sorts --------------------------------------------------------
    def sort(self, i):
        i = self.strip(i)
        if i in self._sorts:
            return self._sorts[i]
        s = self._sort(i)
        self._sorts[i] = s
        return s

    def _sort(self, i):
        t = self.types[i]
        k = t['k']
        if k == 'bool':
            return z3.BoolSort()
        if k in ('int', 'char'):
            return z3.IntSort()
        if self.is_str(i):
            return Str
        e = self.is_vec(i)
        if e is not None:
            return z3.DeclareSort('Vec_' + self.tname(e))
        if k == 'adt':
            if t['name'] in self.INTLIKE:
                return z3.IntSort()
            if t['exp']:
                return self.dt(i)[0]
            return z3.DeclareSort('Op_' + self.tname(i))
        if k == 'tuple':
            return self.dt(i)[0]
        if k in ('dyn', 'other', 'alias', 'float', 'fnptr', 'fndef', 'never'):
            return z3.DeclareSort('Op_' + self.tname(i)[:80])
        raise Unsupported('no sort for ' + self.tname(i))

    def variants(self, i):
        """list of (name, discr, [(fname, fty)])"""
        t = self.types[i]
        if t['k'] == 'tuple':
            return [('tuple', 0, [(str(n), f) for n, f in enumerate(t['f'])])]
        if t['k'] == 'closure':
            return [('closure', 0, [(str(n), f) for n, f in enumerate(t['f'])])]
        return [(v['n'], int(v['d']), [(f['n'], f['t']) for f in v['f']]) for v in t['v']]

    def dt(self, i):
        """z3 datatype for a struct/enum/tuple: (sort, [ (ctor, recognizer, [accessors]) ])"""
        i = self.strip(i)
        if i in self._dts:
            return self._dts[i]
        nm = self.tname(i) + '#' + str(i)
        d = z3.Datatype(nm)
        vs = self.variants(i)
        for vn, _, fs in vs:
            d.declare(f'{nm}.{vn}', *[(f'{nm}.{vn}.{fn}', self.sort(ft)) for fn, ft in fs])
        if not vs:
            raise Unsupported('empty type ' + nm)
        s = d.create()
        r = (s, [(s.constructor(n), s.recognizer(n), [s.accessor(n, m) for m in range(len(vs[n][2]))])
                 for n in range(len(vs))])
        self._dts[i] = r
        return r

    # ---- control flow -------------------------------------------------
    def succs(self, b):
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'sw':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'assert':
            return [t[4]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    def loops(self, fid):
        """{head: set(blocks)} natural loops"""
        if fid in self._loops:
            return self._loops[fid]
        body = self.fns[fid]['body']
        bl = body['blocks']
        preds = {}
        state = {}
        back = []
        stack = [(0, iter(self.succs(bl[0])))]
        state[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                preds.setdefault(s, set()).add(n)
                if state.get(s) is None:
                    state[s] = 1
                    stack.append((s, iter(self.succs(bl[s]))))
                    break
                elif state[s] == 1:
                    back.append((n, s))
            else:
                state[n] = 2
                stack.pop()
        res = {}
        for n, h in back:
            blocks = res.setdefault(h, {h})
            w = [n]
            while w:
                x = w.pop()
                if x in blocks:
                    continue
                blocks.add(x)
                w.extend(preds.get(x, ()))
        self._loops[fid] = res
        return res

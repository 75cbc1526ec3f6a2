"""Contracts of the reader of configurations."""
import z3
from mir import Unsupported
from values import *
from props import *
from props import prop, evs, at_end
from engine import Ret, Panic
from base import Ob
from props7 import weak
import confinv
from confinv import given, given_time, given_flag, http_uri, scheme, url_sort, snake


def oks(ctx, run):
    """[(path, what is accepted)]"""
    for p in run.paths:
        if isinstance(p.out, Ret):
            v = p.out.v
            if not isinstance(v, Agg):
                raise Unsupported('a result of another shape')
            if ctx.P.variants(v.tid)[v.var][0] == 'Ok':
                yield p, v.f[0]


def panics(run):
    return [Ob(f'a configuration is accepted or rejected, and nothing else: {str(p.out)[:90]}', p.st, False) for p in run.paths if isinstance(p.out, Panic)]


def settings_of(ctx, tid):
    """{field of the result: variant of the syntax} by name"""
    out = {}
    for i, t in enumerate(ctx.P.types):
        if t.get('k') == 'adt' and t['name'].startswith('pizauth::config_ast::'):
            for _, n, _ in confinv.span_variants(ctx.P, i):
                out.setdefault(t['name'].split('::')[-1], {})[snake(n)] = n
    return out


def opt_term(ctx, e, v):
    """(there is a value, the value) of an Option"""
    i = [n for n, x in enumerate(ctx.P.variants(v.tid)) if x[0] == 'Some'][0]
    c = e.is_variant(v, i)
    return zbool(c), (None if c is False else e.field(v, 0, i))


# defaults the documentation gives (pizauth.conf.5)
DEFAULT = {'redirect_uri': 'http://localhost/', 'http_listen': '127.0.0.1:0', 'https_listen': '127.0.0.1:0', 'auth_notify_interval': 900 * 10 ** 9}


def as_given(ctx, p, v, names, what):
    """every setting of a result is the one given, or its default"""
    e, P = ctx.e, ctx.P
    out = []
    for n, (fn, ft) in enumerate(P.variants(P.strip(v.tid))[0][2]):
        vn = names.get(fn)
        if vn is None:
            continue
        x = e.field(v, n)
        if isinstance(x, MutRef):
            x = e.deref(p.st, x)
        t = P.types[P.strip(ft)]
        if P.sort(ft) == Str:
            y = rope(x).term()
            g = z3.Or(given(vn)(y), y == lit(DEFAULT[fn])) if fn in DEFAULT else given(vn)(y)
        elif P.tname(P.strip(ft)) == 'Duration':
            g = z3.Or(given_time(vn)(zint(x)), zint(x) == DEFAULT[fn]) if fn in DEFAULT else given_time(vn)(zint(x))
        elif t.get('k') == 'adt' and t['name'].endswith('option::Option'):
            c, y = opt_term(ctx, e, x)
            if y is None:
                g = given_flag(vn + 'None') if fn in DEFAULT else z3.BoolVal(True)
            elif P.sort(t['args'][0]) == Str:
                y = rope(y).term()
                g = z3.If(c, z3.Or(given(vn)(y), y == lit(DEFAULT[fn])), given_flag(vn + 'None')) if fn in DEFAULT else z3.Implies(c, given(vn)(y))
            elif P.tname(P.strip(t['args'][0])) == 'Duration':
                g = z3.Implies(c, given_time(vn)(zint(y)))
            else:
                continue
        else:
            continue
        out.append(weak(p, f'{fn} of {what} is as given', g))
    return out




def c22_account(ctx, run):
    e, L, P = ctx.e, ctx.L, ctx.P
    out, n = panics(run), 0
    names = settings_of(ctx, None).get('AccountField', {})
    for p, v in oks(ctx, run):
        n += 1
        t = e.to_term(v, L.accty)
        nm = run.args[ctx.names_of(run.fid)[0]]
        nm = e.deref(p.st, nm) if isinstance(nm, MutRef) else nm
        out.append(at_end(p, 'the account has the name given for it', L.a_name(t) == rope(nm).term()))
        for f in ('auth_uri', 'redirect_uri', 'token_uri'):
            # (that the default is one is a fact about the URL library)
            out.append(weak(p, f'the {f} of an account is an HTTP or HTTPS URI', z3.Implies(http_uri(P, lit(DEFAULT['redirect_uri'])), http_uri(P, L.a_field(t, f)))))
        out += as_given(ctx, p, v, names, 'an account')
    if not n:
        raise Unsupported('no account is accepted')
    return out


def c22_config(ctx, run):
    e, L, P = ctx.e, ctx.L, ctx.P
    out, n = panics(run), 0
    us = url_sort(P)
    names = settings_of(ctx, None).get('TopLevel', {})
    fs = [fn for fn, _ in P.variants(L.confty)[0][2]]
    for p, v in oks(ctx, run):
        n += 1
        mv = e.field(v, L.faccts)
        lst = {s: e.field(v, fs.index(s + '_listen')) for s in ('http', 'https')}
        on = {s: opt_term(ctx, e, x)[0] for s, x in lst.items()}

        def mk(which, p=p, mv=mv, on=on):
            st = p.st.copy()
            st.gr['weak'] = (z3.BoolVal(True),)
            if which == 'some':
                return st, zint(ctx.M.map_enum(st, mv)[0]) >= 1
            k = z3.Const(fresh_name('k'), Str)
            ctx.M.map_key_term(st, mv, k)
            a = z3.Select(mv.map, k)
            if which == 'name':
                g = L.a_name(a) == k
            elif which == 'uri':
                g = z3.And(*[http_uri(P, L.a_field(a, f)) for f in ('auth_uri', 'redirect_uri', 'token_uri')])
            else:
                g = z3.If(scheme(us, L.a_field(a, 'redirect_uri')) == lit('https'), on['https'], on['http'])
            return st, z3.Implies(z3.Select(mv.dom, k), g)
        def one(p=p, mv=mv, on=on):
            # (there is an account, and its listener is enabled)
            st = p.st.copy()
            st.gr['weak'] = (z3.BoolVal(True),)
            n, KE, KI, tag = ctx.M.map_enum(st, mv)
            ctx.M.map_key_term(st, mv, z3.Select(KE, z3.IntVal(0)))
            e.add_term(st, ('ix', tag), z3.IntVal(0))
            return st, z3.Or(on['http'], on['https'])
        out.append(Ob('a listener is enabled', one))
        for w, nm in (('some', 'there is an account'), ('name', 'every account is stored under its name'), ('uri', 'the URIs of every account are HTTP or HTTPS URIs'), ('listener', 'the listener for the redirect URI of every account is enabled')):
            out.append(Ob(nm, lambda w=w, mk=mk: mk(w)))
        out += as_given(ctx, p, v, names, 'the configuration')
    if not n:
        raise Unsupported('no configuration is accepted')
    return out


prop('C22', [(['config'], [c22_config]), (['account'], [c22_account])])

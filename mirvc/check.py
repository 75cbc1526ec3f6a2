"""check.py PROPERTY: decide one property of /repo's working tree.

exit 0: every obligation generated from the current source was discharged (or, where one was left
undecided, no violation is known: the evidence says which); exit 1 + VIOLATION line otherwise."""
import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(100000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import base
from base import Ctx, build_mir, discharge, fork_map, NPROC, VERIF, BuildFailed
from mir import Unsupported

BUDGET = float(os.environ.get('PIZ_BUDGET', '600'))
T0 = time.time()


def work_entry(ctx, fid, gens, jobs):
    """run one entry function and discharge the obligations the generators put on it"""
    run = ctx.run(fid)
    e = ctx.e
    obs, notes = [], []
    for g in gens:
        try:
            for o in g(ctx, run):
                obs.append(o)
        except Unsupported as ex:
            notes.append(f'{g.__name__}: {ex}')
    sl = max(1, (len(obs) + jobs * 3 - 1) // (jobs * 3))
    chunks = [obs[k:k + sl] for k in range(0, len(obs), sl)]

    def worker(k):
        out = []
        for o in chunks[k]:
            t = time.time()
            try:
                s, d = discharge(e, o)
            except Unsupported as ex:
                s, d = 'unsupported', str(ex)
            except Exception:
                s, d = 'unknown', 'error: ' + traceback.format_exc()[-300:]
            out.append((o.name, s, d, time.time() - t, o.info if isinstance(o.info, (dict, str, type(None))) else None))
        return out
    res = []
    for k, r in enumerate(fork_map(len(chunks), jobs, worker, BUDGET)):
        if r is None:
            r = ('unsupported', 'worker lost')
        if r[0] == 'ok':
            res += r[1]
        else:
            res += [(o.name, 'unknown', f'{r[0]}: {r[1]}', 0.0, None) for o in chunks[k]]
    nlive = 0
    for p in run.paths[:40]:
        if e.feasible(p.st):
            nlive += 1
            break
    return {'name': run.name, 'paths': len(run.paths), 'sections': len(run.secs), 'wall': run.wall, 'obs': res,
            'taint': run.taints(), 'notes': notes, 'feasible': nlive, 'solver': getattr(e.solver, 'calls', 0), 'solver_s': getattr(e.solver, 'time', 0.0),
            'models': sorted(e.models.used), 'contracts': sorted(ctx.P.fns[f]['name'] for f in e.contract_used),
            'entered': sorted({n for n in (ctx.P.fns[f]['name'] for f in e.entered) if 'pizauth' in n})}


def decide(pid, verbose=False):
    """{status, ...}: run all the obligations of one property"""
    import props
    pr = props.PROPS[pid]
    path = build_mir()
    tb = time.time() - T0
    ctx = Ctx(path)
    if path.startswith(base.CACHE):
        os.unlink(path)
    jobs, missing = [], []
    for roles, gens in pr['entries']:
        for role in roles:
            try:
                fids = [f for f in ctx.entry(role)]
            except Unsupported as ex:
                missing.append(str(ex))
                continue
            for f in fids:
                for x in jobs:
                    if x[0] == f:
                        x[1].extend(g for g in gens if g not in x[1])
                        break
                else:
                    jobs.append([f, list(gens), role])
    par = max(1, min(NPROC, len(jobs)))
    per = max(2, NPROC // par, 6 if len(jobs) > 1 else 0)

    def worker(k):
        return work_entry(ctx, jobs[k][0], jobs[k][1], per)
    out = fork_map(len(jobs), par, worker, BUDGET)
    entries = []
    for (f, gens, role), r in zip(jobs, out):
        if r is None or r[0] != 'ok':
            entries.append({'name': ctx.P.fns[f]['name'], 'failed': str(r and r[1])[:600], 'kind': r and r[0], 'obs': [], 'taint': [], 'notes': []})
        else:
            entries.append(r[1])
    static = []
    for g in pr.get('static', []):
        try:
            for name, ok, detail in g(ctx, entries):
                static.append((name, 'ok' if ok is True else ('unknown' if ok is None else 'fail'), detail, 0.0, None))
        except Unsupported as ex:
            static.append((g.__name__, 'unknown', str(ex), 0.0, None))
    if static:
        entries.append({'name': '(whole program)', 'obs': static, 'taint': [], 'notes': [], 'paths': 0, 'sections': 0, 'wall': 0.0, 'feasible': 1})
    return {'entries': entries, 'missing': missing, 'build_s': tb}


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        p = build_mir()
        if p.startswith(base.CACHE):
            os.unlink(p)
        print('extractor ready')
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import props
    pr = props.PROPS[pid]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': {}, 'assumptions': list(props.ASSUME) + pr.get('assume', []), 'violations': 0}
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    undecided, failed = [], []
    entries = []
    build_err = None
    try:
        r = decide(pid)
        entries = r['entries']
        undecided += [('entry point', m) for m in r['missing']]
    except BuildFailed as ex:
        build_err = str(ex)
        undecided.append(('build', build_err[-1500:]))
    except Exception:
        undecided.append(('internal', traceback.format_exc()[-1500:]))
    n = d = 0
    byback = {}
    for en in entries:
        if en.get('failed'):
            undecided.append((en['name'], en['failed']))
        for x in en['notes']:
            undecided.append((en['name'], x))
        if not en.get('failed') and not en.get('feasible'):
            undecided.append((en['name'], 'no path of this function is feasible: the obligations would hold vacuously'))
        for name, s, det, t, info in en['obs']:
            n += 1
            if s == 'ok':
                d += 1
                byback[det] = byback.get(det, 0) + 1
            elif s == 'fail':
                failed.append((en['name'], name, det, info))
            else:
                undecided.append((en['name'] + ': ' + name, f'{s}: {det}'))
    if n == 0 and not undecided:
        undecided.append(('obligations', 'none were generated'))
    min_obs = pr.get('min_obs', 1)
    if n < min_obs and not undecided:
        undecided.append(('obligations', f'only {n} were generated'))
    known = load_known(pid)
    scen = {'ran': 0, 'failed': []}
    if failed or undecided or tier == 'thorough':
        try:
            import scenarios
            scen = scenarios.run_for(pid, seed, tier)
        except Exception:
            scen = {'ran': 0, 'failed': [], 'error': traceback.format_exc()[-1500:]}
    ev['coverage'] = {
        'obligations': n, 'discharged': d,
        'checker_cmd': f'python3-vt mirvc/check.py {pid}',
        'trusted_base': props.TRUSTED,
        'functions': [{'name': en['name'], 'paths': en.get('paths'), 'critical_sections': en.get('sections'), 'obligations': len(en['obs']),
                       'discharged': sum(1 for o in en['obs'] if o[1] == 'ok'),
                       'symbolic_execution_s': round(en.get('wall', 0.0), 2), 'solver_s': round(sum(o[3] for o in en['obs']), 2),
                       'outside_the_model': en['taint'], 'failed': en.get('failed')} for en in entries],
        'discharged_by': byback,
        'undecided': [{'what': a, 'why': b[:400]} for a, b in undecided],
        'failed_obligations': [{'function': f, 'obligation': o} for f, o, _, _ in failed],
        'models_used': sorted({m for en in entries for m in en.get('models', ())}),
        'contracts_used': sorted({m for en in entries for m in en.get('contracts', ())}),
        'source_functions_verified': sorted({m for en in entries for m in en.get('entered', ())}),
        'scenarios_replayed': scen.get('ran', 0),
        'random_history_steps': scen.get('random_steps', 0),
        'obligation_names': sorted({o[0].split(' [')[0] for en in entries for o in en['obs']})[:60],
    }
    rc = 0
    lines = []
    new_failed = [f for f in failed if not known_match(known, f[0], f[1])]
    new_scen = [s for s in scen.get('failed', []) if not any(k['kind'] == 'scenario' and k['what'] == s['name'] for k in known)]
    for k in known:
        if k['kind'] != 'fixed':
            lines.append(f"KNOWN-FINDING: property={pid} {k['text']}")
    rp = os.path.join(evdir, f'{pid}.replay.txt')
    if os.path.exists(rp):
        os.unlink(rp)
    if new_scen or new_failed:
        with open(rp, 'w') as f:
            f.write(f'property {pid}: {pr["title"]}\n\n')
            for s in new_scen:
                f.write(f"SCENARIO {s['name']} FAILS ON THE REAL PROGRAM\n{s['detail']}\nre-run: {s.get('rerun') or 'python3-vt mirvc/scenarios.py ' + s['name']}\n\n")
            for fn, ob, det, info in new_failed:
                f.write(f'FAILED OBLIGATION\n  function {fn}\n  obligation {ob}\n  countermodel:\n')
                f.write(''.join('    ' + x + '\n' for x in det.split('\n')) + '\n')
            for a, b in undecided:
                f.write(f'UNDECIDED {a}: {b}\n')
        rc = 1
        ev['violations'] = len(new_failed) + len(new_scen)
        for fn, ob, det, info in new_failed[:8]:
            lines.append(f'failed obligation: {fn}: {ob}')
        lines.append(f'VIOLATION property={pid} replay={rp}' + ('' if new_scen else ' no-failing-input-found'))
    ev['wall_s'] = round(time.time() - T0, 2)
    with open(os.path.join(evdir, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for a, b in undecided[:12]:
        print(f'undecided: {a}: {b[:300]}')
    if scen.get('error'):
        print('scenario harness: ' + scen['error'])
    print(f'{pid}: {d}/{n} obligations discharged over {len(entries)} functions, {len(failed)} failed, {len(undecided)} undecided, {scen.get("ran", 0)} scenarios replayed, {ev["wall_s"]} s')
    for x in lines:
        print(x)
    sys.exit(rc)


def load_known(pid):
    """known_findings.txt: `property=<id> kind=obligation|scenario|fixed what=<...> :: text`"""
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('fixed:') or not l or l.startswith('#'):
                continue
            head, _, text = l.partition(' :: ')
            kv = dict(x.split('=', 1) for x in head.split(' ', 2))
            if kv.get('property') == pid:
                out.append({'kind': kv['kind'], 'what': kv['what'], 'text': text})
    return out


def known_match(known, fn, ob):
    return any(k['kind'] == 'obligation' and k['what'] == ob.split(' [')[0] for k in known)


if __name__ == '__main__':
    main()

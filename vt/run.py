"""
Check of one property:  python -m vt.run C01 [quick|thorough]

Explores every configuration of the property's harness symbolically (one
process each), replays counterexamples and samples of the explored paths
against the real package, prints the verdict and writes the evidence.
"""

import importlib
import json
import multiprocessing
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = '/opt/venv/bin/python'
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def find_module(pid):
    for f in sorted(os.listdir(os.path.join(HERE, 'vt', 'props'))):
        if f.lower().startswith(pid.lower() + '_') or f.lower() == pid.lower() + '.py':
            return f[:-3]
    raise SystemExit('no harness for %s' % pid)


# ----------------------------------------------------------------------
def explore(modname, cfg, seed, limits, repo, kernels):
    """One configuration, in its own process"""
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(5000)
    t0 = time.time()
    from . import loader, engine, backend
    touched = set()
    mon = sys.monitoring
    root = os.path.realpath(os.path.join(repo, 'atooms', 'postprocessing')) + os.sep

    def start(code, off):
        if os.path.realpath(code.co_filename).startswith(root) and code.co_name[0] != '<':
            touched.add('%s:%s' % (code.co_filename.split('/')[-1], code.co_qualname))
        return mon.DISABLE
    mod = importlib.import_module('vt.props.' + modname)
    L = loader.Loader(repo, kernels=kernels)
    L.load('atooms.postprocessing')
    mon.use_tool_id(3, 'vt')
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    E = engine.Explorer(seed=seed, **limits)
    E.explore(lambda E: mod.harness(backend.SymBackend(E, L), **cfg))
    for n in ('realspace_mod', 'fourierspace_mod'):
        m = getattr(L, n, None)
        if m is not None:
            touched.update('%s.f90:%s' % (n[:-4], x) for x in m.executed)
    return {
        'cfg': cfg,
        'stats': E.stats.as_dict(),
        'limits': E.limits,
        'complete': E.complete,
        'candidates': [{'inputs': {k: str(v) for k, v in c.inputs.items()}, 'label': c.label, 'how': c.how}
                       for c in E.candidates],
        'samples': [{k: str(v) for k, v in s.items()} for s in E.samples],
        'functions': sorted(touched),
        'wall': time.time() - t0,
    }


def exact(modname, case, seed, limits, repo, kernels):
    """
    Claims that fail in exact arithmetic for the given inputs: settles
    counterexamples which lie where two numbers of the oracle are equal
    """
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(5000)
    from . import loader, engine, backend
    mod = importlib.import_module('vt.props.' + modname)
    L = loader.Loader(repo, kernels=kernels)
    E = engine.Explorer(seed=seed, **limits)
    E.exact = []
    E.explore(lambda E: mod.harness(backend.FixedBackend(E, L, case['inputs']), **case['cfg']))
    return {'cfg': case['cfg'], 'broken': E.exact if E.complete and E.stats.paths == 1 else []}


def settle_ties(modname, cases, status, seed, limits, repo, kernels, jobs):
    ties, seen = [], {}
    for i, s in enumerate(status):
        if s['status'] == 'tie':
            k = json.dumps(cases[i]['cfg'], sort_keys=True)
            seen[k] = seen.get(k, 0) + 1
            ties.append((seen[k], i))
    # those of different configurations come first
    ties = [i for _, i in sorted(ties)[:40]]
    if not ties:
        return
    res = run_all(modname, [cases[i] for i in ties], seed, dict(limits, time_limit=30.0), repo, kernels, jobs, 100, what=exact)
    for i, r in zip(ties, res):
        if r.get('broken'):
            status[i] = {'status': 'violated', 'what': status[i]['what'] + ' (an exact tie)', 'case': i}


def _worker(conn, what, *args):
    try:
        r = what(*args)
    except MemoryError:
        r = {'cfg': args[1], 'error': 'out of memory'}
    except BaseException:
        r = {'cfg': args[1], 'error': traceback.format_exc()}
    conn.send(r)
    conn.close()
    os._exit(0)


def run_all(modname, cfgs, seed, limits, repo, kernels, jobs, hard, what=explore):
    ctx = multiprocessing.get_context('fork')
    todo = list(enumerate(cfgs))
    live = {}
    results = [None] * len(cfgs)
    while todo or live:
        while todo and len(live) < jobs:
            i, cfg = todo.pop(0)
            a, b = ctx.Pipe(False)
            lim = dict(limits)
            lim.update(cfg.pop('_limits', {}) if '_limits' in cfg else {})
            p = ctx.Process(target=_worker, args=(b, what, modname, cfg, seed, lim, repo, kernels))
            p.start()
            b.close()
            live[a] = (i, p, time.time(), cfg, lim)
        ready = multiprocessing.connection.wait(list(live), timeout=1.0)
        now = time.time()
        for a in list(live):
            i, p, t, cfg, lim = live[a]
            if a in ready:
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = {'cfg': cfg, 'error': 'process ended without a result'}
                p.join()
                a.close()
                del live[a]
            elif now - t > 2 * lim['time_limit'] + 30:
                p.kill()
                p.join()
                results[i] = {'cfg': cfg, 'error': 'killed after %d s' % (now - t)}
                a.close()
                del live[a]
    return results


# ----------------------------------------------------------------------
def replay(modname, cases, so, repo, scratch):
    """Statuses of the cases on the real package"""
    if not cases:
        return []
    out = [None] * len(cases)
    todo = list(range(len(cases)))
    job = os.path.join(scratch, 'cases.json')
    with open(job, 'w') as fh:
        json.dump({'module': modname, 'cases': cases}, fh)
    env = dict(os.environ, VT_SO=so or '', VT_REPO=repo, PYTHONPATH=HERE, OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    alone, retries = False, 2
    while todo:
        batch = todo if not alone else todo[:1]
        alone = False
        try:
            p = subprocess.run([VENV, '-W', 'ignore', '-m', 'vt.replay', job] + [str(i) for i in batch],
                               env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=30 + 20 * len(batch))
            text, err, rc = p.stdout.decode(), p.stderr.decode(errors='replace'), p.returncode
        except subprocess.TimeoutExpired as e:
            text, err, rc = (e.stdout or b'').decode(), 'timeout', None
        except OSError as e:
            text, err, rc = '', str(e), -1
        started = None
        for line in text.splitlines():
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if 'start' in r:
                started = r['start']
            else:
                out[r['case']] = r
                started = None
        if started is None and rc is not None and retries and all(out[i] is None for i in batch):
            # a passing failure of the system
            retries -= 1
            continue
        if started is None and all(out[i] is None for i in batch):
            for i in batch:
                out[i] = {'status': 'error', 'what': 'replay did not start: ' + err[-600:]}
        elif started is not None:
            if len(batch) == 1:
                tail = err.strip().splitlines()[-3:]
                if rc is None:
                    out[started] = {'status': 'violated', 'what': 'does not terminate'}
                else:
                    out[started] = {'status': 'violated', 'what': 'the process dies (%s): %s' % (rc, ' '.join(tail))}
            else:
                # settle the culprit in a process of its own
                todo.remove(started)
                todo.insert(0, started)
                todo = [started] + [i for i in todo if i != started and out[i] is None]
                alone = True
                continue
        todo = [i for i in todo if out[i] is None]
    return out


# ----------------------------------------------------------------------
def known(pid):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = os.environ.get('VT_ONLY')
    t0 = time.time()
    sys.path.append(Z3)
    repo = os.environ.get('VT_REPO', '/repo')
    modname = find_module(pid)
    mod = importlib.import_module('vt.props.' + modname)
    kernels = getattr(mod, 'KERNELS', True)
    scratch = tempfile.mkdtemp(prefix='vt.')
    os.environ['TMPDIR'] = tempfile.tempdir = scratch
    try:
        rc = check(pid, tier, seed, only, t0, repo, modname, mod, kernels, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def check(pid, tier, seed, only, t0, repo, modname, mod, kernels, scratch):
    from . import build
    so = os.path.join(scratch, 'so')
    os.makedirs(so)
    b = build.Build(repo, so)
    if kernels:
        from . import kernel
        kernel.preload(repo)
    # all modules are imported before forking
    from . import loader, engine, backend, common
    cfgs = [dict(c) for c in mod.configs(tier)]
    if only:
        cfgs = [c for c in cfgs if re.search(only, json.dumps(c))]
    limits = {'time_limit': 60.0 if tier == 'quick' else 600.0, 'max_paths': 4000 if tier == 'quick' else 100000}
    limits.update(getattr(mod, 'LIMITS', {}).get(tier, {}))
    jobs = int(os.environ.get('VT_JOBS', '0')) or min(8, os.cpu_count() or 1)
    results = run_all(modname, cfgs, seed, limits, repo, kernels, jobs, 800)
    errors = b.wait()

    # replay of counterexamples and samples
    cases, meta = [], []
    for r in results:
        if 'error' in r:
            continue
        for c in r['candidates']:
            cases.append({'cfg': r['cfg'], 'inputs': c['inputs']})
            meta.append((r, 'candidate', c['label']))
        for s in r['samples'][:8]:
            cases.append({'cfg': r['cfg'], 'inputs': s})
            meta.append((r, 'sample', ''))
    status = replay(modname, cases, so if not errors else None, repo, scratch) if not errors else \
        [{'status': 'error', 'what': e} for e in (errors * len(cases))[:len(cases)]]

    # counterexamples only: a sample of a path that holds has nothing to settle
    status = [{'status': 'ok', 'what': 'tie'} if s['status'] == 'tie' and m[1] == 'sample' else s for s, m in zip(status, meta)]
    settle_ties(modname, cases, status, seed, limits, repo, kernels, jobs)

    violations, notes = [], []
    validated = 0
    for case, (r, kind, label), s in zip(cases, meta, status):
        r.setdefault('replays', {}).setdefault(s['status'], 0)
        r['replays'][s['status']] += 1
        if s['status'] == 'violated':
            violations.append((case, kind, label, s['what'], r))
        elif s['status'] == 'ok' and kind == 'sample' and s['what'] != 'tie':
            validated += 1
        elif s['status'] == 'error':
            notes.append('replay error (%s): %s' % (json.dumps(case['cfg']), s['what']))
        elif kind == 'sample' and s['status'] == 'invalid':
            notes.append('sample invalid (%s): %s' % (json.dumps(case['cfg']), s['what']))
    for r in results:
        if 'error' in r:
            notes.append('%s: %s' % (json.dumps(r['cfg']), r['error']))
            continue
        cand = [c['label'] for c in r['candidates']]
        if cand and not r['replays'].get('violated'):
            notes.append('%s: counterexample does not reproduce: %s %s' % (json.dumps(r['cfg']), cand[0], r['replays']))
        for x in sorted(set(r['limits'])):
            notes.append('%s: %s' % (json.dumps(r['cfg']), x))
        if not r['samples'] and not cand:
            notes.append('%s: no witness of reachability' % json.dumps(r['cfg']))

    good = [r for r in results if 'error' not in r]
    tot = {k: sum(r['stats'][k] for r in good) for k in (good[0]['stats'] if good else ())}
    functions = sorted(set(f for r in good for f in r['functions']))
    decided = [r for r in good if r['complete'] and not r['candidates'] and r['stats']['discharged'] > 0]

    # verdict
    kn = known(pid)
    new, seen = [], set()
    for case, kind, label, what, r in violations:
        key = '%s | %s | %s' % (json.dumps(case['cfg'], sort_keys=True), label, what)
        hit = [k for k in kn if k[0].search(key.replace(' ', '_'))]
        if hit:
            if hit[0][1] not in seen:
                seen.add(hit[0][1])
                print('KNOWN-FINDING: property=%s %s' % (pid, hit[0][1]))
            continue
        new.append((case, kind, label, what))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    printed = set()
    for case, kind, label, what in new:
        k = json.dumps(case['cfg'], sort_keys=True)
        if k in printed or len(printed) >= 5:
            continue
        printed.add(k)
        path = os.path.join(rdir, '%s_%d.json' % (pid, len(printed)))
        with open(path, 'w') as fh:
            json.dump({'module': modname, 'cases': [case], 'claim': label, 'observed': what, 'kind': kind,
                       'how': 'cd /verif && /opt/venv/bin/python -W ignore -m vt.replay %s' % path}, fh, indent=1)
        print('  config %s' % k)
        print('  claim: %s' % label)
        print('  real code: %s' % what)
        print('  inputs: %s' % ', '.join('%s=%s' % x for x in sorted(case['inputs'].items())))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for n in notes[:40]:
        print('note: ' + n[:600])

    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': validated,
            'samples': [{'cfg': c['cfg'], 'inputs': c['inputs'], 'replay': s['what']}
                        for c, (r, kind, _), s in zip(cases, meta, status) if kind == 'sample' and s['status'] == 'ok'][:3],
            'explanation': 'states: paths of the real code explored symbolically; transitions: branch decisions put to '
                           'the solver; traces: solver models of explored paths replayed on the real package, claims '
                           're-evaluated there',
            'configurations': len(cfgs),
            'configurations_decided': len(decided),
            'paths_abandoned': tot.get('abandoned', 0),
            'claims': tot.get('claims', 0),
            'claims_discharged': tot.get('discharged', 0),
            'queries': tot.get('queries', 0),
            'queries_unknown': tot.get('unknown', 0),
            'undecided': tot.get('undecided', 0),
            'solver_s': round(tot.get('solver_s', 0), 2),
            'functions_encoded': functions,
            'bounds': [r['cfg'] for r in results],
            'bounds_text': getattr(mod, 'BOUNDS', ''),
            'inconclusive': notes,
            'exhaustive': False,
            'per_configuration': [{'cfg': r['cfg'], 'paths': r['stats']['paths'], 'claims': r['stats']['claims'],
                                   'discharged': r['stats']['discharged'], 'complete': r['complete'],
                                   'wall_s': round(r['wall'], 2), 'replays': r.get('replays', {})} for r in good],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + common.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s %s: %d/%d configurations decided, %d paths, %d claims (%d discharged), %d queries, solver %.1f s, '
          '%d replays ok, wall %.1f s' % (
              pid, tier, len(decided), len(cfgs), tot.get('paths', 0), tot.get('claims', 0), tot.get('discharged', 0),
              tot.get('queries', 0), tot.get('solver_s', 0), validated, time.time() - t0))
    if os.environ.get('VT_V'):
        for r in good:
            print('   %s paths=%d wall=%.1f solver=%.1f complete=%s %s' % (
                json.dumps(r['cfg']), r['stats']['paths'], r['wall'], r['stats']['solver_s'], r['complete'], r.get('replays')))
    if new:
        return 1
    if not decided and not validated:
        print('nothing was decided')
        return 2
    return 0


if __name__ == '__main__':
    main()

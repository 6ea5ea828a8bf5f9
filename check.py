#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]: verify one property on /repo's current tree.

Every obligation of the property's contracts is generated from the source under /repo and discharged by the
solvers; an undischarged obligation is replayed on the real code.  Exit 0: everything discharged.  Exit 1 with a
VIOLATION line otherwise.
"""
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE_DIR', os.path.join(VERIF, 'evidence'))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PY = '/opt/veriftools/pyvenv/bin/python3'
PYPY = '/opt/venv-pypy/bin/pypy3'


def target_index(prop):
    """names, timeouts of the targets, without importing the solver"""
    p = subprocess.run([PY, '-B', '-c', 'import sys,json\nsys.path.insert(0,%r)\nfrom specs import %s as m\n'
                        'print(json.dumps([[t.name,t.timeout,t.level,t.functions,t.note] for t in m.TARGETS]))\n'
                        'print(json.dumps(getattr(m,"ASSUMPTIONS",[])))' % (VERIF, prop.lower())],
                       capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    a, b = p.stdout.strip().splitlines()[-2:]
    return json.loads(a), json.loads(b)


def load_known(prop):
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f, encoding='utf-8'):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(json.loads(l.split(' ', 2)[2]))
    return out


def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scale = 1.0 if tier == 'quick' else 3.0
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYVC_SCALE=str(scale), LC_ALL='C.UTF-8', LANG='C.UTF-8')
    env.pop('PYVC_DEBUG', None)
    tmp = tempfile.mkdtemp(prefix='vcheck-' + prop)
    results = []
    try:
        targets, assumptions = target_index(prop)
        search_s = 8 if tier == 'quick' else 180
        wit_out = os.path.join(tmp, 'wit.json')
        have_wit = os.path.exists(os.path.join(VERIF, 'replay', 'w%s.py' % prop[1:]))
        wit = subprocess.Popen([PYPY, '-B', os.path.join(VERIF, 'replay', 'run.py'), prop, '--repo', REPO, '--seed', str(seed), '--seconds',
                                str(search_s), '--out', wit_out], env=env, stdout=open(os.path.join(tmp, 'wit.log'), 'w'),
                               stderr=subprocess.STDOUT, start_new_session=True) if have_wit else None
        results = verify(prop, targets, env, scale, tmp, 7, t0 + (700 if tier == 'quick' else 3000))
        w = {'evaluations': 0, 'distinct': 0, 'samples': [], 'failures': [], 's': 0, 'rule': ''}
        if wit is not None:
            try:
                wit.wait(timeout=search_s * 8 + 200)
            except subprocess.TimeoutExpired:
                kill(wit)
            try:
                w = json.load(open(wit_out))
            except (OSError, ValueError):
                w['failures'] = [{'input': None, 'message': 'the replay harness itself failed on this tree:\n' +
                                  open(os.path.join(tmp, 'wit.log')).read()[-3000:]}]
        # a machine under load: what is open is tried once more with longer limits, unless it is refuted by a concrete failure already
        todo = [t for t in targets for r in results if r['target'] == t[0] and not settled(r)]
        if todo and not unknown_failures(prop, w) and time.time() - t0 < 500:
            again = verify(prop, todo, dict(env, PYVC_SCALE=str(scale * 3)), scale * 3, tmp, 4, t0 + 780 if tier == 'quick' else t0 + 3000)
            good = {r['target']: r for r in again if settled(r)}
            results = [good.get(r['target'], r) for r in results]
        rc = report(prop, tier, seed, t0, results, w, assumptions)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def settled(r):
    return r['status'] == 'ok' and all(o['status'] == 'valid' for o in r.get('obligations', []))


def unknown_failures(prop, w):
    known = load_known(prop)
    return [f for f in w['failures'] if not any(x.get('match') and x['match'] in (f['message'] or '') for x in known)]


def verify(prop, targets, env, scale, tmp, nproc, deadline):
    results, running, limit = [], {}, {}
    queue = sorted(targets, key=lambda t: -t[1])
    while queue or running:
        while queue and len(running) < nproc:
            t = queue.pop(0)
            out = os.path.join(tmp, 't%d-%s.json' % (len(limit), scale))
            p = subprocess.Popen([PY, '-B', os.path.join(VERIF, 'tools', 'vrun.py'), 'specs.' + prop.lower(), t[0], REPO, out], env=env,
                                 stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'), start_new_session=True)
            limit[t[0]] = max(time.time() + 5, min(time.time() + t[1] * scale, deadline))
            running[t[0]] = (p, out, t)
        time.sleep(0.05)
        for name in list(running):
            p, out, t = running[name]
            if p.poll() is None:
                if time.time() > limit[name]:
                    kill(p)
                    results.append({'target': name, 'status': 'timeout', 'error': 'no answer within %d s' % (t[1] * scale), 'obligations': [],
                                    'functions': t[3], 'level': t[2]})
                    del running[name]
                continue
            try:
                r = json.load(open(out))
            except (OSError, ValueError):
                r = {'target': name, 'status': 'crash', 'error': open(out + '.err').read()[-1500:], 'obligations': [], 'functions': t[3],
                     'level': t[2]}
            results.append(r)
            del running[name]
    return results


def kill(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def report(prop, tier, seed, t0, results, w, assumptions):
    open_obl, n, ok, solver = [], 0, 0, 0.0
    backends, inlined, contracts, trusted = {}, set(), set(), set()
    table = []
    bounded = []
    for r in sorted(results, key=lambda r: r['target']):
        obl = r.get('obligations', [])
        good = [o for o in obl if o['status'] == 'valid']
        if r.get('level', 'proved') == 'bounded':
            bounded.append(r['target'])
        else:
            n += len(obl)
            ok += len(good)
        solver += r.get('solver_s', 0)
        for k, v in r.get('backends', {}).items():
            backends[k] = backends.get(k, 0) + v
        inlined |= {x for x in r.get('inlined', []) if not x.startswith('$')}
        contracts |= set(r.get('contracts', []))
        trusted |= set(r.get('trusted', []))
        table.append({'target': r['target'], 'functions': r.get('functions', []), 'level': r.get('level', 'proved'), 'obligations': len(obl),
                      'discharged': len(good), 'paths': r.get('paths', 0), 'feasible_paths': r.get('feasible_paths', 0), 's': r.get('s', 0),
                      'status': r['status'], 'note': r.get('note', '')})
        for o in obl:
            if o['status'] != 'valid':
                open_obl.append({'target': r['target'], 'obligation': o['name'], 'path': o['trail'], 'solver': o['status'], 'backend': o['backend'],
                                 'goal': o.get('goal', ''), 'verifier_output': o.get('detail', '')})
        if r['status'] != 'ok':
            open_obl.append({'target': r['target'], 'obligation': 'generation of the obligations', 'solver': r['status'],
                             'verifier_output': r.get('error', '') + '\n' + r.get('trace', '')})
            if r.get('level', 'proved') != 'bounded':
                n += 1
    known = load_known(prop)
    fails = unknown_failures(prop, w)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    viol = 1 if (open_obl or fails) else 0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': LEVELS.get(prop, 'proof'),
          'coverage': {'obligations': n, 'discharged': ok, 'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (prop, tier),
                       'trusted_base': sorted(TRUSTED + assumptions + sorted(trusted)),
                       'targets': table, 'functions_inlined_under_contract_targets': sorted(inlined), 'contracts_used_at_call_sites': sorted(contracts),
                       'backends': backends, 'solver_s': round(solver, 2), 'bounded_targets': bounded,
                       'evaluations': w['evaluations'], 'distinct_nontrivial': w['distinct'],
                       'rule': 'cross-check of the real code (bounded, not counted as proof): ' + w.get('rule', ''), 'samples': w['samples'][:6],
                       'explanation': 'obligations/discharged: verification conditions generated from /repo on this run; evaluations: concrete '
                                      'executions of the real code by the replay harness'},
          'assumptions': sorted(assumptions) + TRUSTED, 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d of %d obligations discharged (%d targets, solver %.1f s), %d concrete executions (%d distinct), %.1f s' % (
        prop, ok, n, len(results), solver, w['evaluations'], w['distinct'], time.time() - t0))
    for o in open_obl:
        print('OPEN %s / %s [%s] %s' % (o['target'], o['obligation'], o['solver'], o['verifier_output'].strip().replace('\n', ' ')[:300]))
    if not viol:
        return 0
    rep = os.path.join(EVID, 'replay-%s.json' % prop)
    real = [f for f in fails if f['input'] is not None]
    with open(rep, 'w') as f:
        json.dump({'property': prop, 'input': real[0]['input'] if real else None, 'message': real[0]['message'] if real else
                   (fails[0]['message'] if fails else None),
                   'failed_obligations': open_obl, 'other_failing_inputs': real[1:],
                   'how_to_replay': '%s -B /verif/replay/run.py %s --input %s' % (PYPY, prop, rep) if real else None}, f, indent=1)
    for f in fails:
        print('FAILING INPUT %s: %s' % ((f['input'] or '(none)')[:400], (f['message'] or '')[:600]))
    print('VIOLATION property=%s replay=%s%s' % (prop, rep, '' if real else ' no-failing-input-found'))
    return 1


LEVELS = {}
TRUSTED = [
    'the verifier pyvc itself (symbolic execution of the Python subset, havoc/Houdini loop rule, z3 / cvc5)',
    'Python semantics modelled: unbounded ints, str as sequences of code points, dict/list/set behaviour; no monkey patching, no '
    'concurrency, no MemoryError/RecursionError/KeyboardInterrupt; while loops are proved to end, recursion is not',
    'str operations used by the code through z3 strings (code points up to 0x2FFFF) or as atoms with uninterpreted operations',
]

if __name__ == '__main__':
    main()

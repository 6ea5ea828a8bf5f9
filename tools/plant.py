"""Plant a bug: python3 tools/plant.py SPEC.py  (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source run by the
repository's interpreter)).  Works on a scratch copy of /repo; keeps the bug under seeded/ID only if it applies, the stable tests pass and the demo
passes without it and fails with it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(path):
    m = runpy.run_path(path)
    out = os.path.join('/verif/seeded', m['ID'])
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        shutil.copytree('/repo', tmp + '/repo', symlinks=True)
        repo = tmp + '/repo'
        d = tmp + '/out'
        os.makedirs(d)
        with open(d + '/demo.py', 'w') as f:
            f.write(m['DEMO'].lstrip())
        with open(d + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\n# exit 0 when the property holds for this input\nhere="$(cd "$(dirname "$0")" && pwd)"\nS=$(mktemp -d)\n'
                    'HOME=$S XDG_DATA_HOME=$S/data XDG_CACHE_HOME=$S/cache SCRATCH=$S PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 200 /opt/venv-pypy/bin/pypy3 "$here/demo.py"\n'
                    'r=$?\ncase "$S" in /tmp/*) rm -rf "$S";; esac\nexit $r\n')
        r = sh('bash %s/demo.sh' % d, repo)
        if r.returncode != 0:
            print('demo fails without the bug:\n' + r.stdout[-2000:])
            return 1
        for f, old, new in m['EDITS']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print('%d places for the edit in %s: %r' % (s.count(old), f, old))
                return 1
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', repo).stdout
        r = sh('bash %s/demo.sh' % d, repo)
        if r.returncode == 0:
            print('demo passes with the bug:\n' + r.stdout[-2000:])
            return 1
        msg = r.stdout.strip().splitlines()[-1:] or ['']
        # the stable tests
        t = sh("sed 's#/repo#%s#g' /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/o.json" % (repo, tmp, tmp, tmp), repo)
        base = json.load(open('/opt/vp/BASELINE.json'))
        try:
            res = json.load(open(tmp + '/o.json'))
        except OSError:
            print('tests did not run\n' + t.stdout[-1500:])
            return 1
        want = base.get('stable') or base.get('passed') or base.get('tests')
        got = set(res.get('passed') or [])
        miss = [x for x in want if x not in got]
        if miss:
            print('tests that fail with the bug: %s' % miss[:8])
            return 1
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': m['PROPERTY'], 'needs': m['NEEDS'], 'what_it_breaks': m['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        print('planted %s: %s' % (m['ID'], msg[0][:150]))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


sys.exit(max(main(p) for p in sys.argv[1:]))

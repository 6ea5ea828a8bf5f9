"""python3 tools/catch.py [ID|property ...]: run the check of each seeded bug's property on a scratch copy with the bug (two at a time); prints
caught (concrete input) / caught (obligation only) / MISSED."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(b):
    d = os.path.join(VERIF, 'seeded', b)
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='catch')
    try:
        shutil.copytree('/repo', tmp + '/repo', symlinks=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=tmp + '/repo', check=True)
        p = subprocess.run([sys.executable, VERIF + '/check.py', prop], env=dict(os.environ, VERIF_REPO=tmp + '/repo', VERIF_EVIDENCE_DIR=tmp + '/ev'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        opens = sorted({l.split(' [')[0][5:] for l in p.stdout.splitlines() if l.startswith('OPEN')})
        if p.returncode == 1 and v:
            kind = 'obligation only' if v[-1].endswith('no-failing-input-found') else 'input'
        else:
            kind = 'MISSED rc=%d' % p.returncode
        print('%-32s %s  %-16s %2d open: %s | %s' % (b, prop, kind, len(opens), '; '.join(opens)[:150], p.stdout.splitlines()[0][-80:]), flush=True)
        return kind
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


sel = sys.argv[1:]
ids = sorted(os.listdir(VERIF + '/seeded'))
if sel:
    ids = [i for i in ids if i in sel or json.load(open('%s/seeded/%s/meta.json' % (VERIF, i)))['property'] in sel]
with ThreadPoolExecutor(2) as ex:
    list(ex.map(one, ids))

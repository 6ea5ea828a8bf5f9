"""Bounded cross-check of the real code, run under the interpreter the repository's own tests use.

  run.py PROP --seed N --seconds S --out FILE      search: corner cases, then random ones
  run.py PROP --input FILE                         replay one recorded input (exit 1 when it still fails)

It is the replay half of the verifier: it turns an open obligation into a concrete failing input, and it
cross-checks the verifier on every run.  It never counts as proof.
"""
import ast
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


class Timeout(BaseException):
    pass


def on_alarm(*a):
    raise Timeout()


def one(mod, inp, limit=25):
    """None when the property holds on inp, else a message"""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        mod.check(inp)
        return None
    except Timeout:
        return 'no answer within %d s' % limit
    except AssertionError as e:
        return 'property violated: %s' % e
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)


def main():
    prop = sys.argv[1]
    args = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    repo = args.get('--repo', '/repo')
    sys.path.insert(0, repo)
    sys.path.insert(1, HERE)
    scratch = tempfile.mkdtemp(prefix='vreplay')
    os.environ['HOME'] = scratch
    os.environ['XDG_DATA_HOME'] = os.path.join(scratch, 'data')
    os.environ['XDG_CACHE_HOME'] = os.path.join(scratch, 'cache')
    os.environ['XDG_CONFIG_HOME'] = os.path.join(scratch, 'config')
    os.environ['VREPLAY_SCRATCH'] = scratch
    sys.dont_write_bytecode = True
    import logging
    logging.disable(logging.CRITICAL)
    os.chdir(scratch)
    rc = 0
    try:
        rc = work(prop, args)
    finally:
        import shutil
        os.chdir('/')
        if os.path.basename(scratch).startswith('vreplay'):
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def work(prop, args):
    mod = importlib.import_module('w' + prop[1:])
    if '--input' in args:
        with open(args['--input']) as f:
            d = json.load(f)
        msg = one(mod, ast.literal_eval(d['input']))
        print('input: %s' % d['input'][:2000])
        print('holds' if msg is None else msg)
        return 0 if msg is None else 1
    seed = int(args.get('--seed', '1'))
    seconds = float(args.get('--seconds', '5'))
    rng = random.Random(seed)
    t0 = time.time()
    seen, samples, failures = set(), [], []
    n = 0
    nontrivial = getattr(mod, 'nontrivial', lambda i: True)
    known = getattr(mod, 'KNOWN', [])

    def feed():
        for i in mod.corner():
            yield i
        while True:
            yield mod.gen(rng)
    ncorner = len(list(mod.corner()))
    for inp in feed():
        if time.time() - t0 > seconds and n >= ncorner:
            break
        if time.time() - t0 > 6 * seconds + 60:
            break
        n += 1
        r = repr(inp)
        h = hashlib.md5(r.encode('utf-8', 'backslashreplace')).digest()
        if h not in seen and nontrivial(inp):
            seen.add(h)
        if len(samples) < 3 or (len(samples) < 6 and n % 97 == 0):
            samples.append(r[:300])
        msg = one(mod, inp)
        if msg is not None:
            inp2, msg2 = shrink(mod, inp, msg)
            failures.append({'input': repr(inp2), 'message': msg2})
            if len(failures) >= 3:
                break
    res = {'evaluations': n, 'distinct': len(seen), 'samples': samples, 'failures': failures, 's': round(time.time() - t0, 2),
           'rule': mod.__doc__ or ''}
    with open(args['--out'], 'w') as f:
        json.dump(res, f)
    return 1 if failures else 0


def shrink(mod, inp, msg):
    sh = getattr(mod, 'shrink', None)
    if sh is None:
        return inp, msg
    t0 = time.time()
    progress = True
    while progress and time.time() - t0 < 4:
        progress = False
        for c in sh(inp):
            if time.time() - t0 > 4:
                break
            m = one(mod, c, 5)
            if m is not None:
                inp, msg, progress = c, m, True
                break
    return inp, msg


if __name__ == '__main__':
    main()

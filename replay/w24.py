"""partial vocabularies on a scratch disk; the merge of two of them is stopped (by an exception, by ending the forked process, by a fault of the disk) at every
line and before and after every operation on files, or its result is truncated at any byte; loading again is stopped the same way, repeatedly; in the end
loading must give the same total counts and leave no interrupted result; non-trivial: really something to recover"""
import builtins
import os
import shutil
import sys
import tempfile
from collections import Counter
import codeprep.pipeline.vocab as V

VOCS = [{}, {'a': 3}, {'a': 5, 'b': 1}, {'b': 2, '\xfcber': 7, '<non-english>': 4}, {'c%d' % k: k + 1 for k in range(300)}, {'a b_1': 2, '.': 1, '\\n': 5}]
HOWS = ['kill', 'raise', 'oserror']


def corner():
    for a, b, rest in ((1, 2, (3,)), (0, 0, ()), (2, 4, (1, 5)), (4, 4, (0,))):
        yield (a, b, rest, ('none', '', 0), ())
    for n in range(40):
        for how in ('kill', 'raise'):
            yield (1 + n % 3, 1 + n % 5, (3,) if n % 2 else (), (how, 'line', n), ())
    for n in range(26):
        for how in HOWS:
            yield (1 + n % 4, 1 + n % 5, (3, 1) if n % 2 else (), (how, 'op', n), ())
    for n in range(12):
        for m in range(10):
            yield (2, 3, (1,), ('kill', 'op', n), (('kill', 'op', m), ('raise', 'op', m)))
    for n in (0, 1, 2, 3, 5, 11, 17, 30, 60, 100, 140, 160, 180, 200, 220, 240, 260, 280, 300, 400, 900, -1, -2, -3, -9, -20):
        for at in (0, 1):
            yield (1 + n % 5, 1 + n % 4, (3,), ('cut', '', n), (('kill', 'op', at + n % 4),))


def gen(rng):
    k = rng.random()
    first = ('cut', '', rng.randrange(-40, 600)) if k < 0.4 else (rng.choice(HOWS), rng.choice(['line', 'op']), rng.randrange(30))
    return (rng.randrange(6), rng.randrange(6), tuple(rng.randrange(6) for _ in range(rng.randrange(3))), first,
            tuple((rng.choice(HOWS), rng.choice(['line', 'op', 'op']), rng.randrange(24)) for _ in range(rng.randrange(3))))


def nontrivial(i):
    return i[3][0] != 'none'


class Stop(Exception):
    pass


def stop(how):
    if how == 'kill':
        os._exit(9)
    if how == 'oserror':
        raise OSError(5, 'Input/output error')
    raise Stop('stopped here')


OPS = [(os, 'rename'), (os, 'replace'), (os, 'remove'), (os, 'unlink'), (os, 'link'), (os, 'listdir'), (os.path, 'exists'), (shutil, 'move'), (shutil, 'rmtree'),
       (V.pickle, 'dump'), (V.pickle, 'load'), (builtins, 'open')]


def interrupted(spec, f, root):
    """f run in a process of its own, stopped at the n-th line or operation; was it finished?"""
    how, what, n = spec
    pid = os.fork()
    if pid:
        return os.waitpid(pid, 0)[1] == 0
    try:
        if what == 'line':
            seen = set()

            def line(fr, ev, arg):
                if ev == 'line' and (fr.f_code, fr.f_lineno) not in seen:
                    seen.add((fr.f_code, fr.f_lineno))
                    if len(seen) == n + 1:
                        stop(how)
                return line
            sys.settrace(lambda fr, ev, arg: line if os.path.basename(fr.f_code.co_filename) == 'vocab.py' else None)
        elif what == 'op':
            c = [0]
            mine = lambda a: any(isinstance(x, str) and x.startswith(root) for x in a) or any(hasattr(x, 'write') or hasattr(x, 'read') for x in a)     # noqa

            def wrap(g, name):
                def h(*a, **k):
                    if not mine(a):
                        return g(*a, **k)
                    if c[0] == n:
                        c[0] += 1
                        if name == 'dump':
                            b = V.pickle.dumps(a[0])
                            a[1].write(b[:len(b) // 2])
                            a[1].flush()
                        stop(how)
                    c[0] += 1
                    r = g(*a, **k)
                    if c[0] == n:
                        c[0] += 1
                        stop(how)
                    c[0] += 1
                    return r
                return h
            for m, a in OPS:
                setattr(m, a, wrap(getattr(m, a), a))
        f()
        sys.settrace(None)
        os._exit(0)
    except BaseException:
        os._exit(3)


def total(vs):
    r = Counter()
    for v in vs:
        for w, c in v.merged_word_counts.items():
            r[w] += c
    return dict(r)


def check(i):
    a, b, rest, first, more = i
    d = tempfile.mkdtemp(dir=os.environ['VREPLAY_SCRATCH'])
    try:
        made = []
        for n, k in enumerate((a, b) + rest):
            v = V.PartialVocab(Counter(VOCS[k]), n)
            with open(os.path.join(d, '%s.%s' % (v.id, V.PARTVOCAB_EXT)), 'wb') as f:
                V.pickle.dump(v, f)
            made.append(v)
        with open(os.path.join(d, V.PARTIAL_VOCABS_READY_FILENAME), 'w'):
            pass
        want = total(made)
        m = V.VocabMerger(1, {}, d, V.AtomicInteger(1), None, V.AtomicInteger(1), os.path.join(d, 'vocab'), os.path.join(d, 'vocabsize'))
        if first[0] == 'none':
            m._merge(made[0], made[1])
        elif first[0] == 'cut':
            old = V.finish_file_dumping
            V.finish_file_dumping = lambda p: None
            try:
                m._merge(made[0], made[1])
            finally:
                V.finish_file_dumping = old
            new = [x for x in os.listdir(d) if x.count('_') == 2]
            if len(new) == 1:
                p = os.path.join(d, new[0])
                with open(p, 'rb') as f:
                    s = f.read()
                with open(p, 'wb') as f:
                    f.write(s[:first[2]] if first[2] < 0 or first[2] < len(s) else s)
        else:
            interrupted(first, lambda: m._merge(made[0], made[1]), d)
        for s in more:
            interrupted(s, lambda: V.load_partial_vocabs(d), d)
        for again in (1, 2):
            try:
                vs = V.load_partial_vocabs(d)
            except OSError as e:
                raise AssertionError('loading failed: %s: %s' % (type(e).__name__, e))
            got = total(vs)
            assert got == want, 'total counts differ after recovering (loading %d): %s instead of %s' % (again, diff(got, want), diff(want, got))
            names = sorted(os.listdir(d))
            assert V.PARTIAL_VOCABS_READY_FILENAME in names, 'no longer ready'
            assert not [x for x in names if '_' in x], 'an interrupted result is left: %r' % names
            assert sorted('%s.%s' % (v.id, V.PARTVOCAB_EXT) for v in vs) + [V.PARTIAL_VOCABS_READY_FILENAME] == names, 'files %r for other vocabularies' % names
            assert len(vs) in (len(made), len(made) - 1), '%d vocabularies' % len(vs)
            assert sum(v.n_files for v in vs) == len(made), 'files counted twice or lost'
        if len(vs) > 1:
            x, y = vs[0], vs[1]
            m._merge(x, y)
            assert total(V.load_partial_vocabs(d)) == want, 'total counts differ when merging goes on'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def diff(a, b):
    r = {k: v for k, v in a.items() if b.get(k) != v}
    return repr(dict(list(r.items())[:5]))


def shrink(i):
    a, b, rest, first, more = i
    if rest:
        yield (a, b, rest[1:], first, more)
    if more:
        yield (a, b, rest, first, more[1:])
    if a > 1:
        yield (1, b, rest, first, more)

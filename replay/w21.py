"""histories of a real dataset on a scratch disk: stages run, are ended (by killing the forked process, by an exception or a fault of the disk) before or after any
operation on files, sources and completed results are changed, added to, removed; time passes in between. Whenever a stage has run, its results and those it
depends on must be what computing them afresh gives, changed results must be in the archive as they were, and completed unchanged results must have been left
alone; non-trivial: something ended, changed or removed"""
import builtins
import datetime
import gzip
import multiprocessing
import os
import pickle
import platform
import queue
import shutil
import sys
from collections import Counter
from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam
from codeprep.parse.core import convert_text
from codeprep.pipeline import dataset as D, parse_projects, stages, to_repr, vocab as V
from codeprep.preprocess.placeholders import placeholders
from codeprep.tokens.word import SpecialToken
from codeprep.util import to_literal_str, to_non_literal_str
from wlib import config

ROOT = os.path.join(os.environ['VREPLAY_SCRATCH'], 'fs21')
for _n in ('DEFAULT_PARSED_DATASETS_DIR', 'DEFAULT_PREP_DATASETS_DIR', 'USER_BPE_DIR', 'DEFAULT_FILE_LIST_DIR', 'USER_VOCAB_DIR', 'DEFAULT_CORPUS_SIZES_DIR'):
    assert hasattr(D, _n)
    setattr(D, _n, os.path.join(ROOT, 'cache', _n))
multiprocessing.Queue = V.Queue = queue.Queue       # one process stands for all
multiprocessing.cpu_count = lambda: 2


class Pool:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def imap_unordered(self, f, it, chunksize=1):
        return map(f, it)

    imap = map = imap_unordered

    def close(self):
        pass

    terminate = join = close


for _m in (parse_projects, to_repr, V):
    _m.Pool = Pool
V.N_CHUNKS = 2
V.VocabMerger.start = lambda self: self.run()
V.VocabMerger.join = lambda self, *a: None
for _m in (parse_projects, to_repr):
    _m.print = lambda *a, **k: None
for _m in (to_repr, V):
    _m.tqdm = lambda it, **k: it
parse_projects.tqdm = lambda it, **k: it
try:
    from codeprep.pipeline import vocabloader
    vocabloader.print = lambda *a, **k: None
except ImportError:
    pass

TEXTS = ['int camelCase = 10;\n', 'class Foo { // \xfcber "x"\n  String s = "a b\\n\u4e2d";\n}\n', 'int a;\n', 'x += y_1;\n' * 5]
TREES = [[('A.java', 0)], [('A.java', 1), ('B.java', 0)], [('d/A.java', 1), ('d/e/B.java', 3), ('C.java', 2)]]
CONF = ['u011su', 'Uc10su', 'u0EFsu', 'U0EFsu']
STAGES = ['parse', 'prep', 'vocab']
OPS = [(os, 'rename'), (os, 'replace'), (os, 'makedirs'), (os, 'remove'), (os, 'unlink'), (os, 'rmdir'), (os, 'mkdir'), (shutil, 'rmtree'), (pickle, 'dump'),
       (V.pickle, 'dump'), (builtins, 'open'), (gzip, 'open'), (os, 'listdir')]
WHAT = ['change', 'delete', 'add', 'deletedir', 'older']


def corner():
    for c in range(len(CONF)):
        yield (c % 3, c, (('run', 'vocab'), ('run', 'vocab')))
        for w in WHAT:
            for t in STAGES:
                yield (2, c, (('run', 'vocab'), (w, t, 0), ('run', 'vocab'), ('run', 'vocab')))
        yield (2, c, (('run', 'parse'), ('change', 'parse', 1), ('run', 'parse'), ('run', 'vocab')))
        yield (1, c, (('run', 'prep'), ('change', 'prep', 0), ('run', 'prep'), ('delete', 'parse', 1), ('run', 'vocab')))
        yield (1, c, (('run', 'vocab'), ('change', 'orig', 0), ('run', 'vocab'), ('change', 'prep', 1), ('change', 'vocab', 0), ('run', 'vocab')))
        yield (1, c, (('run', 'vocab'), ('change', 'prep', 1), ('run', 'parse'), ('run', 'prep'), ('run', 'vocab')))
    for n in range(16, 66, 3):
        yield (1, n % 4, (('oserror', ['parse', 'prep'][n % 2], n), ('run', 'prep')))
    for n in range(28):
        yield (0, n % 2 * 2, (('run', 'prep'), ('change', ['parse', 'prep'][n // 2 % 2], 0), ('kill', 'prep', n), ('run', 'prep')))
    for n in range(0, 88):
        yield (2, n % 2 * 2, (('run', 'prep'), ('kill', 'vocab', n), ('run', 'vocab'), ('change', 'vocab', 0), ('run', 'vocab')))
    for n in range(30, 130):
        yield (1, 2 + n // 2 % 2, (('kill', 'prep', n), ('run', 'vocab')))
    for n in range(0, 80, 5):
        yield (1, n % 4, (('run', 'vocab'), ('change', 'parse', 0), ('change', 'prep', 0), ('change', 'vocab', 0), ('kill', 'vocab', n), ('run', 'vocab'), ('run', 'vocab')))


def gen(rng):
    ops = []
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if k < 0.35:
            ops.append(('run', rng.choice(STAGES)))
        elif k < 0.65:
            ops.append((rng.choice(['kill', 'kill', 'raise', 'oserror']), rng.choice(STAGES + ['vocab']), rng.randrange(rng.choice([12, 40, 160]))))
        else:
            ops.append((rng.choice(WHAT), rng.choice(STAGES + ['orig']), rng.randrange(4)))
    return (rng.randrange(3), rng.randrange(4), tuple(ops) + (('run', 'vocab'),))


def nontrivial(i):
    return any(o[0] != 'run' for o in i[2])


def shrink(i):
    for k in range(len(i[2]) - 1):
        yield i[:2] + (i[2][:k] + i[2][k + 1:],)
    if i[0]:
        yield (i[0] - 1,) + i[1:]


class Stop(Exception):
    pass


def ended(how, n, f):
    """f in a process of its own, ended at the n-th point; was it finished?"""
    pid = os.fork()
    if pid:
        return os.waitpid(pid, 0)[1] == 0
    try:
        c, sites = [0], Counter()
        root = os.fsencode(ROOT)
        mine = lambda a, k: 'dir_fd' in k or any(isinstance(x, (str, bytes)) and os.fsencode(x).startswith(root) or hasattr(x, 'write') for x in a)  # noqa

        def point():
            c[0] += 1
            if c[0] == n + 1:
                if how == 'kill':
                    os._exit(9)
                raise Stop() if how == 'raise' else OSError(5, 'Input/output error')

        class Handle:
            """a file opened for writing; writing may stop halfway"""
            def __init__(self, f):
                self.f = f

            def __getattr__(self, a):
                return getattr(self.f, a)

            def __enter__(self):
                self.f.__enter__()
                return self

            def __exit__(self, *a):
                return self.f.__exit__(*a)

            def write(self, s):
                site = ('write', sys._getframe(1).f_code, sys._getframe(1).f_lineno)
                sites[site] += 1
                if sites[site] <= 2:
                    if c[0] == n and how == 'kill':
                        self.f.write(s[:len(s) // 2])
                        self.f.flush()
                    point()
                return self.f.write(s)

        def wrap(g, name):
            def h(*a, **k):
                fr = sys._getframe(1)
                while fr is not None and ('codeprep' + os.sep) not in fr.f_code.co_filename:
                    fr = fr.f_back
                site = fr and (fr.f_code, fr.f_lineno, name)
                sites[site] += 1
                if not mine(a, k) or sites[site] > 2:
                    return g(*a, **k)
                if name == 'dump' and c[0] == n and how == 'kill':
                    b = pickle.dumps(a[0])
                    a[1].write(b[:len(b) // 2])
                    a[1].flush()
                point()
                r = g(*a, **k)
                if hasattr(r, 'write') and c[0] == n:
                    r.close()
                point()
                return Handle(r) if name == 'open' and hasattr(r, 'write') and not hasattr(r, 'fileobj') and 'w' in (a[1:2] or (k.get('mode', 'r'),))[0] else r
            return h
        for m, a in OPS:
            if a == 'rmtree':
                continue        # its steps are points
            setattr(m, a, wrap(getattr(m, a), a))
        f()
        if os.environ.get('POINTS'):
            print(c[0])
            sys.stdout.flush()
        os._exit(0)
    except BaseException:
        os._exit(3)


def walk(p):
    """the contents of a file or directory"""
    if os.path.isfile(p):
        with open(p, 'rb') as f:
            return f.read()
    r = {}
    for d, ds, fs in os.walk(p):
        for x in fs:
            with open(os.path.join(d, x), 'rb') as f:
                r[os.path.relpath(os.path.join(d, x), p)] = f.read()
        if not ds and not fs:
            r[os.path.relpath(d, p)] = None
    return r


def marks(p):
    if os.path.isfile(p):
        s = os.stat(p)
        return (s.st_ino, s.st_mtime_ns)
    return sorted((os.path.join(d, x), os.stat(os.path.join(d, x)).st_ino, os.stat(os.path.join(d, x)).st_mtime_ns) for d, _, fs in os.walk(p) for x in fs)


def age():
    """100 seconds pass"""
    form = '%y-%m-%dT%H-%M-%S'
    earlier = lambda t: (datetime.datetime.strptime(t, form) - datetime.timedelta(seconds=100)).strftime(form)     # noqa
    a = D.DEFAULT_PREP_DATASETS_DIR
    for x in sorted(os.listdir(a)) if os.path.isdir(a) else []:
        if x[-27:-17] == '.' + D.ARCHIVED_EXT + '.':
            os.rename(os.path.join(a, x), os.path.join(a, x[:-17] + earlier(x[-17:])))
    for d, ds, fs in os.walk(os.path.join(ROOT, 'cache'), topdown=False):
        for x in fs:
            p = os.path.join(d, x)
            if x.startswith('.') and x.endswith('.lastmodif'):
                with open(p) as f:
                    t = f.read()
                if len(t) == 17:
                    with open(p, 'w') as f:
                        f.write(earlier(t))
            s = os.stat(p)
            os.utime(p, ns=(s.st_atime_ns, s.st_mtime_ns - 100 * 10 ** 9))
        s = os.stat(d)
        os.utime(d, ns=(s.st_atime_ns, s.st_mtime_ns - 100 * 10 ** 9))


def check(i):
    ti, ci, ops = i
    shutil.rmtree(ROOT, ignore_errors=True)
    base = os.path.join(ROOT, 'ds')
    src = {}
    clock = [1500000000]

    def source(name, k):
        p = os.path.join(base, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf-8') as f:
            f.write(TEXTS[k % len(TEXTS)])
        src[name] = TEXTS[k % len(TEXTS)]

    def touch():
        clock[0] += 7
        for d, _, fs in os.walk(base):
            for x in fs:
                os.utime(os.path.join(d, x), (clock[0], clock[0]))
            os.utime(d, (clock[0], clock[0]))
    for name, k in TREES[ti]:
        source(name, k)
    touch()
    isbase = CONF[ci][2] == 'E'
    bpe = BpeConfig({BpeParam.CASE: 'yes', BpeParam.WORD_END: False, BpeParam.BASE: 'all', BpeParam.UNICODE: 'no' if CONF[ci][0] == 'U' else 'yes'}) if isbase else None
    cfg = config(CONF[ci])

    def make():
        return D.Dataset.create(base, bpe.to_prep_config() if bpe else cfg, 'java', None, bpe)

    def run(stage):
        ds = make()
        {'parse': stages.run_parsing, 'prep': stages.run_until_preprocessing,
         'vocab': stages.run_until_base_bpe_vocab if isbase else stages.run_until_vocab}[stage](ds)
        return ds

    def where(ds):
        return {'parse': ds.parsed.path, 'prep': ds.preprocessed.path, 'vocab': ds.path_to_bpe_vocab_file if isbase else ds.path_to_vocab_file}
    state = {}          # stage -> 'done' | ('dirty', contents to be archived)
    try:
        for op in ops:
            age()
            if op[0] == 'run':
                upto = STAGES[:STAGES.index(op[1]) + 1]
                w = where(make())
                before = {t: marks(w[t]) for t in upto if state.get(t) == 'done'}
                part = {}
                for t in upto:
                    mark = os.path.join(os.path.dirname(w[t]), '.%s.lastmodif' % os.path.basename(w[t]))
                    if t not in state and t != 'vocab' and not os.path.exists(mark):
                        part[t] = [m for m in marks(w[t]) if not m[0].endswith('.part')]
                ds = run(op[1])
                w = where(ds)
                verify(op, upto, w, src, cfg, isbase, ds)
                for t in upto:
                    now = marks(w[t])
                    if t in before:
                        assert now == before[t], '%s: the completed, unchanged result of stage %s was computed again' % (op, t)
                    if t in part:
                        assert set(part[t]) <= set(now), '%s: what was there of the unfinished stage %s was computed again' % (op, t)
                    if isinstance(state.get(t), tuple) and state[t][1] is not None:
                        a, b = D.DEFAULT_PREP_DATASETS_DIR, os.path.basename(w[t]) + '.' + D.ARCHIVED_EXT
                        assert any(x.startswith(b) and walk(os.path.join(a, x)) == state[t][1] for x in os.listdir(a)), \
                            '%s: the changed result of stage %s was not archived' % (op, t)
                    state[t] = 'done'
            elif op[0] in ('kill', 'raise', 'oserror'):
                if ended(op[0], op[2], lambda: run(op[1])):
                    return check((ti, ci, tuple(('run', o[1]) if o is op else o for o in ops)))
                for t in STAGES[:STAGES.index(op[1]) + 1]:
                    if state.get(t) == 'done':
                        continue        # not to be touched, it is complete
                    if isinstance(state.get(t), tuple):
                        state[t] = ('ended', state[t][1])
                    else:
                        state.pop(t, None)
            elif op[1] == 'orig':
                names = sorted(src)
                if op[0] in ('change', 'add'):
                    source(names[op[2] % len(names)] if op[0] == 'change' else 'new%d.java' % op[2], op[2] + 1)
                elif len(names) > 1:
                    x = names[op[2] % len(names)]
                    os.remove(os.path.join(base, x))
                    del src[x]
                else:
                    continue
                touch()
                state = {}
            elif state.get(op[1]) == 'done' or isinstance(state.get(op[1]), tuple) and state[op[1]][0] == 'dirty':
                p = where(make())[op[1]]
                if os.path.isfile(p):
                    fs = [p]
                else:
                    fs = sorted(os.path.join(d, x) for d, _, fs in os.walk(p) for x in fs)
                if op[0] == 'deletedir':
                    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p) if os.path.exists(p) else None
                    state[op[1]] = ('dirty', None)
                    continue
                if not fs or not os.path.exists(fs[0]):
                    continue
                f = fs[op[2] % len(fs)]
                if op[0] == 'older':
                    with open(f, 'wb') as g:
                        g.write(b'older\t1\n')
                    for d, ds, fs in os.walk(p):
                        for x in ds + fs:
                            os.utime(os.path.join(d, x), (1400000000, 1400000000))
                    os.utime(p, (1400000000, 1400000000))
                elif op[0] == 'change':
                    with open(f, 'ab') as g:
                        g.write(b'z\t1\n')
                elif op[0] == 'add':
                    with open(os.path.join(os.path.dirname(f), 'added'), 'wb') as g:
                        g.write(b'')
                    if os.path.isfile(p):
                        continue
                else:
                    os.remove(f)
                state[op[1]] = ('dirty', walk(p) if os.path.exists(p) and op[0] != 'deletedir' else None)
    finally:
        shutil.rmtree(ROOT, ignore_errors=True)


def verify(op, upto, w, src, cfg, isbase, ds):
    words, nonbpe = Counter(), set(placeholders.values())
    for t in upto:
        if t == 'vocab':
            continue
        got = {os.path.relpath(os.path.join(d, x), w[t]) for d, _, fs in os.walk(w[t]) for x in fs if not x.endswith('.part')}
        exp = {n + ('.parsed' if t == 'parse' else '.prep') for n in src}
        assert got == exp, '%s: the files of stage %s are %r instead of %r' % (op, t, sorted(got), sorted(exp))
    for n, text in src.items():
        toks = list(convert_text(text[:-1], 'java'))
        with gzip.GzipFile(os.path.join(w['parse'], n + '.parsed'), 'rb') as f:
            b = f.read()
        assert list(map(repr, pickle.loads(b))) == list(map(repr, toks)) and pickle.dumps(pickle.loads(b), pickle.HIGHEST_PROTOCOL) == b, \
            '%s: %s is not parsed into what its contents give' % (op, n)
        if 'prep' not in upto:
            continue
        r, m = to_repr.to_repr(cfg, toks + [SpecialToken(placeholders['ect'])], None)
        line = to_literal_str(' '.join(map(str, r)))
        with open(os.path.join(w['prep'], n + '.prep'), newline='') as f:
            assert f.read() == line + '\n', '%s: %s is not preprocessed into what its contents give' % (op, n)
        words.update(line.split(' '))
        nonbpe.update(m.nonprocessable_tokens)
    if 'prep' in upto and isbase:
        with open(ds.path_to_nonbpe_vocab_file) as f:
            got = [to_non_literal_str(x.rstrip('\n')) for x in f]
        assert sorted(got) == sorted(nonbpe), '%s: the non-BPE vocabulary is %r instead of %r' % (op, sorted(got), sorted(nonbpe))
    if 'vocab' in upto:
        with open(w['vocab']) as f:
            ls = [x.rstrip('\n').rsplit('\t', 1) for x in f]
        assert sorted((a, int(b)) for a, b in ls) == sorted(words.items()), '%s: the vocabulary differs: %r' % (
            op, sorted(set((a, int(b)) for a, b in ls) ^ set(words.items()))[:6])
        with open(os.path.join(os.path.dirname(w['vocab']), V.VOCABSIZE_FILENAME)) as f:
            assert int(f.readline()) == len(words), '%s: vocabsize' % op

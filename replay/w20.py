"""directory trees of files with similar names (several extensions, dots, spaces, quotes, non-ASCII and undecodable names, names that look like
outputs, links), extension lists in several orders with repetitions, output directory given or not; non-trivial: at least two files selected"""
import os
import shutil
from codeprep.prepconfig import PrepConfig, PrepParam
from codeprep.pipeline import dataset as D

ROOT = os.path.join(os.environ['VREPLAY_SCRATCH'], 'fs')
for _n in ('DEFAULT_PARSED_DATASETS_DIR', 'DEFAULT_PREP_DATASETS_DIR', 'USER_BPE_DIR', 'DEFAULT_FILE_LIST_DIR', 'USER_VOCAB_DIR', 'DEFAULT_CORPUS_SIZES_DIR'):
    setattr(D, _n, os.path.join(ROOT, 'cache', _n))
DIRS = ['', 'a', 'a/b', 'src', 'b', 'a.java', 'x y', '\xe9', 'a/b/c', '..a', '.git']
STEMS = ['A', 'a', 'B', 'a.b', 'A.java', '.hid', 'x y', "q'", '\xe9', 'n\nl', 'b\\n', 'java', 'ajava', 'A.java.parsed', 'A.prep', '\x80', 'A ', '"', '...']
EXTS = ['.java', '.c', '.py', '', '.java.parsed', '.prep', '.JAVA', '.cc', '.jav', '.j']
CONF = PrepConfig({PrepParam.EN_ONLY: 'U', PrepParam.COM: '0', PrepParam.STR: '1', PrepParam.SPLIT: '0', PrepParam.TABS_NEWLINES: 's', PrepParam.CASE: 'u'})
REQ = [None, '', 'java', 'java|c', 'c|java', 'c|java|c', 'py', 'cc|c', 'parsed', 'java.parsed|prep', 'j', 'java|java', 'py|c|java|py']


def corner():
    t = [(d, s + e, 0) for d in ('', 'a') for s in ('A', 'ajava') for e in ('.java', '.c', '', '.java.parsed')]
    for q in REQ:
        yield (t, q, False, False)
    for q in (None, 'java'):
        yield ([], q, False, False)
        yield ([('', 'A.java', 0)], q, True, False)
        yield ([('', 'A', 0)], None, True, True)
        yield ([('', 'A.parsed', 0), ('', 'A', 0), ('', 'A.prep', 0), ('', 'A.parsed.prep', 0)], None, False, True)
        yield ([('a', 'A.java', 1), ('a', 'B.java', 0), ('b', 'A.java', 2), ('b', 'B.java', 0)], q, False, False)


def gen(rng):
    single = rng.random() < 0.1
    n = 1 if single else rng.choice([0, 1, 2, 4, 8])
    t = sorted({('' if single else rng.choice(DIRS), rng.choice(STEMS) + rng.choice(EXTS)) for _ in range(n)})
    t = [(d, f, 0 if single else rng.choice([0, 0, 0, 0, 1])) for d, f in t if f not in ('.', '..')]
    if single and not t:
        t = [('', 'A', 0)]
    q = rng.choice(REQ) if rng.random() < 0.7 else '|'.join(rng.choice(['java', 'c', 'py', 'prep', 'cc']) for _ in range(rng.randint(1, 4)))
    return (t, q, single, rng.random() < 0.3)


def nontrivial(i):
    return len(i[0]) > 1


def shrink(i):
    for k in range(len(i[0])):
        yield (i[0][:k] + i[0][k + 1:],) + i[1:]


def enc(s):
    return s.encode('latin-1') if '\x80' in s else s.encode()


def select(names, q):
    if not q:
        return set(names)
    es = [x.encode() for x in q.split('|')]
    return {n for n in names if any(n.endswith(b'.' + e) for e in es)}


def check(i):
    tree, q, single, over = i
    shutil.rmtree(ROOT, ignore_errors=True)
    base = os.path.join(ROOT, 'ds').encode()
    os.makedirs(base)
    with open(os.path.join(ROOT, 'target'), 'w') as f:
        f.write('x')
    files = set()
    for d, f, link in tree:
        dd = os.path.join(base, enc(d)) if d else base
        try:
            os.makedirs(dd, exist_ok=True)
        except (FileExistsError, NotADirectoryError):
            continue          # a file of that name is there
        p = os.path.join(dd, enc(f))
        if os.path.lexists(p):
            continue
        if link:
            os.symlink(os.path.join(ROOT, 'target').encode(), p)
        else:
            with open(p, 'wb') as g:
                g.write(b'x')
            files.add(os.path.relpath(p, base))
    if not files and os.listdir(base) and not any(os.path.isdir(os.path.join(base, x)) for x in os.listdir(base)):
        return          # only links: the timestamp of such a directory cannot be determined (a crash outside this property)
    path = base
    if single:
        if len(files) != 1 or max(next(iter(files))) > 127:
            return
        path = os.path.join(base, next(iter(files)))
    out = os.path.join(ROOT, 'out') if over else None
    ds = D.Dataset.create(path.decode(), CONF, q, None, None, out)
    src = list(ds.original.file_iterator())
    assert len(src) == len(set(src)), 'a file is selected twice: %r' % src
    if single:
        assert src == [path], 'the dataset is the file %r, its files are %r' % (path, src)
        names = [next(iter(files))]
    else:
        names = [os.path.relpath(s, base) for s in src]
        exp = select(files, q)
        assert set(names) == exp, 'extensions %r select %r instead of %r' % (q, sorted(names), sorted(exp))
    # the list saved by the first iteration, and the same extensions in another order with repetitions
    assert list(ds.original.file_iterator()) == src, 'a second iteration over the dataset gives other files'
    if q and not single:
        p = q.split('|')
        for q2 in ('|'.join(reversed(p)), '|'.join(p + p), '|'.join(sorted(p))):
            ds2 = D.Dataset.create(path.decode(), CONF, q2, None, None, out)
            assert sorted(ds2.original.file_iterator()) == sorted(src), 'extensions %r and %r select different files' % (q, q2)
            assert (ds2.parsed.path, ds2.preprocessed.path) == (ds.parsed.path, ds.preprocessed.path), 'extensions %r and %r have different outputs' % (q, q2)
    if over:
        assert os.path.dirname(ds.preprocessed.path) == out, 'output %r is not in the requested directory' % ds.preprocessed.path
    par, prep = (os.path.normpath(x.path.encode()) for x in (ds.parsed, ds.preprocessed))
    assert par != prep
    p1 = [ds.original.get_new_file_name(s, ds.parsed) for s in src]
    for n, o in zip(names, p1):
        e = os.path.join(par, n + b'.parsed')
        assert os.path.normpath(o) == e, '%r is parsed into %r instead of %r' % (n, o, e)
    it = list(ds.parsed.file_iterator())
    assert [os.path.normpath(x) for x in it] == [os.path.normpath(x) for x in p1], 'parsed files are written to %r and read from %r' % (p1, it)
    p2 = [ds.parsed.get_new_file_name(s, ds.preprocessed) for s in it]
    for n, o in zip(names, p2):
        e = os.path.join(prep, n + b'.prep')
        assert os.path.normpath(o) == e, '%r is preprocessed into %r instead of %r' % (n, o, e)
    allp = [os.path.normpath(x) for x in p1 + p2]
    assert len(set(allp)) == len(allp), 'outputs are shared: %r' % allp

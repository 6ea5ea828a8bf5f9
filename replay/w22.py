"""both preprocess_and_write functions on a scratch file, stopped at every line of theirs and before and after every operation on files, by an exception or
by ending the (forked) process, with the result there already or not, the source there or not; afterwards whatever has the final name must be the complete
result, a result that was there must be untouched, and running again must give the complete result; non-trivial: really stopped before the end"""
import builtins
import gzip
import os
import pickle
import shutil
import sys
import tempfile
from codeprep.parse.core import convert_text
from codeprep.pipeline import parse_projects, to_repr
from codeprep.tokens.word import SpecialToken
from codeprep.util import to_literal_str
from wlib import config, bpe_data, tok

FILES = ('parse_projects.py', 'to_repr.py', 'fileutils.py', 'metadata.py')
TEXTS = ['int a = 0;\n', 'class Foo { // \xfcber "x"\n  String s = "a b\\n\u4e2d";\n}\n', '', 'int camelCase1 = 10;\n' * 3, 'x = "\xa0";\n' * 400]
TOKS = [[], [('id', ['foo', 'Bar']), ('op', '='), ('str', [('ncc', '"'), ('sp', 2), ('noneng', ['\xfcber']), ('ncc', '"')], 8)],
        [('olc', [('op', '/'), ('id', ['foo']), ('nl',)]), ('num', '10'), ('tab',)], [('id', ['a', 'HTTP', 'camel']), ('nl',)] * 1500]
CONF = ['u011su', 'uc140u', 'Uc18su', 'U0E10u']
OPS = [(os, 'rename'), (os, 'replace'), (os, 'makedirs'), (os, 'remove'), (os, 'unlink'), (os, 'link'), (shutil, 'move'), (shutil, 'copy'), (shutil, 'copyfile'),
       (pickle, 'dump'), (pickle, 'load'), (builtins, 'open'), (gzip, 'open'), (gzip, 'GzipFile')]


class Stop(Exception):
    pass


def corner():
    for kind in ('parse', 'prep'):
        for there in (False, True):
            for src in (True, False):
                yield (kind, 1, 0, there, src, False, ('none', 0))
                yield (kind, 1, 1, there, src, True, ('none', 0))
    for kind in ('parse', 'prep'):
        for n in range(44):
            for how in ('raise', 'kill'):
                yield (kind, 1 + n % 3, n % 4, False, True, n % 2 == 0, (how + '-line', n))
        for n in range(16):
            for how in ('raise', 'kill', 'oserror'):
                yield (kind, 1 + n % 3, n % 4, False, True, n % 3 == 0, (how + '-op', n))
        for n in range(8):
            yield (kind, 3, 0, True, True, True, ('raise-op', n))
            yield (kind, 3, 1, False, False, True, ('oserror-op', n))
        for n in (0, 1, 9, 20, 40):
            yield ('prep', 1 + n % 2, n % 4, False, True, n % 2 == 0, ('cut', n))
        yield (kind, 1, 0, False, True, True, ('unpicklable', 0))
        yield (kind, 1, 0, False, True, True, ('bad-token', 0))


def gen(rng):
    return (rng.choice(['parse', 'prep']), rng.randrange(4), rng.randrange(4), rng.random() < 0.2, rng.random() < 0.9, rng.random() < 0.5,
            (rng.choice(['raise-line', 'kill-line', 'raise-op', 'kill-op', 'oserror-op', 'unpicklable', 'bad-token']), rng.randrange(30)))


def nontrivial(i):
    return i[6][0] != 'none'


class Bad:
    def __reduce__(self):
        raise Stop('cannot be pickled')


def stop(how):
    if how.startswith('kill'):
        os._exit(9)
    if how.startswith('oserror'):
        raise OSError(5, 'Input/output error')
    raise Stop('stopped here')


def traced(how, n, f):
    c = set()

    def line(fr, ev, arg):
        if ev == 'line' and (fr.f_code, fr.f_lineno) not in c:
            c.add((fr.f_code, fr.f_lineno))
            if len(c) == n + 1:
                stop(how)
        return line

    def tr(fr, ev, arg):
        return line if os.path.basename(fr.f_code.co_filename) in FILES else None
    sys.settrace(tr)
    try:
        f()
    finally:
        sys.settrace(None)


def with_ops(how, n, f, root):
    c, saved = [0], []
    mine = lambda a: any(isinstance(x, (str, bytes)) and os.fsencode(x).startswith(root) for x in a) or any(hasattr(x, 'write') or hasattr(x, 'read') for x in a)  # noqa

    def wrap(g):
        def h(*a, **k):
            if not mine(list(a) + list(k.values())):
                return g(*a, **k)
            if c[0] == n:
                c[0] += 1
                stop(how)
            c[0] += 1
            r = g(*a, **k)
            if c[0] == n:
                c[0] += 1
                if hasattr(r, 'close'):
                    r.close()
                stop(how)
            c[0] += 1
            return r
        return h
    for m, a in OPS:
        saved.append((m, a, getattr(m, a)))
        if a != 'GzipFile':
            setattr(m, a, wrap(getattr(m, a)))
    try:
        f()
    finally:
        for m, a, g in saved:
            setattr(m, a, g)


def spoil(which, mod, name, f):
    old = getattr(mod, name, None)
    if old is None:
        return f()
    if mod is parse_projects:
        def new(*a, **k):
            r = list(old(*a, **k))
            yield from r[:len(r) // 2]
            if which == 'unpicklable':
                yield Bad()
            else:
                raise Stop('convert_text failed')
    else:
        def new(*a, **k):
            raise Stop('to_repr failed')
    setattr(mod, name, new)
    try:
        f()
    finally:
        setattr(mod, name, old)


def check(i):
    kind, ti, ci, there, src, part, (how, n) = i
    d = tempfile.mkdtemp(dir=os.environ['VREPLAY_SCRATCH']).encode()
    try:
        sp, dp = os.path.join(d, b'in', b'a.java'), os.path.join(d, b'out', b'x', b'a.java.result')
        folder = os.path.join(d, b'part').decode()
        os.mkdir(folder)
        os.mkdir(os.path.join(d, b'in'))
        if there:
            os.makedirs(os.path.dirname(dp))
            with open(dp, 'wb') as f:
                f.write(b'OLD')
        if kind == 'parse':
            text = TEXTS[ti % len(TEXTS)]
            if src:
                with open(sp, 'wb') as f:
                    f.write(text.encode('utf-8'))
            lines = text.split('\n')
            if src:
                from codeprep.fileutils import read_file_contents
                lines, _ = read_file_contents(sp)
            want = list(map(repr, convert_text('\n'.join(lines), 'java')))
            f0 = lambda: parse_projects.preprocess_and_write((sp, dp))      # noqa
            mod, name = parse_projects, 'convert_text'
        else:
            cfg, ts = config(CONF[ci]), [tok(t) for t in TOKS[ti % len(TOKS)]]
            data = bpe_data(5) if CONF[ci][3] in '456789' else None
            if src:
                with gzip.GzipFile(sp, 'wb') as f:
                    pickle.dump(ts, f)
            if how == 'cut':
                with open(sp, 'rb') as f:
                    b = f.read()
                assert len(b) > n
                with open(sp, 'wb') as f:
                    f.write(b[:n])
            want = to_literal_str(' '.join(to_repr.to_repr(cfg, ts + [SpecialToken('<EOF>')], data)[0])) + '\n'
            f0 = lambda: to_repr.preprocess_and_write((sp, dp, cfg, folder if part else None), data)    # noqa
            mod, name = to_repr, 'to_repr'

        def result():
            if kind == 'parse':
                with gzip.GzipFile(dp, 'rb') as f:
                    return list(map(repr, pickle.load(f)))
            with open(dp, newline='') as f:
                return f.read()

        def complete(when):
            if there:
                with open(dp, 'rb') as f:
                    assert f.read() == b'OLD', '%s: the result that was there was changed' % when
                return
            if not os.path.exists(dp):
                return
            assert src, '%s: a result without a source' % when
            try:
                r = result()
            except (EOFError, OSError, pickle.UnpicklingError, UnicodeError) as e:
                raise AssertionError('%s: an incomplete file under the final name (%s: %s)' % (when, type(e).__name__, e))
            assert r == want, '%s: an incomplete file under the final name' % when
            if kind == 'prep' and part:
                assert os.listdir(folder), '%s: the result is there, its non-BPE tokens are not' % when

        def go():
            if how.endswith('line'):
                traced(how, n, f0)
            elif how.endswith('-op'):
                with_ops(how, n, f0, d)
            elif how in ('unpicklable', 'bad-token'):
                spoil(how, mod, name, f0)
            else:
                f0()
        ended = False
        if how.startswith('kill'):
            pid = os.fork()
            if not pid:
                try:
                    go()
                    os._exit(0)
                except BaseException:
                    os._exit(3)
            st = os.waitpid(pid, 0)[1]
            ended = st == 0
        else:
            try:
                go()
                ended = True
            except (Stop, OSError, EOFError, pickle.UnpicklingError):
                pass
        complete('after being stopped (%s %d)' % (how, n) if how != 'none' else 'after running')
        if ended and src and how == 'none':
            assert os.path.exists(dp), 'no result'
        if how == 'cut':
            assert there or not os.path.exists(dp), 'a result from a source that is cut off'
        elif src:
            f0()
            assert os.path.exists(dp), 'no result when run again'
        else:
            try:
                f0()
            except OSError:
                pass
            assert there or not os.path.exists(dp), 'a result without a source'
        complete('when run again')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shrink(i):
    if i[1] > 1:
        yield i[:1] + (1,) + i[2:]
    if i[2]:
        yield i[:2] + (0,) + i[3:]

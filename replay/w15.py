"""registries of learned codes on disk (several ids, several numbers of merges, other folders in between), every request around the learned
numbers, ids composed of arbitrary names; non-trivial: at least two lists"""
import os
import shutil
from codeprep.bpepkg.merge import Merge, MergeList, dump_merges
from codeprep.pipeline import bperegistry as R
from codeprep.pipeline import bpelearner as L

ROOT = os.path.join(os.environ['VREPLAY_SCRATCH'], 'bpe')
R.USER_BPE_DIR = ROOT
NAMES = ['abc', 'a-b', 'python-no-case', 'x', 'abc-1', 'data set', '10', 'abc_we', 'q.1', '-', 'caf\xe9', 'a-10-b', 'AbC', '1-1']
NUMS = [1, 2, 3, 5, 9, 10, 11, 99, 100, 1000, 10000]


def corner():
    yield ('dirs', [('abc', [])], 'abc', 1)
    for nums in ([1], [10], [9, 10], [10, 9, 100], [5, 1000, 99, 10000], [2, 3, 1]):
        for req in sorted({1} | {n + d for n in nums for d in (-1, 0, 1)} - {0}):
            yield ('dirs', [('abc', nums), ('abc-1', [7])], 'abc', req)
    yield ('dirs', [('abc', [3]), ('a', [100])], 'a', 4)
    yield ('dirs', [('a', [3]), ('abc', [100])], 'abc', 4)
    yield ('dirs', [('abc', [3])], 'ABC', 1)
    for nm in NAMES:
        for n in NUMS:
            yield ('id', nm, n)
    for s in ('abc', 'abc-', 'abc-0', 'abc_1', 'abc-01', '-1', '', 'abc-1x', 'abc-1 ', 'abc--1', 'abc-x-1', 'abc1', 'a-\u0661', 'abc-1-'):
        yield ('any', s)


def gen(rng):
    r = rng.random()
    if r < 0.5:
        names = rng.sample(NAMES, rng.choice([1, 2, 3]))
        ids = [(n, rng.sample(NUMS, rng.choice([0, 1, 2, 3, 5]))) for n in names]
        return ('dirs', ids, rng.choice(names + ['other']), max(1, rng.choice(NUMS) + rng.choice([-1, 0, 1])))
    if r < 0.75:
        return ('id', ''.join(rng.choice('ab-_1 0\xe9') for _ in range(rng.randint(0, 6))), rng.choice(NUMS + [rng.randint(1, 10 ** 9)]))
    return ('any', ''.join(rng.choice('ab-_1 0') for _ in range(rng.randint(0, 7))))


def nontrivial(i):
    return i[0] != 'dirs' or sum(len(n) for _, n in i[1]) > 1


def pairs(n):
    return [('a%d' % k, 'b%d' % k) for k in range(n)]


def build(ids):
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(ROOT)
    for k, (name, nums) in enumerate(ids):
        d = os.path.join(ROOT, 'ds%d_25-01-01' % k)
        os.makedirs(os.path.join(d, 'part_vocab'))
        os.makedirs(os.path.join(d, '.hidden'))
        with open(os.path.join(d, '.name'), 'w') as f:
            f.write(name)
        for n in nums:
            os.makedirs(os.path.join(d, str(n)))
            if n <= 100:
                ml = MergeList()
                for p, m in enumerate(pairs(n)):
                    ml.append(Merge(m, freq=n + 1, priority=p))
                dump_merges(ml, os.path.join(d, str(n), 'merges.txt'))


def check(i):
    if i[0] == 'id':
        s = '%s-%d' % (i[1], i[2])
        assert R.parse_merge_list_id(s) == (i[1], i[2]), '%r parsed as %r' % (s, R.parse_merge_list_id(s))
        return
    if i[0] == 'any':
        try:
            a, b = R.parse_merge_list_id(i[1])
        except R.InvalidBpeCodesIdError:
            t = i[1].rpartition('-')
            assert not (t[1] and t[2].isdigit() and t[2].isascii() and not t[2].startswith('0')), '%r refused' % i[1]
            return
        assert '%s-%d' % (a, b) == i[1].rstrip('\n') and b > 0, '%r parsed as %r' % (i[1], (a, b))
        return
    ids, name, req = i[1:]
    build(ids)
    known = dict(ids)
    d = [os.path.join(ROOT, 'ds%d_25-01-01' % k) for k, (n, _) in enumerate(ids) if n == name]
    fit = [n for n in known.get(name, []) if n >= req]
    variants = [lambda: R.CustomBpeConfig.create(name, req), lambda: R.CustomBpeConfig.from_id('%s-%d' % (name, req))]
    for v in variants:
        try:
            c = v()
        except R.InvalidBpeCodesIdError:
            assert not fit, 'request %d refused although %r were learned' % (req, known[name])
            continue
        assert fit, 'request %d accepted with %r' % (req, known.get(name))
        want = os.path.join(d[0], str(min(fit)), 'merges.txt')
        assert c.codes_file == want and c.n_merges == req and c.merge_list_id == name, 'request %d of %r: %r, expected the file %s' % (req, ids, c, want)
        assert not c.can_use_cache_file(), 'the cache of %d merges would be used for %d' % (min(fit), req)
    if fit and min(fit) <= 100:
        ml = R.load_bpe_merges(name, req)
        assert [m.pair for m in ml] == pairs(req), 'not the first %d merges' % req
        from codeprep.preprocess import core
        try:
            data = core.init_bpe_data  # noqa
        except AttributeError:
            pass
    if d:
        got = L.get_dir_with_most_merges(d[0], req)
        below = [n for n in known[name] if n <= req]
        want = os.path.join(d[0], str(max(below))) if below else None
        assert got == want, 'learning up to %d with %r resumes from %r' % (req, known[name], got)


def shrink(i):
    if i[0] == 'dirs':
        for k in range(len(i[1])):
            yield ('dirs', i[1][:k] + i[1][k + 1:]) + i[2:]
            n, xs = i[1][k]
            for j in range(len(xs)):
                yield ('dirs', i[1][:k] + [(n, xs[:j] + xs[j + 1:])] + i[1][k + 1:]) + i[2:]

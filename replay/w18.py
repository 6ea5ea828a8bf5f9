"""random subtoken lists with word boundaries, valid and invalid, both iterators, with and without indices, several formats; non-trivial: at least two words"""
import random
from codeprep.subtokens import FullTokenIterator, SubtokenIterator


def corner():
    for subs, wb in ((['hi', 'the', 're'], [0, 1, 3]), ([], [0]), ([], []), (['a'], [0]), (['a'], [1]), (['a'], [0, 1]), (['a', 'b'], [1, 2]),
                     (['a', 'b'], [0, 1]), (['a', 'b'], [0, 3]), (['a', 'b', 'c'], [0, 1, 2, 3]), (['a', 'b', 'c', 'd'], [0, 2, 4]),
                     (['a', 'b', 'c', 'd'], [0, 4]), ([], [1]), (['a'], []), (['a', 'b'], [-1, 2]), (['', ''], [0, 1, 2])):
        for idx in (False, True):
            for f in ('default', 'list'):
                yield (subs, wb, idx, f)


def gen(rng):
    words = [rng.randint(1, 4) for _ in range(rng.choice([0, 1, 2, 3, 6, 30, 30, 150]))]
    wb = [0]
    for w in words:
        wb.append(wb[-1] + w)
    n = wb[-1]
    r = rng.random()
    if r < 0.1:
        wb[0] = rng.choice([1, -1, 2])
    elif r < 0.2:
        n += rng.choice([1, 2, -1])
    elif r < 0.22:
        wb = []
    subs = [rng.choice('abcXY') * rng.randint(0, 2) + str(k) for k in range(max(n, 0))]
    return (subs, wb, rng.random() < 0.5, rng.choice(['default', 'list']))


def nontrivial(i):
    return len(i[1]) > 2


def check(i):
    subs, wb, idx, f = i
    valid = len(wb) > 0 and wb[0] == 0 and wb[-1] == len(subs)
    kw = {'return_full_token_index': idx}
    if f == 'list':
        kw['format'] = lambda l: list(l)
    for cls in (FullTokenIterator, SubtokenIterator):
        try:
            it = cls(list(subs), list(wb), **kw)
        except ValueError:
            assert not valid, '%s rejected %r / %r' % (cls.__name__, subs, wb)
            continue
        assert valid, '%s accepted %r / %r' % (cls.__name__, subs, wb)
        got = []
        for x in it:
            got.append(x)
            assert len(got) <= len(subs) + len(wb), 'does not end'
        want = []
        for w in range(len(wb) - 1):
            part = subs[wb[w]:wb[w + 1]]
            if cls is FullTokenIterator:
                v = [part if f == 'list' else ''.join(part)]
            else:
                v = [[s] if f == 'list' else s for s in part]
            want += [(w, e) for e in v] if idx else v
        assert got == want, '%s(%r, %r, idx=%s): %r, expected %r' % (cls.__name__, subs, wb, idx, got, want)


def shrink(i):
    return []

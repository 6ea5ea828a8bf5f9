"""vocabularies of up to 40 words with many ties and limits around every group border; non-trivial: the limit is below the size"""
from collections import Counter
from codeprep.pipeline.vocab import PartialVocab
from codeprep.preprocess.placeholders import placeholders


def corner():
    for counts in ([], [1], [1, 1], [3, 2, 1], [2, 2, 1, 1], [1, 1, 2, 2], [5, 5, 5, 5], [1, 2, 3, 3, 3, 2, 9], [0, 0, 1], [7, 7, 7, 3, 3, 3, 1]):
        for n in range(0, len(counts) + 3):
            for ne in (False, True):
                yield (counts, n, ne)


def gen(rng):
    k = rng.randint(0, 40)
    mx = rng.choice([1, 2, 3, 10, 1000])
    counts = [rng.randint(1, mx) for _ in range(k)]
    return (counts, rng.randint(0, k + 3), rng.random() < 0.3)


def nontrivial(i):
    return i[1] < len(i[0])


def check(i):
    counts, n, ne = i
    words = ['w%d' % k for k in range(len(counts))]
    if ne and words:
        words[-1] = placeholders['non_eng']
    c = Counter(dict(zip(words, counts)))
    pv = PartialVocab(Counter(c), 0)
    pv.limit_max_vocab(n)
    if len(c) <= n:
        want = dict(c)
    else:
        f = sorted(c.values(), reverse=True)[n]
        want = {w: x for w, x in c.items() if x > f}
    got = dict(pv.merged_word_counts)
    assert len(got) <= n, '%d words remain, limit %d' % (len(got), n)
    assert got == want, 'limit %d of %r: %r, expected %r' % (n, dict(c), got, want)


def shrink(i):
    for k in range(len(i[0])):
        yield (i[0][:k] + i[0][k + 1:],) + i[1:]

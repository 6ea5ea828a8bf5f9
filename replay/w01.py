"""random words over letters, '@', umlauts, other scripts, no-break spaces and control characters, random merge lists over their escaped characters (including pairs
of pairs), empty cache; non-trivial: '@' in the word or a merge applied"""
import random
from codeprep.bpepkg.bpe_encode import BpeData, get_bpe_subwords
from codeprep.bpepkg.merge import Merge, MergeList

ALPH = ['a', 'b', 'c', '@', '_', '\xa0', '\xf7', '\u4e2d', '\t', '\U0001f600']


def merge_list(pairs):
    ml = MergeList()
    for p in pairs:
        if p not in ml:
            ml.append(Merge(tuple(p), 1, len(ml)))
    return ml


def symbols(word):
    return ['@@' if c == '@' else c for c in word] + ['@']


def gen_pairs(rng, word, n):
    """pairs that can occur: symbols of the word joined at random"""
    pairs = []
    cur = symbols(word)
    for _ in range(n):
        if len(cur) < 2 or rng.random() < 0.15:
            cur = symbols(word)
        if len(cur) < 2:
            break
        i = rng.randrange(len(cur) - 1)
        p = (cur[i], cur[i + 1])
        if p not in pairs:
            pairs.append(p)
        cur = cur[:i] + [cur[i] + cur[i + 1]] + cur[i + 2:]
    if rng.random() < 0.5:
        rng.shuffle(pairs)
    return pairs


def gen(rng):
    k = rng.choice([1, 2, 3, 10])
    alph = rng.sample(ALPH, k)
    w = ''.join(rng.choice(alph) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13])))
    return (w, gen_pairs(rng, w, rng.choice([0, 1, 2, 4, 8])))


def corner():
    import itertools
    pools = [[], [('a', 'a')], [('a', '@@')], [('@@', '@@')], [('@@', '@')], [('a', '@')], [('a', 'a'), ('aa', 'aa')], [('a', 'a'), ('a', '@')], [('@@', 'a'), ('@@a', '@')],
             [('a', 'b'), ('b', 'a')], [('b', 'a'), ('a', 'b')], [('a', 'b'), ('ab', 'ab')]]
    for n in range(0, 6):
        for t in itertools.product('ab@' if n < 5 else 'a@', repeat=n):
            for p in pools:
                yield (''.join(t), p)
    yield ('a' * 5100, [('a', 'a'), ('aa', 'aa')])
    yield ('ab' * 2600, [])
    for c in ALPH:
        yield (c, [])
        yield (c + c + 'x', [(c, c), ('@@', '@@')])


def nontrivial(i):
    return '@' in i[0] or bool(i[1])


def check(i):
    w, pairs = i
    r = get_bpe_subwords(w, BpeData(merges_cache={}, merges=merge_list(pairs)))
    assert isinstance(r, list) and r, '%r split into %r' % (w, r)
    assert ''.join(r) == w, 'subtokens %r of %r are not the word' % (r, w)
    assert all(x != '' for x in r[:-1]), 'empty subtoken in %r' % (r,)
    if not pairs:
        assert all(len(x) == 1 for x in r[:-1]), 'subtokens %r of %r without merges' % (r, w)


def shrink(i):
    w, p = i
    for k in range(len(w)):
        yield (w[:k] + w[k + 1:], p)
    for k in range(len(p)):
        yield (w, p[:k] + p[k + 1:])

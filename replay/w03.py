"""sequences of words split with the same BPE data (words repeated, cached and not, with and without '@'): after every split cache and merges are what they were
at the start and the result is the one of the first time; non-trivial: a word that occurs twice and a cache or merge in use"""
import copy
import random
from codeprep.bpepkg.bpe_encode import BpeData, get_bpe_subwords
from w01 import gen_pairs, merge_list
import w01
from w02 import escaped, pieces


def gen(rng):
    words, pairs, cache = [], [], []
    for _ in range(rng.choice([1, 2, 3])):
        w, p = w01.gen(rng)
        words.append(w)
        pairs += [x for x in p if x not in pairs]
        if rng.random() < 0.6:
            cache.append((escaped(w), pieces(rng, w)))
    seq = [rng.choice(words) for _ in range(rng.choice([2, 3, 5, 8]))]
    return (seq, pairs, cache)


def corner():
    for w in ('', 'a', 'ab', '@', 'a@b', 'aa@'):
        for c in ([], [(escaped(w), [escaped(w)])], [(escaped(w), w01.symbols(w))]):
            for p in ([], [('a', 'b')], [('a', 'a'), ('a', '@')]):
                yield ([w] * 3, p, c)
                yield ([w, 'ab', w, 'b', w], p, c)
    yield ([chr(97 + k % 26) * (k % 40 + 1) for k in range(300)] * 2, [('a', 'a'), ('b', 'b'), ('aa', 'aa')], [(escaped('a'), ['a@']), (escaped('bbb'), ['b', 'bb@'])])


def nontrivial(i):
    return len(set(i[0])) < len(i[0]) and bool(i[1] or i[2])


def state(d):
    return (copy.deepcopy(d.merges_cache), [(m.pair, m.freq, m.priority) for m in d.merges], len(d.merges))


def check(i):
    seq, pairs, cache = i
    d = BpeData(merges_cache={k: list(v) for k, v in cache}, merges=merge_list([tuple(p) for p in pairs]))
    before = state(d)
    first = {}
    for n, w in enumerate(seq):
        r = list(get_bpe_subwords(w, d))
        now = state(d)
        assert now[0] == before[0], 'splitting %r changed the cache from %r to %r' % (w, before[0], now[0])
        assert now[1:] == before[1:], 'splitting %r changed the merges' % w
        if w in first:
            assert r == first[w], '%r split into %r at first and later into %r' % (w, first[w], r)
        first[w] = list(r)


def shrink(i):
    s, p, c = i
    for k in range(len(s)):
        yield (s[:k] + s[k + 1:], p, c)
    for k in range(len(p)):
        yield (s, p[:k] + p[k + 1:], c)
    for k in range(len(c)):
        yield (s, p, c[:k] + c[k + 1:])

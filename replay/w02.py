"""words, merge lists and caches as for C01, the cache holding some segmentation of the word or of other words; the segmentation is compared with a
direct application of the rule (best pair, all its occurrences from the left); non-trivial: a merge applied or the word cached"""
import random
from codeprep.bpepkg.bpe_encode import BpeData, encode_word, get_bpe_subwords
from w01 import ALPH, gen_pairs, merge_list, symbols
import w01


def reference(syms, pairs):
    syms = list(syms)
    while True:
        best = None
        for p in pairs:
            if any((syms[i], syms[i + 1]) == tuple(p) for i in range(len(syms) - 1)):
                best = tuple(p)
                break
        if best is None:
            return syms
        out, i = [], 0
        while i < len(syms):
            if i + 1 < len(syms) and (syms[i], syms[i + 1]) == best:
                out.append(syms[i] + syms[i + 1])
                i += 2
            else:
                out.append(syms[i])
                i += 1
        syms = out


def escaped(w):
    return w.replace('@', '@@') + '@'


def pieces(rng, w):
    """some way to cut an escaped word"""
    s = symbols(w)
    out = [s[0]]
    for x in s[1:]:
        if rng.random() < 0.5:
            out[-1] += x
        else:
            out.append(x)
    return out


def gen(rng):
    w, pairs = w01.gen(rng)
    cache = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        o = w if rng.random() < 0.5 else w01.gen(rng)[0]
        cache.append((escaped(o), pieces(rng, o)))
    return (w, pairs, cache)


def corner():
    for w, pairs in w01.corner():
        yield (w, pairs, [])
    for w, pairs in [('aaaa', [('a', 'a')]), ('aaaaa', [('aa', 'a'), ('a', 'a')]), ('abab', [('b', 'a'), ('a', 'b')]), ('abcabc', [('b', 'c'), ('a', 'b'), ('a', 'bc')])]:
        yield (w, pairs, [])
        yield (w, pairs, [(escaped(w), [escaped(w)])])
        yield (w, pairs, [(escaped(w), symbols(w))])
        yield (w, pairs, [(w, [w + '@'])])
    yield ('a@b', [('a', '@@')], [('a@@b@', ['a', '@@b', '@'])])
    for n in (4998, 4999, 5000, 5001):
        yield ('ab' * (n // 2) + 'c' * (n % 2), [('a', 'b'), ('ab', 'ab')], [])


def nontrivial(i):
    return bool(i[1] or i[2])


def check(i):
    w, pairs, cache = i
    pairs = [tuple(p) for p in pairs]
    known = {k: list(v) for k, v in cache}
    r = get_bpe_subwords(w, BpeData(merges_cache=dict(known), merges=merge_list(pairs)))
    e = escaped(w)
    want = list(known[e]) if e in known else reference(symbols(w), pairs)
    if e not in known:
        got = encode_word(e, merge_list(pairs))
        assert list(got) == want, '%r with merges %r split into %r instead of %r' % (e, pairs, got, want)
    want = want[:-1] + [want[-1][:-1]]
    want = [x.replace('@@', '@') for x in want]
    assert list(r) == want, '%r with merges %r and cache %r split into %r instead of %r' % (w, pairs, known, r, want)


def shrink(i):
    w, p, c = i
    for k in range(len(c)):
        yield (w, p, c[:k] + c[k + 1:])
    if not c:
        for k in range(len(w)):
            yield (w[:k] + w[k + 1:], p, c)
    for k in range(len(p)):
        yield (w, p[:k] + p[k + 1:], c)

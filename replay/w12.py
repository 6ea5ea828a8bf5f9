"""merge lists (with and without frequencies), caches of segmentations, dictionaries of counts and sets of tokens over words of awkward characters,
written by the real writers to a scratch file and read back by the real readers, also limited to the first n merges; non-trivial: two entries or more and
a word with a character outside a-z"""
import os
import tempfile
from collections import Counter
from codeprep.bpepkg.cache import dump_bpe_cache, read_bpe_cache
from codeprep.bpepkg.merge import Merge, MergeList, dump_merges, read_merges
from codeprep.pipeline.bpelearner import load_nonbpe_vocab
from codeprep.pipeline.vocab import PartialVocab, _dump_vocab_dict, _load_vocab_dict, _load_vocab_set
from codeprep.preprocess.metadata import PreprocessingMetadata, save_metadata

CH = ['a', 'b', 'Z', '0', '7', '-', '\\', 'n', 't', 'x', 'u', 'N', '{', '"', "'", '#', '\t', '\n', '\r', '\x0b', '\x0c', '\x00', '\x1c', '\x7f', '\x85', '\xa0', '\xad',
      '\xe9', '\xf7', '\u0130', '\u2028', '\u3000', '\u4e2d', '\U0001d4d0', '\ufeff', '\ud800', ',', ';', ':', '@', '<', '>', '%', '\x1f', '=', '|']
WORDS = ['', 'a', '\\', '\\n', '\n', '\t', '\\\n', '\\\\', '\\t\t', '\xe9', 'None', '12', '-3', '\u2028', '\x85', 'a\nb', '\r', '\r\n', '\\x41', '\xa0', '#version', '"a"', '#', '//',
         "'", "it's", '\\u00e9', '\ufeffa', 'a\\', '<EOF>', '@', 'a\tb', '\x1c', '0', '1e5', '1_000', '\u0663']


def file_():
    f, p = tempfile.mkstemp(dir=os.environ.get('VREPLAY_SCRATCH') or None)
    os.close(f)
    return p


def corner():
    for w in WORDS:
        yield ('m', [((w, w), 3)], 0)
        yield ('m', [((w, 'a'), None), (('b', w), None), ((w + 'c', 'd'), None)], 2)
        yield ('m', [(('a', 'b'), 5), ((w, 'z'), 0), (('q', w), 10 ** 12)], 2)
        yield ('c', {w: [w]})
        yield ('c', {w: [w, 'a', w], 'q' + w: ['q', w], 'z': ['z', '']})
        yield ('d', {w: 1, 'x' + w: 0, w + 'y': 10 ** 15})
        yield ('s', [w])
        yield ('s', ['a', w + 'x', w])
    for n in range(0, 7):
        yield ('m', [((chr(97 + k), 'x'), 9 - k) for k in range(5)], n)
        yield ('m', [((chr(97 + k), 'x'), None) for k in range(5)], n)
    for k in ('m', 'c', 'd', 's'):
        yield (k, [], 0) if k == 'm' else (k, [] if k == 's' else {})
    yield ('d', {'w%d' % k: k % 7 for k in range(300)})
    yield ('s', ['w%d' % k for k in range(300)])


def word(rng):
    return rng.choice(WORDS) if rng.random() < 0.3 else ''.join(rng.choice(CH) for _ in range(rng.randint(0, 6)))


def gen(rng):
    k = rng.choice('mcds')
    n = rng.randint(0, 6)
    if k == 'm':
        f = rng.random() < 0.5
        ps = {(word(rng), word(rng)): None if f and rng.random() < 0.7 else rng.randint(0, 10 ** rng.randint(0, 9)) for _ in range(n)}
        return ('m', list(ps.items()), rng.randint(0, n + 2))
    if k == 'c':
        return ('c', {word(rng): [word(rng) for _ in range(rng.randint(1, 4))] for _ in range(n)})
    if k == 'd':
        return ('d', {word(rng): rng.randint(0, 10 ** rng.randint(0, 9)) for _ in range(n)})
    return ('s', sorted({word(rng) for _ in range(n)}))


def nontrivial(i):
    return len(i[1]) >= 2 and any(not ch.islower() for ch in repr(i[1]).replace('(', '').replace(',', ''))


def check(i):
    p = file_()
    try:
        if i[0] == 'm':
            ml = MergeList()
            for pair, f in i[1]:
                ml.append(Merge(pair, f))
            dump_merges(ml, p)
            got = [(m.pair, m.freq, m.priority) for m in read_merges(p)]
            want = [(pr, f, k) for k, (pr, f) in enumerate(i[1])]
            assert got == want, 'merges %r read back as %r' % (want, got)
            n = i[2]
            if n:
                got = read_merges(p, n)
                assert [(m.pair, m.freq, m.priority) for m in got] == want[:n], 'first %d merges of %r read as %r' % (n, want, got)
                assert all((pr in got) == (k < n) for k, (pr, f) in enumerate(i[1]))
        elif i[0] == 'c':
            dump_bpe_cache(dict(i[1]), p)
            got = read_bpe_cache(p)
            assert got == i[1], 'cache %r read back as %r' % (i[1], got)
        elif i[0] == 'd':
            _dump_vocab_dict(list(i[1].items()), p)
            got = _load_vocab_dict(p)
            assert got == i[1], 'counts %r read back as %r' % (i[1], got)
            _dump_vocab_dict(i[1].items(), p, to_literal=True)
            assert _load_vocab_dict(p) == i[1]
            from codeprep.util import to_literal_str
            esc = Counter({to_literal_str(w): c for w, c in i[1].items()})
            pv = PartialVocab(esc, 0)
            pv.write_vocab(p)
            got = _load_vocab_dict(p)
            assert got == i[1], 'vocabulary %r read back as %r' % (i[1], got)
        else:
            m = PreprocessingMetadata(nonprocessable_tokens=set(i[1]))
            save_metadata(m, p)
            got = _load_vocab_set(p)
            assert got == set(i[1]), 'tokens %r read back as %r' % (i[1], got)

            class D:
                path_to_nonbpe_vocab_file = p
            got = load_nonbpe_vocab(D)
            assert got == set(i[1]), 'tokens %r loaded as %r' % (i[1], got)
    finally:
        os.remove(p)


def shrink(i):
    seq = list(i[1].items()) if isinstance(i[1], dict) else list(i[1])
    for k in range(len(seq)):
        r = seq[:k] + seq[k + 1:]
        yield (i[0], dict(r) if isinstance(i[1], dict) else r) + i[2:]

"""random words over ASCII / Latin-1 / BMP / astral / control characters and placeholders; non-trivial: has a non-ASCII character"""
import random
from codeprep.noneng import replace_non_ascii_seqs, is_non_eng

ALPH = ['a', 'Z', '_', ' ', '\t', '\n', '\x00', '\x7f', '\x7e', '\x80', '\x81', '\xa0', '\xe9', '\xf7', '\xff', '\u0100', '\u0130', '\u0661',
        '\u2028', '\u4e2d', '\ud7ff', '\ue000', '\U0001f600', '\U0010ffff', '0', '9', '@', '.', '÷']


def corner():
    for a in ALPH:
        yield (a, '\xf7')
        for b in ALPH:
            yield (a + b, '\xf7')
            yield (a + 'x' + b, 'P')
    yield ('', '\xf7')
    yield ('abc', '')
    yield ('abc', 'xy')
    yield ('', 'xy')
    yield ('\xe9', '\xe9\xe9')


def gen(rng):
    w = ''.join(rng.choice(ALPH) for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 200])))
    return (w, rng.choice(['\xf7', 'P', 'a', ' ', '\xe9']))


def nontrivial(i):
    return any(ord(c) >= 128 for c in i[0])


def check(i):
    w, p = i
    if len(p) != 1:
        try:
            replace_non_ascii_seqs(w, p)
        except ValueError:
            return
        raise AssertionError('placeholder %r accepted' % p)
    want, prev = [], False
    for c in w:
        if ord(c) < 128:
            want.append(c)
        elif not prev:
            want.append(p)
        prev = ord(c) >= 128
    got = replace_non_ascii_seqs(w, p)
    assert got == ''.join(want), 'replace_non_ascii_seqs(%r, %r) == %r, expected %r' % (w, p, got, ''.join(want))
    ne = any(ord(c) >= 128 for c in w)
    assert bool(is_non_eng(w)) == ne, 'is_non_eng(%r) == %r' % (w, is_non_eng(w))


def shrink(i):
    w, p = i
    for k in range(len(w)):
        yield (w[:k] + w[k + 1:], p)

"""words of ordinary and unusual letters (every cased code point, alone and next to others): built and printed, represented with and without
lower-casing, decoded from marker and form; identifiers of them split and represented without splitting, on their own and in source text; the
laws about str.lower/upper/isupper/islower that the proof assumes; non-trivial: a letter that is not lower-case ASCII"""
import sys
from wlib import config, bpe_data, ident
from codeprep.api import text as T
from codeprep.parse.subtokens import split_identifier
from codeprep.preprocess.core import torepr, to_repr_list
from codeprep.preprocess.placeholders import placeholders
from codeprep.tokens.word import Word, Underscore
from codeprep.tokens.containers import SplitContainer
from codeprep.tokens.noneng import NonEng

CASED = [chr(c) for c in range(0x110000) if not 0xd800 <= c < 0xe000 and (chr(c).lower() != chr(c) or chr(c).upper() != chr(c) or chr(c).isupper()
                                                                       or chr(c).islower() or chr(c).istitle())]
ODD = ['\xdf', '\u1e9e', '\u0130', '\u0131', '\u01c5', '\u01c4', '\u03d2', '\u03c2', '\u03a3', '\ufb01', '\u0149', '\U0001d400', '\u2160', '\u24b6', '\u1f88',
       '\u1f80', '\u0345', '\u00aa', '\u2102', '\u13a0', '\uab70', '\u10d0', '\u1c90', '\u03f4', '\u212a', '\u212b', '\u2126', '\u017f', '\u00b5']
PLAIN = ['a', 'b', 'Z', 'A', 'S', 'ss', 'foo', 'X', '1', '\u4e2d', '\xfc', '\xdc', '\u0416', '\u0436', '\u0301', '_', '.', '$', '\u05d0']
NOSPLIT = ['uc10su', 'u010su', 'uc1Fsu', 'uc00s' + 'u', 'ucz00u', 'Uc10su']


def corner():
    for c in CASED:
        yield ('laws', c)
        yield ('word', c)
        yield ('word', c + 'a')
        yield ('word', c + c)
    for c in CASED[::7] + ODD:
        yield ('word', 'A' + c)
        yield ('word', c + 'A')
        yield ('word', 'b' + c)
        yield ('word', '1' + c)
        yield ('id', c)
        yield ('id', 'a' + c + 'B')
    for a in ODD + PLAIN:
        for b in ODD + PLAIN:
            yield ('word', a + b)
            yield ('laws', a + b)
            yield ('id', a + b)
    for w in ('fooBar', 'FooBar', 'FOO_bar', 'a1B2', '_', '__a__', 'HTTPServer', 'x', 'X', 'iOS8', '_1_', 'Foo', 'FOO', 'aB', 'AB1c', '\u4e2d\u6587a', '\xfcBer_\xdc'):
        yield ('id', w)
        yield ('text', w)


def text(rng, ident=False):
    src = rng.choice([PLAIN, ODD, CASED, PLAIN + ODD])
    s = ''.join(rng.choice(src if rng.random() < 0.7 else PLAIN) for _ in range(rng.choice([1, 1, 2, 3, 4, 6])))
    return s


def gen(rng):
    k = rng.choice(['word', 'word', 'laws', 'id', 'text'])
    s = text(rng)
    if k in ('id', 'text'):
        s = s.replace('.', '').replace('$', '') or 'a'
    return (k, s)


def nontrivial(i):
    return not (i[1].isascii() and i[1].islower())


def decode(ts):
    cap, caps = placeholders['capital'], placeholders['capitals']
    if ts[0] == cap:
        f = ''.join(ts[1:])
        return f[0].upper() + f[1:]
    if ts[0] == caps:
        return ''.join(ts[1:]).upper()
    return ''.join(ts)


LOWER, CASE, SPLIT_BPE = config('uc11sl'), config('uc11su'), config('uc14su')


def check(i):
    k, s = i
    if k == 'laws':
        for x in (s, s[0], s.lower(), s[0].lower()):
            assert not (x.islower() and x.isupper()), 'law: both cases %r' % x
            assert x.lower().lower() == x.lower() and len(x.upper()) >= len(x) and len(x.lower()) > 0, 'law: %r' % x
            assert not (x.islower() and x[0].isupper()), 'law: lower-case text with a capital %r' % x
            assert x.lower()[0].lower() == x.lower()[0], 'law: first letter %r' % x
        l0 = s[0].lower()
        assert not (s[0].isupper() and l0 != s[0] and l0.upper() == s[0]) or (l0.islower() and not (l0 + s[1:]).isupper()), 'law: capital %r' % s
        return
    if k == 'word':
        w = Word.from_(s)
        assert str(w) == s, 'a word made of %r prints as %r' % (s, str(w))
        assert torepr(w, None)[0] == [s], 'a word made of %r is represented without configuration as %r' % (s, torepr(w, None)[0])
        seen = []

        def split(x, d):
            seen.append(x)
            return list(x)
        for pc in (LOWER, CASE, SPLIT_BPE):
            rc = pc.get_repr_config(None)
            rc.word_splitter = split
            r = torepr(w, rc)[0]
            assert r, 'nothing is emitted for %r' % s
            if pc is LOWER:
                assert decode(r) == s, 'lower-cased, %r is emitted as %r, which stands for %r' % (s, r, decode(r))
                marked = r[0] in (placeholders['capital'], placeholders['capitals'])
                assert not marked or not (len(s) == 1 and s != s.lower() and s.lower() != ''.join(r[1:])), '%r is emitted as %r' % (s, r)
                if s.isascii() and s.isalpha() and (s.islower() or s.isupper() or s.istitle()):
                    assert ''.join(r[marked:]) == s.lower(), 'lower-cased, %r is emitted as %r' % (s, r)
            else:
                assert ''.join(r) == s, 'with case, %r is emitted as %r' % (s, r)
        assert torepr(w, config('uc10su').get_repr_config(None))[0] == [s], 'unsplit, %r is emitted as %r' % (s, torepr(w, config('uc10su').get_repr_config(None))[0])
        return
    if k == 'text':
        if not s.replace('_', 'a').isalnum() or not s.isascii() or s[0].isdigit():
            return
        got = T.nosplit(s, extension='java')
        if s in ('if', 'for', 'do'):
            return
        assert got == [s], 'in source text the identifier %r is emitted as %r' % (s, got)
        return
    t = split_identifier(s)
    assert isinstance(t, (SplitContainer, NonEng)), 'an identifier is parsed as %r' % type(t)
    c = t.processable_token if isinstance(t, NonEng) else t
    assert ''.join(str(x) for x in c.get_subtokens()) == s, 'subwords of %r: %r' % (s, [str(x) for x in c.get_subtokens()])
    assert str(t) == s, 'the identifier %r prints as %r' % (s, str(t))
    for e in NOSPLIT:
        rc = config(e).get_repr_config(None)
        if isinstance(t, NonEng) and e[0] == 'U':
            continue
        r = to_repr_list([t], rc)[0]
        assert r == [s], 'without splitting (%s) the identifier %r is emitted as %r' % (e, s, r)
    if c.get_subtokens() and e:
        r = to_repr_list([c], config('uc11sl').get_repr_config(None))[0]
        w0, w1 = placeholders['word_start'], placeholders['word_end']
        if r[0] == w0:
            assert r[-1] == w1, 'split, the identifier %r is emitted as %r' % (s, r)
            r = r[1:-1]
        assert not (len(r) > 2 and r[0] == w0), r
        want = []
        for x in c.get_subtokens():
            want += torepr(x, config('uc11sl').get_repr_config(None))[0]
        assert r == want, 'the identifier %r is emitted as %r, its subwords as %r' % (s, r, want)


def shrink(i):
    for j in range(len(i[1])):
        if len(i[1]) > 1:
            yield (i[0], i[1][:j] + i[1][j + 1:])

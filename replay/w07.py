"""tokens of every class, alone and nested, under every combination of the four options, splits and cases, against the same tokens with those to
be replaced (and with non-ASCII runs of texts) replaced beforehand and all options off; placeholders counted; source text with and without each
option; non-trivial: an option is on"""
from codeprep.api import text as T
from codeprep.preprocess.core import to_repr_list
from codeprep.tokens.containers import SplitContainer
from codeprep.tokens.word import SpecialToken
from wlib import *

OFF = {'en': 'u', 'com': 'c', 'tabs': 's'}
PH = {'olc': '<comment>', 'mlc': '<comment>', 'str': '<str-literal>', 'noneng': '<non-en>'}


def opts(c):
    return {'noneng': c[0] == 'U', 'olc': c[1] == '0', 'mlc': c[1] == '0', 'str': c[2] == '0', 'nl': c[4] == '0', 'tab': c[4] == '0'}


def runs(s):
    r, prev = '', False
    for ch in s:
        if ord(ch) < 128:
            r, prev = r + ch, False
        elif not prev:
            r, prev = r + '\xf7', True
    return r


def off(c):
    return 'u' + 'c' + ('1' if c[2] == '0' else c[2]) + c[3] + 's' + c[5]


def rep(c, ts, data):
    return list(to_repr_list(ts, config(c).get_repr_config(data))[0])


def expect(c, d, data):
    """the representation of one token, by the rules"""
    o = opts(c)
    k = d[0]
    bpe = c[3] in '456789'
    if k in ('nl', 'tab') and o[k]:
        return []
    if k == 'noneng' and o[k] and bpe:
        return rep(off(c), [SplitContainer([Word.from_(runs(str(tok(d))))])], data)
    if k in PH and o[k]:
        return [PH[k]]
    if k in ('olc', 'mlc'):
        r = [x for t in d[1] for x in expect(c, t, data)]
        return r + (['<EOL>'] if k == 'olc' else [])
    if k == 'str':
        lim = limit(c[2])
        if lim is not None and d[2] > lim:
            return rep(off(c), [tok(d)], data)
        if bpe or c[3] == 'F':
            if o['noneng']:
                s = '\xa0'.join(runs(x) for x in str(tok(d)).split('\xa0'))
                if c[3] == 'F':
                    return [s]
                from codeprep.bpepkg.bpe_encode import get_bpe_subwords
                return get_bpe_subwords(s, data)
            return rep(off(c), [tok(d)], data)
        return [x for t in d[1] if t[0] != 'sp' for x in expect(c, t, data)]
    return rep(off(c), [tok(d)], data)


def limit(ch):
    import string
    v = (string.digits + string.ascii_uppercase + string.ascii_lowercase).index(ch)
    return None if v in (0, 1) else v


def corner():
    cs = list(corner_configs())
    for n, ts in enumerate(corner_toks()):
        for k, c in enumerate(cs):
            if len(ts) == 1 or (n + k) % 9 == 0:
                yield ('tok', ts, c, (n + k) % 12)
    for mode in MODES:
        for name in OPTS:
            for n in range(len(PIECES)):
                yield ('text', mode, [n], [name])
                yield ('text', mode, [n, 0, n], list(OPTS))


def gen(rng):
    if rng.random() < 0.25:
        return ('text', rng.choice(sorted(MODES)), [rng.randrange(len(PIECES)) for _ in range(rng.choice([1, 2, 5]))], [o for o in OPTS if rng.random() < 0.4])
    return ('tok', gen_toks(rng, rng.choice([0, 1, 2, 3, 6, 12])), gen_config(rng), rng.choice([0, 1, 3, 7, 11]))


OPTS = ['no_com', 'no_str', 'no_unicode', 'no_spaces']
MODES = {'nosplit': T.nosplit, 'basic': T.basic, 'chars': T.chars}
# source, option, what it becomes in split modes
PIECES = [('fooBar', None, None), ('42', None, None), ('if', None, None), (';', None, None), ('"some tXt 1"', 'no_str', ['<str-literal>']), ("'q'", 'no_str', ['<str-literal>']),
          ('/* a\tComment */', 'no_com', ['<comment>']), ('// foo bar\n', 'no_com', ['<comment>']), ('\n', 'no_spaces', []), (';\t;', 'no_spaces', [';', ';']),
          ('\u0416uk', 'no_unicode', ['<non-en>']), ('x\u4e2d\u6587', 'no_unicode', ['<non-en>'])]


def nontrivial(i):
    return bool(i[3]) if i[0] == 'text' else any(opts(i[2]).values())


def text(mode, pieces, on):
    src = '; %s ;' % ' '.join(PIECES[n][0] for n in pieces)
    r = list(MODES[mode](src, extension='java', **{o: True for o in on}))
    assert r[0] == r[-1] == (';</t>' if mode == 'chars' else ';'), '%s with %s: %r becomes %r' % (mode, on, src, r)
    return r[1:-1], src


def check(i):
    if i[0] == 'text':
        _, mode, pieces, on = i
        got, src = text(mode, pieces, on)
        want = []
        for n in pieces:
            p, o, ph = PIECES[n]
            mine = [o] if o in on else []
            one = text(mode, [n], mine)[0]
            if o in on and not (mode == 'chars' and o == 'no_unicode') and not p.endswith('*/'):
                if not p.startswith('//'):
                    assert one == ([x + '</t>' for x in ph] if mode == 'chars' else ph), '%s with %s: %r becomes %r' % (mode, o, p, one)
            if o not in on:
                alone = text(mode, [n], on)[0]
                if p not in ('// foo bar\n',) and not ('\t' in p and 'no_spaces' in on):
                    assert alone == one, '%s: %r becomes %r with %s, and %r without' % (mode, p, alone, on, one)
                one = alone
            want += one
        assert got == want, '%s with %s: %r becomes %r, its parts %r' % (mode, on, src, got, want)
        return
    _, ts, c, nm = i
    data = bpe_data(nm) if c[3] in '456789' else None
    want = [x for t in ts for x in expect(c, t, data)]
    got = rep(c, [tok(t) for t in ts], data)
    assert got == want, 'config %s, %r: represented as %r instead of %r' % (c, ts, got, want)


def shrink(i):
    if i[0] == 'tok':
        for t in shrink_toks(i[1]):
            yield ('tok', t) + i[2:]
    else:
        for n in range(len(i[2])):
            if len(i[2]) > 1:
                yield i[:2] + (i[2][:n] + i[2][n + 1:],) + i[3:]

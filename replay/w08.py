"""string literals of every length around the limit, in source text through each mode of the text API and as token objects, for limits
0..64 and larger, with/without full strings, no_str, no_unicode; non-trivial: limit given and within 3 of the literal length"""
import sys
from wlib import tok, bpe_data
from codeprep.preprocess.core import to_repr_list
from codeprep.api import text as T
from codeprep.api.common import create_prep_config, create_str_value
from codeprep.prepconfig import get_max_str_length, PrepConfig
from codeprep.tokens.containers import StringLiteral

MODES = {'nosplit': T.nosplit, 'basic': T.basic, 'chars': T.chars}
PIECES = ['a', 'Bc', 'x1', ' ', '  ', '12', '_', '.', '\xe9', 'fooBar', 'z', '%s', '\u4e2d', '<', 'the ', 'Q']


def lit(n, rng=None):
    s = ''
    while len(s) < n:
        s += rng.choice(PIECES) if rng else PIECES[len(s) % len(PIECES)]
    return s[:n]


def corner():
    for lim in list(range(0, 66)) + [100, 1000, sys.maxsize, None]:
        yield ('limit', lim)
    for mode in MODES:
        for full in (False, True):
            for ns in (False, True):
                for lim in (0, 1, 2, 3, 10, 35, 36, 60, 61, 62, 63, None):
                    for ln in sorted({max(0, (lim or 0) + d - 2) for d in (-1, 0, 1)} | {0, 1, 70}):
                        yield ('text', mode, lit(ln), lim, full if mode == 'nosplit' else False, ns, False)
                        for b in BODIES:
                            for spl in '0F1':
                                yield ('tok', b, ln + 2, lim, spl, ns)
                        yield ('text', mode, 'a' * ln, lim, full if mode == 'nosplit' else False, ns, False)


BODIES = [[], [('ncc', '"')], [('id', ['foo'])], [('ncc', '"'), ('ncc', '"')], [('ncc', '"'), ('id', ['foo', 'Bar']), ('ncc', '"')],
          [('ncc', '"'), ('id', ['a']), ('sp', 2), ('num', '12'), ('ncc', '"')]]


def gen(rng):
    if rng.random() < 0.4:
        lim = rng.choice([None] + list(range(0, 66)))
        return ('tok', rng.choice(BODIES), max(0, (lim or 0) + rng.choice([-2, -1, 0, 0, 1, 2, 30])), lim, rng.choice('0F128'), rng.random() < 0.15)
    lim = rng.choice([None] + list(range(0, 66)))
    base = lim if lim is not None and rng.random() < 0.8 else rng.randint(0, 80)
    mode = rng.choice(sorted(MODES))
    ln = max(0, base - 2 + rng.choice([-2, -1, 0, 0, 1, 1, 2]))
    return ('text', mode, lit(ln, rng) if rng.random() < 0.7 else rng.choice(['a' * ln, ' ' * ln, ('foo ' * ln)[:ln]]), lim, mode == 'nosplit' and rng.random() < 0.5,
            rng.random() < 0.15, rng.random() < 0.3)


def nontrivial(i):
    if i[0] == 'tok':
        return i[3] is not None
    return i[0] == 'limit' or (i[3] is not None and abs(len(i[2]) + 2 - max(2, i[3])) <= 3)


def want_limit(lim):
    return sys.maxsize if lim is None or lim >= 62 else max(2, lim)


def check(i):
    if i[0] == 'limit':
        lim = i[1]
        kw = {} if lim is None else {'max_str_length': lim}
        for spl in ('nosplit', 'chars', 'basic', 'bpe'):
            for ns in (False, True):
                pc = create_prep_config(spl, bpe_codes_id='x', no_str=ns, **kw)
                rc = pc.get_repr_config(object())
                rep = StringLiteral in rc.types_to_be_repr
                assert rep == ns, 'no_str=%r: string literals to be replaced: %r' % (ns, rep)
                if not ns:
                    assert rc.max_str_length == want_limit(lim), 'requested %r, effective limit %r' % (lim, rc.max_str_length)
                    rc2 = PrepConfig.from_encoded_string(str(pc)).get_repr_config(object())
                    assert rc2.max_str_length == want_limit(lim), 'requested %r, limit after encoding %r' % (lim, rc2.max_str_length)
        return
    if i[0] == 'tok':
        _, body, ln, lim, spl, ns = i
        get = lambda k: ''.join([                                          # noqa
            'u', 'c', '0' if ns else '1' if k is None or k >= 62 else create_str_value(False, max(2, k)), spl, 's', 'u'])
        t = tok(('str', body, ln))
        bd = bpe_data(3) if spl == '8' else None
        got, gm = to_repr_list([t], PrepConfig.from_encoded_string(get(lim)).get_repr_config(bd))
        if ns:
            want = ['<str-literal>']
        elif ln > want_limit(lim):
            want = ['""'] if spl == 'F' else ['"', '"']
        else:
            want, wm = to_repr_list([t], PrepConfig.from_encoded_string(get(None)).get_repr_config(bd))
        assert got == want, 'literal object of length %d, limit %r, splitting %s: %r, expected %r' % (ln, lim, spl, got, want)
        return
    _, mode, content, lim, full, ns, nu = i
    kw = {'no_unicode': nu, 'return_metadata': True}
    if full:
        kw['full_strings'] = True
    src = 'class A { String s = "%s" ; int x = 1 ; }' % content
    f = MODES[mode]
    base, meta = f(src, 'java', **kw)
    words = list(zip(meta.word_boundaries, meta.word_boundaries[1:], meta.token_types))
    lits = [(a, b) for a, b, t in words if t.__name__ == 'StringLiteral']
    assert lits, 'no string literal found'
    a, b = lits[0][0], lits[-1][1]
    kw2 = dict(kw)
    if lim is not None:
        kw2['max_str_length'] = lim
    got, gmeta = f(src, 'java', no_str=ns, **kw2)
    if ns:
        mid = ['<str-literal></t>' if mode == 'chars' else '<str-literal>']
    elif len(content) + 2 > want_limit(lim):
        mid = ['""'] if full else ['"', '"']
        if mode == 'chars':
            mid = ['"', '"</t>']
    else:
        mid = base[a:b]
    want = base[:a] + mid + base[b:]
    assert got == want, 'literal of length %d, limit %r, no_str=%r: %r, expected %r' % (len(content) + 2, lim, ns, got, want)


def shrink(i):
    if i[0] == 'text':
        for k in range(len(i[2])):
            if i[2][k] != 'a':
                yield i[:2] + (i[2][:k] + 'a' + i[2][k + 1:],) + i[3:]

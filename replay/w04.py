"""parsed token lists of every token class under every kind of configuration and several merge lists: the boundaries start with 0, increase, end
with the number of tokens, one type per word; all words of a comment or literal have its type; non-trivial: at least two words"""
from codeprep.pipeline.to_repr import to_repr
from codeprep.tokens.containers import OneLineComment, MultilineComment, StringLiteral
from wlib import *

TEXT = {'olc': OneLineComment, 'mlc': MultilineComment, 'str': StringLiteral}


def corner():
    cs = list(corner_configs())
    for n, ts in enumerate(corner_toks()):
        for k, c in enumerate(cs):
            if (n + k) % 5 == 0:
                yield (ts, c, (n + k) % 12)


def gen(rng):
    return (gen_toks(rng, rng.choice([0, 1, 2, 3, 6, 12])), gen_config(rng), rng.choice([0, 1, 3, 7, 11]))


def nontrivial(i):
    return len(i[0]) > 1


def fit(toks, m, what):
    w = m.word_boundaries
    assert w and w[0] == 0, '%s: word boundaries %r do not start with 0' % (what, w)
    assert all(a < b for a, b in zip(w, w[1:])), '%s: word boundaries %r do not increase' % (what, w)
    assert w[-1] == len(toks), '%s: word boundaries %r do not end with the number of tokens of %r' % (what, w, toks)
    assert len(m.token_types) == len(w) - 1, '%s: types %r, boundaries %r' % (what, m.token_types, w)


def check(i):
    ts, c, nm = i
    pc = config(c)
    data = bpe_data(nm) if c[3] in '456789' else None
    got, m = to_repr(pc, [tok(t) for t in ts], data)
    fit(got, m, 'config %s' % c)
    types = []
    for t in ts:
        g, m1 = to_repr(pc, [tok(t)], data)
        fit(g, m1, 'config %s, %r' % (c, t))
        if t[0] in TEXT:
            assert all(x is TEXT[t[0]] for x in m1.token_types), 'config %s, %r: types %r of its words' % (c, t, m1.token_types)
        types += m1.token_types
    assert m.token_types == types, 'config %s: types %r, of the tokens one by one %r' % (c, m.token_types, types)


def shrink(i):
    for t in shrink_toks(i[0]):
        yield (t,) + i[1:]

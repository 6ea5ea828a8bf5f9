"""parsed token lists of every token class under every kind of configuration and several merge lists; the suffix is compared with
the words given by the metadata of the unsuffixed representation; non-trivial: at least two words and one of several subtokens"""
from codeprep.pipeline.to_repr import to_repr
from codeprep.preprocess.core import to_repr_list
from wlib import *

END = '</t>'


def corner():
    cs = list(corner_configs())
    for sp in '4567890F12':
        for n, ts in enumerate(([], [('id', ['foo'])], [('id', ['foo', '</t>']), ('kw', 'if'), ('special', 'x</t>'), ('op', '</t>'), ('id', ['er', 'Bar'])])):
            yield (ts, 'uc1%ssu' % sp, 3 * n)
    for n, ts in enumerate(corner_toks()):
        for k, c in enumerate(cs):
            if (n + k) % 7 == 0 or n < 20 and c[3] in '48' and k % 3 == n % 3:
                yield (ts, c, (n + k) % 12)


def gen(rng):
    return (gen_toks(rng, rng.choice([0, 1, 2, 3, 6, 12])), gen_config(rng, rng.choice(['8', '9', '4', '5', '6', '7', None])), rng.choice([0, 1, 3, 7, 11]))


def nontrivial(i):
    return i[1][3] in '456789' and len(i[0]) > 1


def check(i):
    ts, c, nm = i
    pc = config(c)
    bpe = c[3] in '456789'
    data = bpe_data(nm) if bpe else None
    raw, meta = to_repr_list([tok(t) for t in ts], pc.get_repr_config(bpe_data(nm) if bpe else None))
    ends = {b - 1 for b in meta.word_boundaries[1:]}
    want = [t + END if bpe and k in ends else t for k, t in enumerate(raw)]
    got, gmeta = to_repr(pc, [tok(t) for t in ts], data)
    assert got == want, 'config %s: %r, expected %r' % (c, got, want)
    assert gmeta.word_boundaries == meta.word_boundaries and gmeta.token_types == meta.token_types, 'metadata differ'


def shrink(i):
    for t in shrink_toks(i[0]):
        yield (t,) + i[1:]

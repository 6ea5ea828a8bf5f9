"""registries on disk whose ids resemble the new one (regular expression characters, numbers, prefixes, suffixes of configurations); the new id
is compared with all ids in use; non-trivial: the plain name is taken"""
import os
import shutil
from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam
from codeprep.pipeline import bperegistry as R

ROOT = os.path.join(os.environ['VREPLAY_SCRATCH'], 'bpe')
R.USER_BPE_DIR = ROOT
NAMES = ['abc', 'a.b', 'a+b', 'c++', 'a[1]', 'x(y', 'a_1', 'abc_we', '$', '^a', 'a|b', 'a\\d', 'a*', '1', 'a b', 'caf\xe9', '{2}', 'A']
CFGS = [(we, u) for we in (False, True) for u in ('yes', 'no', 'bytes')]
EXT = ['', '_1', '_2', '_9', '_10', '_11', '_01', '_x', '_1_1', '1', '_', '_1x', 'x_3', '_99', '_we', '_-5', '_1.5']


def suffix(c):
    return '_'.join((['we'] if c[0] else []) + {'yes': [], 'no': ['nounicode'], 'bytes': ['bytes']}[c[1]])


def base(name, c):
    return name + ('_' + suffix(c) if suffix(c) else '')


def corner():
    for nm in NAMES:
        yield (nm, (False, 'yes'), [], None)
        for ext in ([''], ['', '_1'], ['', '_2', '_9', '_10'], ['_1'], ['', '_01'], ['', '_x', '_1_5'], ['', '1'], ['', '_1x', '_3']):
            yield (nm, (False, 'yes'), [nm + e for e in ext], None)
    for c in CFGS:
        b = base('abc', c)
        yield ('abc', c, [], None)
        yield ('abc', c, ['abc'], None)
        yield ('abc', c, [b, b + '_1', b + '_7'], None)
        yield ('abc', c, [b], 'given')
        yield ('abc', c, [b], '')
    yield ('a.b', (False, 'yes'), ['a.b', 'axb_5'], None)


def gen(rng):
    nm = rng.choice(NAMES)
    c = rng.choice(CFGS)
    b = base(nm, c)
    ids = []
    for _ in range(rng.randint(0, 6)):
        ids.append(rng.choice([b, b, nm, rng.choice(NAMES), base(nm, rng.choice(CFGS))]) + rng.choice(EXT))
    return (nm, c, sorted(set(ids)), rng.choice([None, None, None, '', 'abc', b]))


def nontrivial(i):
    return base(i[0], i[1]) in i[2]


def check(i):
    nm, c, ids, given = i
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(ROOT)
    for k, x in enumerate(ids):
        d = os.path.join(ROOT, 'd%d' % k)
        os.makedirs(os.path.join(d, str(k + 1)))
        R.write_bpe_codes_id(d, x)
    cfg = BpeConfig({BpeParam.CASE: 'yes', BpeParam.WORD_END: c[0], BpeParam.BASE: 'code', BpeParam.UNICODE: c[1]})
    new = R.create_new_id_from(os.path.join('/some/where', nm), cfg, given)
    if given:
        assert new == given, 'given id %r became %r' % (given, new)
        return
    assert new not in ids, 'the new id %r is in use: %r' % (new, ids)
    b = base(nm, c)
    if b not in ids:
        assert new == b, 'new id %r although %r is free' % (new, b)
    else:
        t = new[len(b):]
        assert new.startswith(b) and t[:1] == '_' and t[1:].isdigit() and t[1] != '0', 'new id %r for %r' % (new, b)


def shrink(i):
    for k in range(len(i[2])):
        yield i[:2] + (i[2][:k] + i[2][k + 1:], i[3])

"""all 11904 combinations of documented parameter values (round trip, rejection, distinct encodings), strings of wrong length or with
strange characters, dicts with missing/foreign keys; non-trivial: every input"""
import itertools
from codeprep.prepconfig import PrepConfig, PrepParam

STRV = [chr(x) for r in ((48, 58), (65, 91), (97, 123)) for x in range(*r)]
ORDER = [PrepParam.EN_ONLY, PrepParam.COM, PrepParam.STR, PrepParam.SPLIT, PrepParam.TABS_NEWLINES, PrepParam.CASE]
VALUES = [['u', 'U'], ['0', 'c'], STRV, list('0F123s456789'), ['s', '0'], ['u', 'l']]
ODD = ['', ' ', '10', '11', 'aa', '-', '\n', '!', '\xe9', '_', '[', '`', '{', '/', ':', '@', 'cc', 'U ', 'A', 'k', 'S', 'L', 'f', 'x', '\u0660', '\u0131', 'uU', 'ul']


def valid(vals):
    return all(v in p and len(v) == 1 for v, p in zip(vals, VALUES)) and not (vals[5] == 'l' and vals[3] in '0F45679')


def corner():
    for com in '0c':
        for en in 'uU':
            yield ('all', en, com)
    base = ['u', 'c', '1', '1', 's', 'u']
    for n in range(6):
        yield ('missing', n, None)
        yield ('missing', n, 'foreign')
        for o in ODD:
            yield ('vals', tuple(base[:n] + [o] + base[n + 1:]))
            yield ('str', ''.join(base[:n] + [o] + base[n + 1:]))
        yield ('str', ''.join(base[:n]))
        yield ('str', ''.join(base[:n] + base[n + 1:]))
    yield ('str', ''.join(base) + 'u')
    yield ('str', ''.join(base) * 2)
    yield ('missing', 0, 'extra')


def gen(rng):
    if rng.random() < 0.5:
        return ('str', ''.join(rng.choice(rng.choice(VALUES + [ODD])) for _ in range(rng.choice([5, 6, 6, 6, 6, 7]))))
    return ('vals', tuple(rng.choice(VALUES[n] if rng.random() < 0.85 else rng.choice(VALUES + [ODD])) for n in range(6)))


def build(vals):
    return PrepConfig(dict(zip(ORDER, vals)))


def rejected(f, what):
    try:
        c = f()
    except (ValueError, KeyError, TypeError, AssertionError):
        return
    raise AssertionError('%s accepted as %r' % (what, c))


def good(vals):
    c = build(vals)
    s = str(c)
    d = PrepConfig.from_encoded_string(s)
    assert d == c and str(d) == s, '%r encoded as %r, decoded as %r' % (vals, s, d)
    for p, v in zip(ORDER, vals):
        assert d.get_param_value(p) == v, 'parameter %s of %r decoded as %r' % (p, vals, d.get_param_value(p))
    return s


def check(i):
    if i[0] == 'all':
        seen = {}
        prev = None
        for rest in itertools.product(*VALUES[2:]):
            vals = (i[1], i[2]) + rest
            if valid(vals):
                s = good(vals)
                assert s not in seen, '%r and %r are both encoded as %r' % (vals, seen[s], s)
                seen[s] = vals
                c = build(vals)
                assert prev is None or (prev != c and not prev == c), 'different configurations are equal: %r' % (vals,)
                prev = c
            else:
                rejected(lambda: build(vals), repr(vals))
                rejected(lambda: PrepConfig.from_encoded_string(''.join(vals)), ''.join(vals))
    elif i[0] == 'vals':
        if valid(i[1]):
            good(i[1])
        else:
            rejected(lambda: build(i[1]), repr(i[1]))
    elif i[0] == 'str':
        if len(i[1]) == 6 and valid(list(i[1])):
            c = PrepConfig.from_encoded_string(i[1])
            assert str(c) == i[1]
        else:
            rejected(lambda: PrepConfig.from_encoded_string(i[1]), repr(i[1]))
    else:
        d = dict(zip(ORDER, ['u', 'c', '1', '1', 's', 'u']))
        if i[2] == 'extra':
            d['more'] = 'u'
        else:
            v = d.pop(ORDER[i[1]])
            if i[2]:
                d[i[2]] = v
        rejected(lambda: PrepConfig(d), repr(d))

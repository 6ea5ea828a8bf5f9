"""token trees, configurations and BPE data described by literals (shared by the replay modules)"""
from codeprep.bpepkg.bpe_encode import BpeData
from codeprep.bpepkg.merge import Merge, MergeList
from codeprep.prepconfig import PrepConfig
from codeprep.tokens.containers import SplitContainer, OneLineComment, MultilineComment, StringLiteral
from codeprep.tokens.noneng import NonEng
from codeprep.tokens.numeric import Number, One, Zero
from codeprep.tokens.whitespace import NewLine, Tab, SpaceInString
from codeprep.tokens.word import (Word, Underscore, KeyWord, Operator, Semicolon, OpeningBracket, ClosingBracket, OpeningCurlyBracket,
                                  ClosingCurlyBracket, NonCodeChar, SpecialToken)

SINGLE = {';': Semicolon, '(': OpeningBracket, ')': ClosingBracket, '{': OpeningCurlyBracket, '}': ClosingCurlyBracket}
SPLITS = ['0', 'F', '1', '2', '4', '8', '9']                 # 3 and s need a package that is not installed


def ident(ws):
    return SplitContainer([Underscore() if w == '_' else Word.from_(w) for w in ws])


def tok(d):
    k = d[0]
    if k == 'kw':
        return KeyWord(d[1])
    if k == 'op':
        return SINGLE[d[1]]() if d[1] in SINGLE else Operator(d[1])
    if k == 'id':
        return ident(d[1])
    if k == 'noneng':
        return NonEng(ident(d[1]))
    if k == 'num':
        return One() if d[1] == '1' else Zero() if d[1] == '0' else Number(d[1])
    if k == 'nl':
        return NewLine()
    if k == 'tab':
        return Tab()
    if k == 'sp':
        return SpaceInString(d[1])
    if k == 'ncc':
        return NonCodeChar(d[1])
    if k == 'special':
        return SpecialToken(d[1])
    if k == 'olc':
        return OneLineComment([tok(x) for x in d[1]])
    if k == 'mlc':
        return MultilineComment([tok(x) for x in d[1]])
    if k == 'str':
        return StringLiteral([tok(x) for x in d[1]], d[2])
    raise ValueError(d)


WORDS = ['a', 'foo', 'Bar', 'HTTP', 'x', 'Print', 'er', 'to', 'camel', 'I', 'iPhone', 'URl', 'the']
UWORDS = ['\xfcber', '\u4e2d\u6587', 'na\xefve', '\u0416', 'caf\xe9s', '\xdfx']


def gen_ident(rng, words=WORDS):
    ws = [rng.choice(words + ['_']) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    return ws


def gen_tok(rng, nest=True, instr=False):
    r = rng.random()
    if r < 0.25:
        return ('id', gen_ident(rng))
    if r < 0.33:
        ws = gen_ident(rng)
        ws[rng.randrange(len(ws))] = rng.choice(UWORDS)
        return ('noneng', ws)
    if r < 0.45:
        return ('num', rng.choice(['0', '1', '12', '0x1F', '3.14e+5', '100500', '7']))
    if r < 0.53:
        return ('op', rng.choice(['(', ')', '{', '}', ';', '+', '=', '<']))
    if r < 0.6:
        return ('kw', rng.choice(['if', 'void', 'return']))
    if r < 0.66:
        return ('nl',)
    if r < 0.71:
        return ('tab',)
    if r < 0.74:
        return ('ncc', rng.choice(['#', '\\', '@']))
    if r < 0.77:
        return ('special', rng.choice(['<EOF>', '<x>']))
    if r < 0.82 or instr and r < 0.9:
        return ('sp', rng.randint(1, 4))
    if not nest:
        return ('id', gen_ident(rng))
    body = gen_toks(rng, rng.choice([0, 1, 2, 4]), False, r >= 0.92)
    if r < 0.87:
        return ('olc', body)
    if r < 0.92:
        return ('mlc', body)
    body = [t for t in body]
    q = ('ncc', '"')
    body = [q] + body + [q]
    return ('str', body, rng.choice([2, 3, 5, 10, 36, 37, 61, 100]))


def gen_toks(rng, n, nest=True, instr=False):
    return [gen_tok(rng, nest, instr) for _ in range(n)]


def gen_config(rng, split=None):
    while True:
        s = split or rng.choice(SPLITS)
        c = rng.choice('uU') + rng.choice('0c') + rng.choice(['0', '1', '1', '2', 'A', 'E', 'z']) + s + rng.choice('s0') + rng.choice('ul')
        if c[5] == 'l' and s in '0F45679':
            continue
        return c


MERGES = [('f', 'o'), ('fo', 'o'), ('r', '</t>'), ('e', 'r</t>'), ('1', '0'), ('B', 'a'), ('\xa0', '\xa0'), ('a', '</t>'), ('P', 'r'), ('t', 'h'), ('th', 'e')]


def bpe_data(n):
    ml = MergeList()
    for p, m in enumerate(MERGES[:n]):
        ml.append(Merge(m, priority=p))
    return BpeData(merges_cache={'camel': ['cam', 'el']} if n % 2 else {}, merges=ml)


def config(s):
    return PrepConfig.from_encoded_string(s)


ALLTOKS = [('kw', 'if'), ('op', '('), ('id', ['foo', '_', 'Bar']), ('id', ['a']), ('id', ['HTTP', 'er']), ('noneng', ['\xfcber', 'Print']),
           ('num', '12'), ('num', '1'), ('nl',), ('tab',), ('ncc', '#'), ('special', '<x>'), ('sp', 2),
           ('olc', []), ('olc', [('op', '/'), ('id', ['foo', 'Bar']), ('nl',)]), ('mlc', []), ('mlc', [('tab',), ('num', '3.5'), ('noneng', ['\u4e2d'])]),
           ('str', [('ncc', '"'), ('ncc', '"')], 2), ('str', [], 0),
           ('str', [('ncc', '"'), ('id', ['foo', 'Bar']), ('sp', 2), ('noneng', ['\xfcber']), ('num', '10'), ('ncc', '"')], 17)]


def corner_toks():
    yield []
    for t in ALLTOKS:
        yield [t]
    yield ALLTOKS
    for a in ALLTOKS:
        yield [a, ('id', ['foo', 'Bar'])]


def corner_configs():
    for s in SPLITS:
        for en in 'uU':
            for com in '0c':
                for st in '01A':
                    for tn in 's0':
                        yield en + com + st + s + tn + 'u'
    for s in '128':
        for en in 'uU':
            yield en + 'c1' + s + 'sl'


def shrink_toks(ts):
    for i in range(len(ts)):
        yield ts[:i] + ts[i + 1:]
    for i, t in enumerate(ts):
        if t[0] in ('olc', 'mlc', 'str', 'id', 'noneng'):
            for j in range(len(t[1])):
                if t[0] in ('id', 'noneng') and len(t[1]) == 1:
                    continue
                yield ts[:i] + [(t[0], t[1][:j] + t[1][j + 1:]) + t[2:]] + ts[i + 1:]

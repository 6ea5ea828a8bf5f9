"""Regular expressions: patterns given by text (parsed with Python's own parser) and by escaped symbolic strings.

Assumed contract of the `regex` package, for the constructs handled here (literals, sets, '.', repetitions, alternatives, groups,
'^' at the start, '$' at the end): match/fullmatch succeed iff the string (or a prefix) is in the language, and the groups are those
of some way to match.  Which of several ways is not assumed, so what is proved holds for every one of them.
"""
import re._parser as sre
import re._constants as C
import z3
from . import values as V
from .values import *       # noqa

ZS = z3.StringSort()
ESC = z3.Function('regex_escape', ZS, ZS)
ANY = z3.AllChar(z3.ReSort(ZS))


def flatten(p):
    """pattern term -> list of host strings and escaped symbolic strings"""
    if isinstance(p, str):
        return [p]
    if z3.is_string_value(p):
        return [p.as_string()]
    if z3.is_app(p) and p.decl().name() == 'str.++':
        r = []
        for c in p.children():
            r += flatten(c)
        return r
    if z3.is_app(p) and p.decl().eq(ESC):
        return [('esc', p.arg(0))]
    raise Unsupported('regular expression from an unescaped symbolic string')


def ch(o):
    return z3.StringVal(chr(o)) if o < 0x30000 else None


def cls_re(items):
    neg = items and items[0][0] is C.NEGATE
    r = []
    for op, a in (items[1:] if neg else items):
        if op is C.LITERAL:
            r.append(z3.Re(ch(a)))
        elif op is C.RANGE:
            r.append(z3.Range(ch(a[0]), ch(a[1])))
        else:
            raise Unsupported('character class %s' % (op,))
    u = z3.Union(*r) if len(r) > 1 else r[0]
    return z3.Intersect(ANY, z3.Complement(u)) if neg else u


DIGITS, POSITIVE = '[0-9]+', '[1-9][0-9]*'
KNOWN = {repr(list(sre.parse(t))): t for t in (DIGITS, POSITIVE, '.*')}


def in_class(t):
    return z3.Function('in!' + t, V.ASTR, BOOL)


def digit_facts(I, d, c):
    isn, iv = z3.Function('isint', V.ASTR, BOOL), z3.Function('intval', V.ASTR, INT)
    I.assume(isn(d), iv(d) >= (1 if c == POSITIVE else 0))
    if c == POSITIVE:
        I.assume(z3.Function('int2str', INT, V.ASTR)(iv(d)) == d)


def match_atom(I, p, s, mode):
    """the same contract over strings without structure: the string is the concatenation of the parts, the parts are in their
    classes, and (for the unambiguous shapes below) a string so composed matches with just these parts"""
    items, base = [], 0        # ('lit', text or term) | ('cls', name, group or None) | ('end',)
    for x in V.cur_str().parts(p) if V.is_term(p) else [p]:
        if not isinstance(x, str):
            if not (z3.is_app(x) and x.decl().name() == 'regex_escape'):
                raise Unsupported('regular expression from an unescaped symbolic string')
            items.append(('lit', x.arg(0)))
            continue
        toks = list(sre.parse(x))
        run = []

        def flush():
            if run:
                k = repr(list(run))
                if k not in KNOWN:
                    raise Unsupported('regular expression %r over unstructured strings' % (x,))
                items.append(('cls', KNOWN[k], None))
                del run[:]
        for op, a in toks:
            if op is C.LITERAL and not run:
                items.append(('lit', chr(a)))
            elif op is C.AT:
                flush()
                if a is not C.AT_END:
                    raise Unsupported('anchor')
                items.append(('end',))
            elif op is C.SUBPATTERN and a[0] is not None:
                flush()
                k = repr(list(a[3]))
                if k not in KNOWN:
                    raise Unsupported('group %r over unstructured strings' % (x,))
                items.append(('cls', KNOWN[k], a[0] + base))
            else:
                run.append((op, a))
        flush()
        base += sre.parse(x).state.groups - 1
    end = bool(items) and items[-1] == ('end',)
    if end:
        items = items[:-1]
    if mode == 'match' and not end or any(i == ('end',) for i in items):
        raise Unsupported('open-ended match over unstructured strings')
    args = [i[1] for i in items if i[0] == 'lit' and not isinstance(i[1], str)]
    key = mode + ':' + ''.join((i[1] if isinstance(i[1], str) else '%s') if i[0] == 'lit' else '<%s>' % i[1] for i in items) + ('$' if end else '')
    A = V.ASTR
    s = to_z3(s)
    srt = [A] * (len(args) + 1)
    M = z3.Function('rx?' + key, *(srt + [BOOL]))
    cls = [n for n, i in enumerate(items) if i[0] == 'cls']
    G = {n: z3.Function('rx%d:%s' % (n, key), *(srt + [A])) for n in cls}
    nl = end and mode == 'match'
    N = z3.Function('rxnl:' + key, *(srt + [BOOL]))       # matched before a final newline

    def compose(f):
        r = ''
        for n, i in enumerate(items):
            r = I.cat(r, i[1] if i[0] == 'lit' else f(n))
        return r
    before = ''.join('c' if i[0] == 'cls' else 'l' for i in items)
    lits = [i[1] for i in items if i[0] == 'lit']
    simple = before.count('c') == 1 and before.endswith('c')
    dotted = before.count('c') == 2 and before[0] == 'c' and before.endswith('c') and items[0][1] == '.*' and items[-1][1] in (DIGITS, POSITIVE) \
        and isinstance(items[-2][1], str) and not items[-2][1][-1].isdigit()
    if simple or dotted:
        gs = [z3.Const('rxg%d' % n, A) for n in cls]
        val = dict(zip(cls, gs))
        whole = to_z3(compose(lambda n: val[n]))
        ax = z3.ForAll(gs, z3.Implies(z3.And(*[in_class(items[n][1])(val[n]) for n in cls]),
                                      z3.And(M(*args, whole), z3.Not(N(*args, whole)), *[G[n](*args, whole) == val[n] for n in cls])),
                       patterns=[z3.MultiPattern(whole, *[in_class(items[n][1])(val[n]) for n in cls])])
        I.assume(ax)
    if not I.branch(M(*args, s)):
        return None
    for n in cls:
        g = G[n](*args, s)
        I.assume(in_class(items[n][1])(g))
        if items[n][1] != '.*':
            digit_facts(I, g, items[n][1])
    whole = compose(lambda n: G[n](*args, s))
    if nl and I.branch(N(*args, s)):
        I.assume(s == to_z3(I.cat(whole, '\n')))
    else:
        I.assume(s == to_z3(whole))
    groups = {items[n][2]: G[n](*args, s) for n in cls if items[n][2] is not None}
    groups[0] = whole
    return CellV('match', groups=groups)


class Piece:
    """a part of a pattern: a language, or a group of parts"""

    def __init__(self, re=None, group=None, parts=None, lit=None, anchor=None):
        self.re, self.group, self.parts, self.lit, self.anchor = re, group, parts, lit, anchor


def to_re(tokens):
    r = []
    for op, a in tokens:
        if op is C.LITERAL:
            r.append(z3.Re(ch(a)))
        elif op is C.NOT_LITERAL:
            r.append(z3.Intersect(ANY, z3.Complement(z3.Re(ch(a)))))
        elif op is C.ANY:
            r.append(z3.Intersect(ANY, z3.Complement(z3.Re('\n'))))
        elif op is C.IN:
            r.append(cls_re(a))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = a
            x = to_re(sub)
            if hi == C.MAXREPEAT:
                r.append(z3.Star(x) if lo == 0 else z3.Plus(x) if lo == 1 else z3.Concat(z3.Loop(x, lo, lo), z3.Star(x)))
            elif (lo, hi) == (0, 1):
                r.append(z3.Option(x))
            else:
                r.append(z3.Loop(x, lo, hi))
        elif op is C.SUBPATTERN:
            r.append(to_re(a[3]))
        elif op is C.BRANCH:
            r.append(z3.Union(*[to_re(x) for x in a[1]]))
        else:
            raise Unsupported('regular expression construct %s' % (op,))
    if not r:
        return z3.Re('')
    return z3.Concat(*r) if len(r) > 1 else r[0]


def has_group(tokens):
    for op, a in tokens:
        if op is C.SUBPATTERN:
            if a[0] is not None or has_group(a[3]):
                return True
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and has_group(a[2]):
            return True
        elif op is C.BRANCH and any(has_group(x) for x in a[1]):
            return True
    return False


def pieces(tokens, base):
    out, run = [], []

    def flush():
        if run:
            out.append(Piece(re=to_re(list(run))))
            del run[:]
    for op, a in tokens:
        if op is C.AT:
            flush()
            out.append(Piece(anchor=a))
        elif op is C.SUBPATTERN and a[0] is not None:
            flush()
            out.append(Piece(group=a[0] + base, parts=pieces(a[3], base)))
        else:
            if has_group([(op, a)]):
                raise Unsupported('group inside a repetition or an alternative')
            run.append((op, a))
    flush()
    return out


def compile_(p):
    r, base = [], 0
    for x in flatten(p):
        if isinstance(x, tuple):
            r.append(Piece(lit=x[1]))
        else:
            t = sre.parse(x)
            if t.state.flags & ~32:
                raise Unsupported('regular expression flags')
            r += pieces(t, base)
            base += t.state.groups - 1
    return r


def language(ps, mode):
    r = []
    for n, p in enumerate(ps):
        if p.lit is not None:
            r.append(z3.Re(p.lit))
        elif p.parts is not None:
            r.append(language(p.parts, 'fullmatch'))
        elif p.anchor is not None:
            if p.anchor in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and n == 0:
                continue
            if p.anchor in (C.AT_END, C.AT_END_STRING) and n == len(ps) - 1:
                if mode == 'match' and p.anchor is C.AT_END:
                    r.append(z3.Option(z3.Re('\n')))
                continue
            raise Unsupported('anchor inside a regular expression')
        else:
            r.append(p.re)
    anchored = ps and ps[-1].anchor is not None and ps[-1].anchor in (C.AT_END, C.AT_END_STRING)
    if mode == 'match' and not anchored:
        r.append(z3.Full(z3.ReSort(ZS)))
    if not r:
        return z3.Re('')
    return z3.Concat(*r) if len(r) > 1 else r[0]


def match(I, p, s, mode):
    if V.cur_str().mode != 'z3':
        return match_atom(I, p, s, mode)
    ps = compile_(p)
    s = to_z3(s)
    if not I.branch(z3.InRe(s, language(ps, mode))):
        return None
    groups, parts = {}, []

    def add(ps, mode):
        mine = []
        for n, q in enumerate(ps):
            if q.lit is not None:
                mine.append(q.lit)
            elif q.parts is not None:
                g = add(q.parts, 'fullmatch')
                groups[q.group] = g
                mine.append(g)
            elif q.anchor is not None:
                if mode == 'match' and q.anchor is C.AT_END:
                    v = I.fresh(SStr, 'tail')
                    I.assume(z3.Or(v == '', v == '\n'))
                    mine.append(v)
            else:
                v = I.fresh(SStr, 'part')
                I.assume(z3.InRe(v, q.re))
                mine.append(v)
        anchored = ps and ps[-1].anchor is not None and ps[-1].anchor in (C.AT_END, C.AT_END_STRING)
        if mode == 'match' and not anchored:
            mine.append(I.fresh(SStr, 'rest'))
        return mine[0] if len(mine) == 1 else z3.Concat(*mine) if mine else z3.StringVal('')
    whole = add(ps, mode)
    I.assume(s == whole)
    groups[0] = s if mode == 'fullmatch' else whole
    return CellV('match', groups=groups)


def install(I):
    def esc(I, a, k):
        if isinstance(a[0], str):
            import re
            return re.escape(a[0])
        t = to_z3(a[0])
        return z3.Function('regex_escape', t.sort(), t.sort())(t)
    for mod in ('regex', 're'):
        I.natives[mod + '.escape'] = esc
        for f in ('match', 'fullmatch'):
            I.natives['%s.%s' % (mod, f)] = (lambda f: lambda I, a, k: match(I, a[0], a[1], f))(f)
            I.natives['$method:pattern.' + f] = (lambda f: lambda I, a, k: match(I, a[0].d['p'], a[1], f))(f)
        I.natives[mod + '.compile'] = lambda I, a, k: CellV('pattern', p=a[0])
    I.natives['$method:match.group'] = lambda I, a, k: group(I, a[0], a[1] if len(a) > 1 else 0)
    I.natives['$method:match.groups'] = lambda I, a, k: tuple(a[0].d['groups'][i] for i in sorted(a[0].d['groups']) if i)
    I.natives['$getitem:match'] = lambda I, a, k: group(I, a[0], a[1])


def group(I, m, i):
    g = m.d['groups']
    if not isinstance(i, int) or i not in g:
        I.raise_('IndexError', 'no such group')
    return g[i]

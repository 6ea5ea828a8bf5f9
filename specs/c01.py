"""C01 BPE segmentation never loses or invents text.

`escape`, `to_char_list`, `encode_word` and `unescape` are verified one by one; the words in between are described by
   WE(x)   x is an escaped text (every '@' doubled)
   LE(x)   x is an escaped text followed by one '@' (the end of the word)
   U(x)    x.replace('@@', '@')
whose laws (`laws`) are lemmas about str.replace, proved by induction on the text in target `escape-laws`."""
from specs.lib import *

M = 'codeprep.bpepkg.bpe_encode'
ML = 'codeprep.bpepkg.merge:MergeList'
MERGE = 'codeprep.bpepkg.merge:Merge'
A, AA = '@', '@@'


def S():
    return cur_str().sort


def WE(x):
    return z3.Function('escaped', S(), BOOL)(to_z3(x))


def LE(x):
    return z3.Function('escaped_end', S(), BOOL)(to_z3(x))


def U(x):
    return z3.Function('unescaped', S(), S())(to_z3(x))


def cat(*xs):
    r = ''
    for x in xs:
        r = cur_str().cat(to_z3(r), to_z3(x))
    return r


def merge_list(I, name='merges'):
    """any merge list"""
    m = I.fresh(SDict(STuple(SStr, SStr), SObj(MERGE, {'pair': STuple(SStr, SStr), 'freq': SOpt(SInt), 'priority': SInt})), name)
    return ObjV(I.fn(ML), {'merges': m})


def no_space(I, seq):
    return forall_int(lambda j: z_bool(no_sep(I, seq.get(j), ' ')), 0, seq.n)


from pyvc.loops import no_sep, join_fold       # noqa


def alen(x):
    return to_z3(cur_str().length(to_z3(x)))


def laws(I):
    """what is known of escaped texts (proved in target `escape-laws`)"""
    a, b = z3.Consts('la lb', S())
    ab = cur_str()._cat(a, b)
    I.assume(z3.ForAll([a, b], z3.Implies(z3.And(WE(a), WE(b)), z3.And(WE(ab), U(ab) == cur_str()._cat(U(a), U(b)))), patterns=[WE(ab), U(ab)]),
             z3.ForAll([a, b], z3.Implies(z3.And(WE(a), LE(b)), LE(ab)), patterns=[LE(ab)]),
             z3.ForAll([a], z3.Implies(z3.And(WE(a), alen(a) > 0), alen(U(a)) > 0), patterns=[U(a)]),
             z3.ForAll([a, b], alen(ab) == alen(a) + alen(b), patterns=[alen(ab)]), z3.ForAll([a], alen(a) >= 0, patterns=[alen(a)]),
             WE(''), U('') == to_z3(''))


def shape(S_, n=None):
    """the pieces of an escaped word: all but the last hold escaped text that is not empty, the last one ends the word"""
    n = to_z3(S_.n if n is None else n)
    return z3.And(n >= 1, forall_int(lambda j: z3.And(WE(S_.get(j)), alen(S_.get(j)) > 0), 0, n - 1), LE(S_.get(simp(n - 1))))


def single(S_):
    return forall_int(lambda j: alen(U(S_.get(j))) == 1, 0, to_z3(S_.n) - 1)


class CharList(Contract):
    """to_char_list of an escaped word: its characters (target `to_char_list`)"""
    qual = M + ':to_char_list'

    def apply(self, I, b):
        w = b['word']
        r = fresh_list(I, SStr, 'chars')
        I.require('the word is escaped', LE(w))
        I.assume(*[z_bool(c) for _, c in charlist(I, w, r._c)])
        self.out = r._c
        return r


def charlist(I, w, r):
    return [('at least one', to_z3(r.n) >= 1), ('together they are the word', to_z3(join_term(I, '', r)) == to_z3(w)), ('escaped', shape(r)),
            ('single characters', single(r)), ('no space comes in', z_implies(no_sep(I, w, ' '), no_space(I, r)))]


class EncodeWord(Contract):
    """encode_word (target `encode`): a function of the word and the merges"""
    qual = M + ':encode_word'

    def __init__(self, empty=False):
        self.empty, self.args = empty, []

    def apply(self, I, b):
        w = b['word']
        I.require('the word is escaped', LE(w))
        I.require('the word has no space', no_sep(I, w, ' '))
        r = fresh_list(I, SStr, 'pieces')
        self.args.append((w, b['merges']))
        self.out = r
        I.assume(*[z_bool(c) for _, c in pieces(I, w, r._c, self.empty)])
        return r


def pieces(I, w, r, empty):
    return [('at least one piece', to_z3(r.n) >= 1), ('the pieces together are the word', to_z3(join_term(I, '', r)) == to_z3(w)), ('escaped', shape(r))] + \
        ([('single characters', single(r))] if empty else [])


def natives(I):
    class Bar:
        pass
    I.natives['tqdm.tqdm'] = lambda I, a, k: CellV('bar')
    I.natives['$method:bar.update'] = lambda I, a, k: None
    I.natives['$method:bar.close'] = lambda I, a, k: None


def is_strs(c):
    try:
        return is_str(c.items[0] if c.items else c.get(z3.Int('probe')))
    except (Unsupported, IndexError):
        return False


def is_ints(c):
    try:
        return is_int(c.items[0] if c.items else c.get(z3.Int('probe')))
    except (Unsupported, IndexError):
        return False


def elem_kind(v, i):
    """what the list in slot i holds: 'str', 'int' or None"""
    sh = v.slots[i].shape
    e = getattr(sh, 'elem', None)
    return 'str' if e == SStr else 'int' if e == SInt else None


def lists(v):
    """[(name, current content, 'str' | 'int')] of the lists the loop changes"""
    out = []
    for i, (n, c, e) in enumerate(v.pairs()):
        c = c._c if isinstance(c, ListV) else c
        if isinstance(c, Seq) and elem_kind(v, i):
            out.append((n, c, elem_kind(v, i)))
    return out


def is_range(v):
    try:
        d = simp(to_z3(v.seq.get(simp(v.k + 1))) - to_z3(v.seq.get(v.k)))
    except Unsupported:
        return False
    return hint(d) == 1


def pieces_cands(I, v, w):
    r = []
    ls = lists(v)
    if v.seq is None:
        # rounds
        for n, c, kind in ls:
            if kind == 'str' and c.items != []:
                r += [('%s has no spaces' % n, no_space(I, c)), ('%s is the word' % n, to_z3(join_term(I, '', c)) == to_z3(w)), ('%s is escaped' % n, shape(c))]
        return r
    rng = is_range(v)
    # looking for pairs: positions found so far, in order and not overlapping
    for n, c, kind in ls:
        if kind == 'int' and rng:
            if c.items == []:
                r += [('%s before' % n, True), ('%s apart' % n, True)]
            else:
                r += [('%s before' % n, forall_int(lambda j: z3.And(0 <= to_z3(c.get(j)), to_z3(c.get(j)) < v.k), 0, c.n)),
                      ('%s apart' % n, forall_int(lambda j: to_z3(c.get(simp(j - 1))) + 2 <= to_z3(c.get(j)), 1, c.n))]
    # rebuilding: what is taken over so far
    contents = [x for _, x, _ in ls]
    src = [(n, c) for n, c in v.env_seqs() if not any(c is x for x in contents) and is_strs(c)]
    if rng:
        marks = [('elem', to_z3(v.seq.get(v.k)))]
    else:
        marks = [(nm, to_z3(x)) for nm, x, e in v.ints() if is_int(e)]
        for nm, x, e in v.ints():
            if is_int(e) and is_ints(v.seq):
                r.append(('%s follows the last' % nm, to_z3(x) == z3.If(v.k == 0, to_z3(e), to_z3(v.seq.get(simp(v.k - 1))) + 2)))
    for n, c, kind in ls:
        if kind != 'str':
            continue
        r.append(('%s has no spaces' % n, True if c.items == [] else no_space(I, c)))
        for nm, to in marks:
            if not rng:
                r.append(('%s shorter by k than %s' % (n, nm), to_z3(c.n) == to - v.k))
            for m, s in src:
                F = join_fold(I, '', s)
                I.assume(z_bool(F.base_axiom()))
                if c.items == []:
                    last = True
                else:
                    x = c.get(simp(to_z3(c.n) - 1))
                    last = z3.And(forall_int(lambda j: z3.And(WE(c.get(j)), alen(c.get(j)) > 0), 0, to_z3(c.n) - 1),
                                  z3.Implies(to_z3(c.n) >= 1, z3.If(to == to_z3(s.n), LE(x), z3.And(WE(x), alen(x) > 0))), z3.Implies(to > 0, to_z3(c.n) >= 1))
                r += [('%s within %s' % (nm, m), to <= to_z3(s.n)), ('%s is %s to %s' % (n, m, nm), to_z3(join_term(I, '', c)) == to_z3(F.at(simp(to)))),
                      ('%s is escaped as %s to %s' % (n, m, nm), last)]
    return r


def t_encode(empty):
    def run(I):
        natives(I)
        k = CharList()
        I.contracts[k.qual] = k
        merges = merge_list(I)
        if empty:
            merges.fields['merges']._c.items or I.assume(to_z3(merges.fields['merges']._c.size) == 0)
        w = I.fresh(SStr, 'word')
        I.assume(LE(w), z_bool(no_sep(I, w, ' ')))
        laws(I)

        def more(v):
            r = []
            for n, c, kind in lists(v):
                if kind == 'int' and v.seq is not None and is_range(v):
                    r.append(('%s stays empty' % n, True if c.items == [] else to_z3(c.n) == 0))
                if kind == 'str' and v.seq is None and c.items != []:
                    r.append(('%s single' % n, single(c)))
            return r
        I.loop_cands.append(lambda v: pieces_cands(I, v, w))
        if empty:
            I.loop_cands.append(more)
        out = I.outcome(I.fn(M + ':encode_word'), [w, merges], {})
        I.ensure('no error', out[0] == 'ok')
        for n, c in pieces(I, w, as_seq(out[1]), empty):
            I.ensure(n, c)
    return run


def escaping(I):
    """w.replace('@', '@@') and s.replace('@@', '@')"""
    esc = z3.Function('escape', S(), S())

    def replace(I, a, k):
        o, _, x, y = a
        if (x, y) == (A, AA):
            r = esc(to_z3(o))
            I.assume(WE(r), U(r) == to_z3(o), alen(r) >= 0, z_bool(z_iff(no_sep(I, r, ' '), no_sep(I, o, ' '))))
            I.assume(LE(cat(r, A)))
            return r
        if (x, y) == (AA, A):
            return U(o)
        raise Unsupported('replace')
    I.natives['$override:replace'] = replace
    return esc


def t_chars(I):
    esc = escaping(I)
    laws(I)
    w = I.fresh(SStr, 'word')
    E = I.call(I.fn(M + ':escape'), [w], {'merged': True})
    chars(I, w, E, esc)
    ch = z3.Function('achar', S(), INT, S())
    pos = z3.Function('pos', INT, INT)
    n = alen(w)
    single_at = lambda j: z3.If(ch(w, j) == to_z3(A), to_z3(AA), ch(w, j))      # noqa

    def cands(v):
        r = []
        for nm, x, _ in v.ints():
            for ln, c, _ in v.seqs():
                m = to_z3(c.n)
                r.append(('%s is the position of symbol len %s' % (nm, ln), z3.And(to_z3(x) == pos(m), m <= n + 1)))
                r.append(('%s are the first symbols' % ln, True if c.items == [] else forall_int(
                    lambda j: to_z3(c.get(j)) == z3.If(to_z3(j) == n, to_z3(A), single_at(to_z3(j))), 0, c.n)))
                r.append(('%s together' % ln, to_z3(join_term(I, '', c)) == z3.Function('asub', S(), INT, INT, S())(to_z3(E), z3.IntVal(0), to_z3(x))))
        return r
    I.loop_cands.append(cands)
    out = I.outcome(I.fn(M + ':to_char_list'), [E], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    r = as_seq(out[1])
    I.ensure('one symbol per character, and the end', to_z3(r.n) == n + 1)
    I.ensure('the symbols of the characters', forall_int(lambda j: to_z3(r.get(j)) == single_at(to_z3(j)), 0, n))
    I.ensure('the end', to_z3(r.get(simp(n))) == to_z3(A))
    same = Seq(n=simp(n + 1), get=lambda j: z3.If(to_z3(j) == n, to_z3(A), single_at(to_z3(j))))
    for (nm, c), (_, c2) in zip(charlist(I, E, r), charlist(I, E, same)):
        I.ensure(nm, c if 'together' in nm else c2)


def chars(I, w, E, esc):
    """what str.replace('@', '@@') does, character by character, and what characters and slices are"""
    ch = z3.Function('achar', S(), INT, S())
    sub = z3.Function('asub', S(), INT, INT, S())
    pos = z3.Function('pos', INT, INT)
    j = z3.Int('jc')
    n, E = alen(w), to_z3(E)
    at = to_z3(A)
    I.assume(pos(0) == 0, alen(esc(w)) == pos(n), pos(n + 1) == pos(n) + 1, ch(E, pos(n)) == at, to_z3(AA) == cur_str()._cat(at, at))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
        pos(j + 1) == pos(j) + z3.If(ch(w, j) == at, 2, 1), pos(j) < pos(n), ch(E, pos(j)) == ch(w, j), z3.Implies(ch(w, j) == at, ch(E, pos(j) + 1) == at),
        alen(ch(w, j)) == 1)), patterns=[pos(j)]))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, ch(w, j) != at), z3.And(WE(ch(w, j)), U(ch(w, j)) == ch(w, j))), patterns=[ch(w, j)]),
             z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, z_bool(no_sep(I, w, ' '))), z_bool(no_sep(I, ch(w, j), ' '))), patterns=[ch(w, j)]),
             WE(AA), U(AA) == at, LE(A))
    con = z3.Function('acontains', S(), S(), BOOL)
    I.assume(z3.Not(con(at, to_z3(' '))), z3.Not(con(to_z3(AA), to_z3(' '))))
    L = pos(n) + 1
    I.assume(sub(E, 0, 0) == to_z3(''), sub(E, 0, L) == E)
    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), sub(E, 0, j + 1) == cur_str()._cat(sub(E, 0, j), ch(E, j))), patterns=[ch(E, j)]))
    k = z3.Int('kc')
    cc = cur_str()._cat
    I.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, k == j + 2, k <= L), z3.And(
        sub(E, j, k) == cc(ch(E, j), ch(E, j + 1)), sub(E, 0, k) == cc(cc(sub(E, 0, j), ch(E, j)), ch(E, j + 1)),
        cc(sub(E, 0, j), sub(E, j, k)) == sub(E, 0, k))), patterns=[sub(E, j, k)]))


def t_subwords(empty):
    def run(I):
        """nothing cached: the word's pieces"""
        escaping(I)
        laws(I)
        k = EncodeWord(empty)
        I.contracts[k.qual] = k
        w = I.fresh(SStr, 'word')
        I.assume(z_bool(no_sep(I, w, ' ')))
        merges = merge_list(I)
        data = ObjV(I.fn(M + ':BpeData'), {'merges_cache': DictV(Map(items={})), 'merges': merges})
        a, b = z3.Consts('ea eb', S())
        ends(I)
        out = I.outcome(I.fn(M + ':get_bpe_subwords'), [w, data], {})
        I.ensure('no error', out[0] == 'ok')
        if out[0] != 'ok':
            return
        I.ensure('the word is split with the given merges', len(k.args) == 1 and k.args[0][1] is merges)
        r = as_seq(out[1])
        I.ensure('at least one piece', to_z3(r.n) >= 1)
        p = as_seq(k.out)
        n = to_z3(p.n)
        I.ensure('one subtoken per piece', to_z3(r.n) == n)
        Fr, Fp = join_fold(I, '', r), join_fold(I, '', p)
        I.assume(z_bool(Fr.base_axiom()), z_bool(Fp.base_axiom()))

        def unfold(F, t):
            I.assume(to_z3(F.raw(t + 1)) == to_z3(F.step(F.raw(t), t)))
        same_upto = lambda t: z3.And(to_z3(Fr.raw(t)) == U(Fp.raw(t)), WE(Fp.raw(t)))       # noqa
        # by induction: the subtokens up to t are the pieces up to t, unescaped
        I.ensure('all but the last: start', same_upto(z3.IntVal(0)))
        t = fresh_int(I, 't', 0)
        unfold(Fr, t)
        unfold(Fp, t)
        I.ensure('all but the last: step', z3.Implies(z3.And(t < n - 1, same_upto(t)), same_upto(t + 1)))
        I.assume(same_upto(n - 1))
        for F in (Fr, Fp):
            I.assume(to_z3(F.raw(n)) == to_z3(F.step(F.raw(n - 1), n - 1)))
        last = to_z3(p.get(simp(n - 1)))
        y, before, cc = z3.Function('asub', S(), INT, INT, S())(last, z3.IntVal(0), alen(last) - 1), to_z3(Fp.raw(n - 1)), cur_str()._cat
        I.assume(cc(before, cc(y, to_z3(A))) == cc(cc(before, y), to_z3(A)))         # concatenation is associative
        I.ensure('the subtokens together are the word', to_z3(join_term(I, '', r)) == to_z3(w))
        I.ensure('only the last may be empty', forall_int(lambda j: alen(r.get(j)) > 0, 0, to_z3(r.n) - 1))
        if empty:
            I.ensure('single characters', forall_int(lambda j: alen(r.get(j)) == 1, 0, to_z3(r.n) - 1))
    return run


def ends(I):
    """an escaped word without its end: cutting off the last character of LE(x)"""
    x, y = z3.Consts('ex ey', S())
    ch = z3.Function('achar', S(), INT, S())
    sub = z3.Function('asub', S(), INT, INT, S())
    cc = cur_str()._cat
    at = to_z3(A)
    I.assume(z3.ForAll([x], cc(to_z3(''), x) == x, patterns=[cc(to_z3(''), x)]))
    I.assume(z3.ForAll([x], z3.Implies(LE(x), z3.And(alen(x) >= 1, ch(x, alen(x) - 1) == at, WE(sub(x, 0, alen(x) - 1)), x == cc(sub(x, 0, alen(x) - 1), at))),
                       patterns=[LE(x)]))
    I.assume(z3.ForAll([x, y], z3.Implies(cc(x, at) == cc(y, at), x == y), patterns=[z3.MultiPattern(cc(x, at), cc(y, at))]))


def t_laws(I):
    """the laws used above, from what str.replace does: w.replace('@', '@@') doubles '@' character by character, s.replace('@@', '@') takes
    doubled '@' from the left.  Each law that needs it by induction on the text: it holds of '' and, when of r, of c + r."""
    Z = z3.StringSort()
    esc, un = z3.Function('esc', Z, Z), z3.Function('un', Z, Z)
    sv, cat_, ln = z3.StringVal, z3.Concat, z3.Length
    at, at2, empty = sv('@'), sv('@@'), sv('')
    c, r, b, u = (z3.Const(n, Z) for n in ('c', 'r', 'b', 'u'))
    dbl = z3.If(c == at, at2, c)
    one = ln(c) == 1

    def d_esc(rest):
        return esc(cat_(c, rest)) == cat_(dbl, esc(rest))

    def d_un(rest):
        return z3.And(un(cat_(at2, rest)) == cat_(at, un(rest)), z3.Implies(c != at, un(cat_(c, rest)) == cat_(c, un(rest))))
    sp = sv(' ')
    one_more = lambda y, z: z3.Contains(cat_(y, z), sp) == z3.Or(y == sp, z3.Contains(z, sp))          # noqa
    I.ensure('a space in a concatenation', z3.Implies(one, one_more(c, r)))
    I.ensure('no space in a doubled @', z3.Contains(cat_(at2, r), sp) == z3.Contains(r, sp))
    I.assume(one, esc(empty) == empty, un(empty) == empty, d_esc(r), d_esc(cat_(r, b)), d_un(esc(r)))
    imp = z3.Implies
    I.ensure('unescaping undoes escaping: empty text', un(esc(empty)) == empty)
    I.ensure('unescaping undoes escaping: step', imp(un(esc(r)) == r, un(esc(cat_(c, r))) == cat_(c, r)))
    I.ensure('escaping part by part: empty text', cat_(esc(empty), esc(b)) == esc(cat_(empty, b)))
    I.ensure('escaping part by part: step', imp(cat_(esc(r), esc(b)) == esc(cat_(r, b)), cat_(esc(cat_(c, r)), esc(b)) == esc(cat_(cat_(c, r), b))))
    I.ensure('spaces: empty text', z3.Contains(esc(empty), sp) == z3.Contains(empty, sp))
    has = z3.Function('has_space', Z, z3.BoolSort())          # (of which the step needs no more than the two facts above)
    step = lambda y, z: has(cat_(y, z)) == z3.Or(y == sp, has(z))          # noqa
    I.ensure('spaces: step', imp(z3.And(step(c, r), step(c, esc(r)), has(esc(r)) == has(r), has(cat_(at2, esc(r))) == has(esc(r))),
                                 has(cat_(dbl, esc(r))) == has(cat_(c, r))))
    # consequences
    law = z3.And(un(esc(u)) == u, un(esc(b)) == b, un(esc(cat_(u, b))) == cat_(u, b), cat_(esc(u), esc(b)) == esc(cat_(u, b)))
    I.ensure('of two escaped texts', imp(law, un(cat_(esc(u), esc(b))) == cat_(un(esc(u)), un(esc(b)))))
    I.ensure('and of one that ends a word', imp(law, cat_(esc(u), cat_(esc(b), at)) == cat_(esc(cat_(u, b)), at)))
    I.ensure('not empty', imp(z3.And(law, ln(esc(u)) > 0), ln(un(esc(u))) > 0))
    x = cat_(esc(u), at)
    I.ensure('without its end', z3.And(z3.SubString(x, ln(x) - 1, 1) == at, z3.SubString(x, 0, ln(x) - 1) == esc(u)))
    # where the characters of a text are found in the escaped one: before m, m, after m
    w, E = cat_(u, cat_(c, b)), cat_(esc(u), cat_(dbl, esc(b)))
    law = z3.And(esc(w) == cat_(esc(u), esc(cat_(c, b))), esc(cat_(c, b)) == cat_(dbl, esc(b)), esc(cat_(u, c)) == cat_(esc(u), esc(c)), esc(c) == dbl)
    pos = ln(esc(u))
    I.ensure('positions', imp(law, z3.And(esc(w) == E, ln(esc(cat_(u, c))) == pos + z3.If(c == at, 2, 1), z3.SubString(E, pos, 1) == c,
                                          imp(c == at, z3.SubString(E, pos + 1, 1) == at))))


TARGETS = [
    Target('escape-laws', 'C01', [], t_laws),
    Target('subwords', 'C01', ['bpepkg.bpe_encode.get_bpe_subwords', 'bpepkg.bpe_encode.unescape', 'bpepkg.bpe_encode.escape'], t_subwords(False), str_mode='atom'),
    Target('subwords-characters', 'C01', ['bpepkg.bpe_encode.get_bpe_subwords', 'bpepkg.bpe_encode.unescape', 'bpepkg.bpe_encode.escape'], t_subwords(True), str_mode='atom'),
    Target('to_char_list', 'C01', ['bpepkg.bpe_encode.to_char_list', 'bpepkg.bpe_encode.escape'], t_chars, str_mode='atom', timeout=200),
    Target('encode', 'C01', ['bpepkg.bpe_encode.encode', 'bpepkg.bpe_encode.encode_word'], t_encode(False), str_mode='atom', timeout=600),
    Target('encode-characters', 'C01', ['bpepkg.bpe_encode.encode', 'bpepkg.bpe_encode.encode_word'], t_encode(True), str_mode='atom', timeout=600),
]

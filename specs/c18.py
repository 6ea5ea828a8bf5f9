"""C18 Token iterators cover all subtokens and attribute them correctly."""
from specs.lib import *

M = 'codeprep.subtokens'
LOOP = '''
def client(cls, subwords, wb, fmt, idx):
    it = cls(subwords, wb, fmt, return_full_token_index=idx)
    it = iter(it)
    out = []
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        out.append(x)
    return out
'''


def boundaries(I, n):
    wb = fresh_list(I, SInt, 'wb')
    c = wb._c
    a, b = z3.Ints('a b')
    I.assume(to_z3(c.n) >= 1, c.get(0) == 0, c.get(simp(c.n - 1)) == n)
    I.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < c.n), c.get(a) < c.get(b)),
                       patterns=[z3.MultiPattern(c.get(a), c.get(b))]))
    return wb


def setup(I):
    sub = fresh_list(I, SItem, 'subwords')
    wb = boundaries(I, sub._c.n)
    idx = I.fresh(SBool, 'return_full_token_index')
    return sub, wb, idx


def shape_item(I, x, idx):
    """(index or None, content Seq) of a yielded item"""
    if isinstance(x, tuple):
        return x[0], as_seq(x[1])
    return None, as_seq(x)


def t_full(I):
    sub, wb, idx = setup(I)
    s, w = sub._c, wb._c
    withidx = I.branch(idx)

    def spec(j):
        sl = V.seq_slice(s, w.get(j), w.get(simp(to_z3(j) + 1)))
        return (j, sl) if withidx else sl

    def cands(v):
        r = []
        for n, c, _ in v.ints():
            r.append(('%s is the word' % n, to_z3(c) == v.k))
        r.append(('k<=words', v.k <= w.n - 1))
        for n, c, _ in v.seqs():
            r.append(('out %s' % n, forall_int(lambda j: eqv(c.get(j), spec(j)), 0, v.k)))
        return r
    I.loop_cands.append(cands)
    f = client(I, LOOP)
    out = I.call(f, [I.fn(M + ':FullTokenIterator'), sub, wb, ident_fn(), withidx], {})
    o = out._c
    I.ensure('one item per word', to_z3(o.n) == w.n - 1)
    I.ensure('item j is built from the subtokens between boundaries j and j+1, with index j',
             forall_int(lambda j: eqv(o.get(j), spec(j)), 0, w.n - 1))


def t_sub(I):
    sub, wb, idx = setup(I)
    s, w = sub._c, wb._c
    withidx = I.branch(idx)
    W = z3.Function('word_of', INT, INT)
    j0 = z3.Int('j0')
    # definition of word_of: exists (and is unique) for strictly increasing boundaries from 0 to n
    I.assume(z3.ForAll([j0], z3.Implies(z3.And(0 <= j0, j0 < s.n), z3.And(
        0 <= W(j0), W(j0) < w.n - 1, w.get(W(j0)) <= j0, j0 < w.get(W(j0) + 1))), patterns=[W(j0)]))

    def spec(j):
        it = Seq(items=[s.get(j)])
        return (W(to_z3(j)), it) if withidx else it

    def inword(x, k):
        return z3.And(0 <= x, x < w.n, w.get(x) <= k, z3.Implies(x < w.n - 1, k < w.get(x + 1)))

    def cands(v):
        r = []
        for n, c, _ in v.ints():
            r.append(('%s is the index' % n, to_z3(c) == v.k))
            r.append(('%s is the word of k' % n, inword(to_z3(c), v.k)))
        r.append(('k<=n', v.k <= s.n))
        for n, c, _ in v.seqs():
            r.append(('out %s' % n, forall_int(lambda j: eqv(c.get(j), spec(j)), 0, v.k)))
        return r
    I.loop_cands.append(cands)
    f = client(I, LOOP)
    out = I.call(f, [I.fn(M + ':SubtokenIterator'), sub, wb, ident_fn(), withidx], {})
    o = out._c
    I.ensure('one item per subtoken', to_z3(o.n) == s.n)
    I.ensure('item j is subtoken j with the index of its word', forall_int(lambda j: eqv(o.get(j), spec(j)), 0, s.n))


def t_reject(cname):
    def run(I):
        sub = fresh_list(I, SItem, 'subwords')
        wb = fresh_list(I, SInt, 'wb')
        c, s = wb._c, sub._c
        kind, r = I.outcome(I.fn('%s:%s' % (M, cname)), [sub, wb])
        ok = z3.And(c.n >= 1, c.get(0) == 0, c.get(c.n - 1) == s.n)
        if kind == 'ok':
            I.ensure('accepted boundaries start at 0 and end at the number of subtokens', ok)
        else:
            I.ensure('rejection is a ValueError', exc_name(r.cls).endswith('ValueError'))
            I.ensure('rejected boundaries do not start at 0 or end at the number of subtokens', z3.Not(ok))
    return run


def t_default_format(I):
    """default formats: a full token is the concatenation of its subtokens, a subtoken is itself"""
    a, b = I.fresh(SStr, 'a'), I.fresh(SStr, 'b')
    sub = ListV(Seq(items=[a, b]))
    for cname, wb, want in (('FullTokenIterator', [0, 2], I.cat(a, b)), ('SubtokenIterator', [0, 2], a)):
        it = I.call(I.fn('%s:%s' % (M, cname)), [sub, ListV(Seq(items=wb))], {})
        I.ensure('default format of %s' % cname, eqv(I.method(it, '__next__'), want))


TARGETS = [
    Target('FullTokenIterator', 'C18', ['subtokens.FullTokenIterator.__init__', 'subtokens.FullTokenIterator.__next__'], t_full),
    Target('SubtokenIterator', 'C18', ['subtokens.SubtokenIterator.__init__', 'subtokens.SubtokenIterator.__next__'], t_sub),
    Target('reject-full', 'C18', ['subtokens.TokenIterator.validate_word_boundaries'], t_reject('FullTokenIterator')),
    Target('reject-sub', 'C18', ['subtokens.TokenIterator.validate_word_boundaries'], t_reject('SubtokenIterator')),
    Target('default-format', 'C18', ['subtokens.FullTokenIterator.__init__', 'subtokens.SubtokenIterator.__init__'], t_default_format),
]

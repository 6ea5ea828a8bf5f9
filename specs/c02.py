"""C02 BPE splits exactly as the priority-ordered merges prescribe.

R(k) is what the characters of the word become in k rounds.  In a round, PR(k, i) is the priority of the pair at i (MAX when there is no such merge),
B(k) the best of them, and the pieces are rebuilt from the left: the piece with number p starts at SRC(k, p), takes two pieces when the pair there has
the best priority, and one otherwise.  The segmentation is R(K), K being the first round in which no pair is left to merge."""
from specs.lib import *
from specs.c01 import (M, merge_list, natives, lists, is_range, is_ints, is_strs, no_space, no_sep, escaping, laws, ends, LE, cat, alen)
from specs import c01

MAX = 2 ** 63 - 1


class Rounds:
    def __init__(self, I, merges, name=''):
        S = cur_str().sort
        F = z3.Function
        self.I = I
        self.N, self.E = F('R.n' + name, INT, INT), F('R.e' + name, INT, INT, S)
        self.PR, self.B, self.BI = F('PR' + name, INT, INT, INT), F('B' + name, INT, INT), F('BI' + name, INT, INT)
        self.SRC = F('SRC' + name, INT, INT, INT)
        self.round_of = {}
        self.m = merges.fields['merges']._c
        self.K = z3.Int('K' + name)
        self.done = set()

    def prio(self, a, b):
        return to_z3(self.m.get((a, b)).fields['priority'])

    def define(self, k):
        """the definitions for round k"""
        I = self.I
        i, q, p = z3.Ints('ri rq rp')
        N, E, PR, B, SRC = self.N, self.E, self.PR, self.B, self.SRC
        has = z_bool(self.m.has((E(k, i), E(k, i + 1))))
        pr = self.prio(E(k, i), E(k, i + 1))
        inr = z3.And(0 <= i, i < N(k) - 1)
        I.assume(z3.ForAll([i], z3.Implies(inr, PR(k, i) == z3.If(has, pr, MAX)), patterns=[PR(k, i)]),
                 z3.ForAll([i], z3.Implies(inr, PR(k, i) >= B(k)), patterns=[PR(k, i)]), B(k) <= MAX,
                 z3.Implies(B(k) < MAX, z3.And(0 <= self.BI(k), self.BI(k) < N(k) - 1, PR(k, self.BI(k)) == B(k))))
        # the next round
        at = SRC(k, p)
        I.assume(SRC(k, 0) == 0,
                 z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q), at < SRC(k, q)), patterns=[z3.MultiPattern(at, SRC(k, q))]))

    def step(self, k, p):
        """where the piece after number p starts"""
        at = self.SRC(k, p)
        two = z3.And(at < self.N(k) - 1, self.PR(k, at) == self.B(k), self.B(k) < MAX)
        self.I.assume(z3.Implies(0 <= p, self.SRC(k, self.named(simp(p + 1))) == at + z3.If(two, 2, 1)))

    def named(self, x):
        """a name for a term (no arithmetic in triggers)"""
        x = to_z3(x)
        if z3.is_const(x):
            return x
        n = z3.Int('at!%d' % x.get_id())
        self.keep = getattr(self, 'keep', []) + [x]
        self.I.assume(n == x)
        return n

    def piece(self, k, p):
        at = self.SRC(k, p)
        two = z3.And(at < self.N(k) - 1, self.PR(k, at) == self.B(k), self.B(k) < MAX)
        return z3.If(two, cur_str()._cat(self.E(k, at), self.E(k, at + 1)), self.E(k, at))

    def next(self, k):
        """R(k + 1)"""
        p = z3.Int('rp')
        self.I.assume(self.SRC(k, self.N(k + 1)) == self.N(k), self.N(k + 1) >= 0,
                      z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < self.N(k + 1)), self.E(k + 1, p) == self.piece(k, p)), patterns=[self.E(k + 1, p)]))

    def eq(self, c, k):
        """the list c is R(k)"""
        return z3.And(to_z3(c.n) == self.N(k), forall_int(lambda j: to_z3(c.get(j)) == self.E(k, to_z3(j)), 0, c.n))

    def first(self):
        k, j = z3.Ints('rk rj')
        self.I.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, self.B(k) == MAX, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), self.B(j) < MAX))), k == self.K),
                                patterns=[self.B(k)]))


def consts(t):
    return {t.get_id()} if z3.is_const(t) else set().union(*[consts(c) for c in t.children()])


def forall(vs, body, *terms):
    """for all vs, triggered by the terms where they can be triggers (what a list's element is after an append is no plain term)"""
    terms = [to_z3(t) for t in terms]
    seen = set()
    for t in terms:
        seen |= consts(t)
    if all(t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) for t in terms) and all(v.get_id() in seen for v in vs) and \
            all(consts(t) & {v.get_id() for v in vs} for t in terms):
        try:
            return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*terms) if len(terms) > 1 else terms[0]])
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def is_base(k):
    """the number of a round at its start (not of the next one)"""
    return z3.is_const(k) and not z3.is_int_value(k)


def round_cands(I, v, R):
    r = []
    ls = lists(v)
    j, q = z3.Ints('jr qr')
    if v.seq is None:
        k = R.named(v.k)
        if is_base(v.k):
            R.define(k)
            R.next(k)
        for n, c, kind in ls:
            if kind == 'str' and c.items != []:
                R.round_of[c.id] = k
                r += [('%s has no spaces' % n, no_space(I, c)), ('%s not empty' % n, to_z3(c.n) >= 1), ('%s is R' % n, R.eq(c, k))]
        r.append(('not done before', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), R.B(j) < MAX), patterns=[R.B(j)])))
        return r
    contents = [x for _, x, _ in ls]
    src = [(c, R.round_of[c.id]) for n, c in v.env_seqs() if c.id in R.round_of and not any(c is x for x in contents)]
    if not src:
        return r
    S, k = src[-1]
    k = R.named(k)
    N, E, PR, B, SRC = R.N, R.E, R.PR, R.B, R.SRC
    if is_range(v):
        t = R.named(v.k)
        named = [x for x in ls if x[2] == 'int' and any(s.kind == 'var' and s.label() == x[0] for s in v.slots)]
        pos = named or [x for x in ls if x[2] == 'int']
        for bn, b, e in v.ints() if pos else []:
            if not is_int(e):
                continue
            b = to_z3(b)
            r.append(('%s best so far' % bn, z3.And(b <= MAX, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), PR(k, j) >= b), patterns=[PR(k, j)]))))
            for n, c, _ in pos:
                if c.items == []:
                    r += [('%s %s attained' % (bn, n), b == MAX), ('%s %s best' % (bn, n), True), ('%s %s before' % (bn, n), b == MAX),
                          ('%s %s between' % (bn, n), True), ('%s %s after' % (bn, n), True)]
                    continue
                cn = R.named(c.n)
                get = lambda i: to_z3(c.get(i))
                last = get(simp(cn - 1))
                r += [('%s %s attained' % (bn, n), (b == MAX) == (cn == 0)),
                      ('%s %s best' % (bn, n), forall([j], z3.Implies(z3.And(0 <= j, j < cn), z3.And(0 <= get(j), get(j) < t, PR(k, get(j)) == b)), get(j))),
                      ('%s %s before' % (bn, n), forall([j], z3.Implies(z3.And(cn > 0, 0 <= j, j < get(0), j < t), PR(k, j) != b), PR(k, j))),
                      ('%s %s between' % (bn, n), forall([q, j], z3.Implies(z3.And(0 <= q, q < cn - 1, get(q) + 1 < j, j < get(q + 1)), PR(k, j) != b), get(q), PR(k, j))),
                      ('%s %s after' % (bn, n), forall([j], z3.Implies(z3.And(cn > 0, last + 1 < j, j < t), PR(k, j) != b), PR(k, j)))]
        for n, c, _ in pos:
            if c.items == []:
                r.append(('%s apart' % n, True))
            else:
                r.append(('%s apart' % n, forall([q, j], z3.Implies(z3.And(0 <= q, q < j, j < to_z3(c.n)), to_z3(c.get(q)) + 2 <= to_z3(c.get(j))),
                                                    c.get(q), c.get(j))))
        marks = [('elem', R.named(v.seq.get(t)))]
    else:
        marks = [(nm, R.named(x)) for nm, x, e in v.ints() if is_int(e)]
        for nm, x, e in v.ints():
            if is_int(e) and is_ints(v.seq):
                r.append(('%s follows the last' % nm, to_z3(x) == z3.If(v.k == 0, to_z3(e), to_z3(v.seq.get(simp(v.k - 1))) + 2)))
    for n, c, kind in ls:
        if kind != 'str':
            continue
        r.append(('%s has no spaces' % n, True if c.items == [] else no_space(I, c)))
        for nm, to in marks:
            cn = R.named(c.n)
            R.step(k, cn)
            if not is_range(v):
                r.append(('%s shorter by k than %s' % (n, nm), cn == to - v.k))
            r += [('%s within' % nm, to <= to_z3(S.n)), ('%s ends at %s' % (n, nm), SRC(k, cn) == to),
                  ('%s rebuilt' % n, True if c.items == [] else forall_int(lambda p: to_z3(c.get(p)) == R.piece(k, to_z3(p)), 0, cn))]
    return r


class CharList(Contract):
    """to_char_list: some symbols (those of the word: C01)"""
    qual = M + ':to_char_list'

    def apply(self, I, b):
        r = fresh_list(I, SStr, 'chars')
        self.out = r._c
        I.assume(to_z3(r._c.n) >= 1, z_bool(z_implies(no_sep(I, b['word'], ' '), no_space(I, r._c))))
        return r


def priorities(I, m):
    """priorities are the positions in the merge list"""
    a, b = z3.Consts('pa pb', cur_str().sort)
    mp = m.fields['merges']._c
    has, pr = z_bool(mp.has((a, b))), to_z3(mp.get((a, b)).fields['priority'])
    I.assume(z3.ForAll([a, b], z3.Implies(has, z3.And(0 <= pr, pr < MAX)), patterns=[pr]))


def split_word(I, before=None):
    """encode_word, on any word and merges, with the loop invariants"""
    natives(I)
    k = CharList()
    I.contracts[k.qual] = k
    merges = merge_list(I)
    priorities(I, merges)
    w = I.fresh(SStr, 'word')
    I.assume(z_bool(no_sep(I, w, ' ')))
    R = Rounds(I, merges)
    if before:
        before(merges)

    def cands(v):
        c = k.out
        if c.id not in R.round_of:
            R.round_of[c.id] = z3.IntVal(0)
            I.assume(R.eq(c, z3.IntVal(0)))
        return round_cands(I, v, R)
    I.loop_cands.append(cands)
    out = I.outcome(I.fn(M + ':encode_word'), [w, merges], {})
    return k, merges, R, out


def t_encode(I):
    k, merges, R, out = split_word(I)
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    I.assume(R.eq(k.out, z3.IntVal(0)))
    R.first()
    r = as_seq(out[1])
    I.ensure('as many pieces as after the last round', to_z3(r.n) == R.N(R.K))
    I.ensure('the pieces of the last round', forall_int(lambda j: to_z3(r.get(j)) == R.E(R.K, to_z3(j)), 0, r.n))


class Segment(Contract):
    """encode_word (target `encode`): what the merges make of the word, a function of the two"""
    qual = M + ':encode_word'

    def __init__(self):
        self.args = []

    def apply(self, I, b):
        S = cur_str().sort
        w = b['word']
        self.args.append((w, b['merges']))
        n, e = z3.Function('SEG.n', S, INT), z3.Function('SEG.e', S, INT, S)
        w = to_z3(w)
        I.assume(n(w) >= 1, c01.LE(e(w, n(w) - 1)))
        r = fresh_list(I, SStr, 'pieces')
        I.assume(to_z3(r._c.n) == n(w), forall_int(lambda j: to_z3(r._c.get(j)) == e(w, to_z3(j)), 0, n(w)))
        return r


def seg(w):
    """the Seq of the merges' pieces of w"""
    S = cur_str().sort
    n, e = z3.Function('SEG.n', S, INT), z3.Function('SEG.e', S, INT, S)
    return Seq(n=n(w), get=lambda j: e(w, to_z3(j)))


def cached(I):
    """BPE data with any cache"""
    S = cur_str().sort
    cache = I.fresh(SDict(SStr, SList(SStr)), 'cache')
    x = z3.Const('cx', S)
    v = as_seq(cache._c.get(x))
    I.assume(z3.ForAll([x], z3.Implies(z_bool(cache._c.has(x)), z3.And(to_z3(v.n) >= 1, c01.LE(to_z3(v.get(to_z3(v.n) - 1)))))))
    merges = merge_list(I)
    return cache, merges, ObjV(I.fn(M + ':BpeData'), {'merges_cache': cache, 'merges': merges})


def unescaped(c):
    """the subtokens of a segmentation: the end mark cut off, '@@' made '@'"""
    n = to_z3(c.n)
    sub = z3.Function('asub', cur_str().sort, INT, INT, cur_str().sort)
    last = to_z3(c.get(simp(n - 1)))
    return Seq(n=c.n, get=lambda j: z3.If(to_z3(j) == n - 1, c01.U(sub(last, 0, alen(last) - 1)), c01.U(to_z3(c.get(j)))))


def t_subwords(I):
    """a word in the cache gets the cached segmentation, another one that of the merges"""
    esc = c01.escaping(I)
    c01.ends(I)
    k = Segment()
    I.contracts[k.qual] = k
    cache, merges, data = cached(I)
    w = I.fresh(SStr, 'word')
    e = cat(esc(to_z3(w)), '@')
    had = I.branch(cache._c.has(e))
    want = as_seq(cache._c.get(e)) if had else seg(to_z3(e))
    want = unescaped(Seq(n=want.n, get=want.get))
    I.assume(z_bool(no_sep(I, w, ' ')))
    out = I.outcome(I.fn(M + ':get_bpe_subwords'), [w, data], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    r = as_seq(out[1])
    if not had:
        I.ensure('split with the given merges', len(k.args) >= 1 and all(m is merges for _, m in k.args))
    I.ensure('one subtoken per piece', to_z3(r.n) == to_z3(want.n))
    I.ensure('the subtokens are the pieces', forall_int(lambda j: to_z3(r.get(j)) == to_z3(want.get(j)), 0, r.n))


TARGETS = [
    Target('encode', 'C02', ['bpepkg.bpe_encode.encode', 'bpepkg.bpe_encode.encode_word', 'bpepkg.merge.MergeList.__contains__',
                             'bpepkg.merge.MergeList.get_priority'], t_encode, str_mode='atom', timeout=600),
    Target('subwords', 'C02', ['bpepkg.bpe_encode.get_bpe_subwords', 'bpepkg.bpe_encode.unescape', 'bpepkg.bpe_encode.escape'], t_subwords, str_mode='atom'),
]

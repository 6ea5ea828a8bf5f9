"""C13 Vocabulary counts are exact however the corpus is partitioned."""
from specs.lib import *

U = 'codeprep.util'
P = 'codeprep.pipeline.vocab'


def count(m, k):
    """count of a word in a vocabulary (0 when absent)"""
    return z3.If(to_z3(m.has(k)), to_z3(m.get(k)), 0)


def rank(I, m1, m2):
    """rank(i): how many of the first i words of the second vocabulary are absent from the first"""
    return Fold(I, 'rank', SInt, 0, lambda acc, t: z3.If(z_bool_t(m1.has(m2.keys.get(t))), to_z3(acc), to_z3(acc) + 1))


def z_bool_t(x):
    return to_z3(z_bool(x))


def news_ok(I, nw, m1, m2, R, upto):
    """nw holds exactly the words among the first `upto` of m2 that m1 lacks, in order, each once"""
    def el(j):
        x = to_z3(nw.get(j))
        return z_and(z_bool_t(m2.has(x)), z_not(z_bool_t(m1.has(x))), to_z3(m2.idx(x)) < to_z3(upto), to_z3(R.raw(m2.idx(x))) == to_z3(j))
    return [('number of new words', eqv(nw.n, R.at(upto))),
            ('new words were absent', forall_int(el, 0, nw.n)),
            ('absent words are new', forall_int(lambda t: z3.Implies(z3.Not(z_bool_t(m1.has(m2.keys.get(t)))), z3.And(0 <= to_z3(R.raw(t)), to_z3(R.raw(t)) < to_z3(nw.n),
             to_z3(nw.get(R.raw(t))) == to_z3(m2.keys.get(t)))), 0, upto))]


def qs():
    return z3.Const('q!%d' % next(V._fc), cur_str().sort)


def merged_ok(m, m1, m2, upto):
    q = qs()
    inn = z3.And(z_bool_t(m2.has(q)), to_z3(m2.idx(q)) < to_z3(upto))
    q2 = qs()
    inn2 = z3.And(z_bool_t(m2.has(q2)), to_z3(m2.idx(q2)) < to_z3(upto))
    return [('words', z3.ForAll([q], z_bool_t(m.has(q)) == z3.Or(z_bool_t(m1.has(q)), inn))),
            ('counts', z3.ForAll([q2], z3.Implies(z_bool_t(m.has(q2)), to_z3(m.get(q2)) == count(m1, q2) + z3.If(inn2, to_z3(m2.get(q2)), 0))))]


def add_cands(I, m1, m2, R):
    def cands(v):
        r = []
        for nm, m, _ in v.maps():
            if m.items is None:
                r += [('%s %s' % (nm, a), c) for a, c in merged_ok(m, m1, m2, v.k)]
                r.append(('%s size' % nm, eqv(m.size, to_z3(m1.size) + to_z3(R.at(v.k)))))
        for nm, s, _ in v.seqs():
            r += [('%s %s' % (nm, a), c) for a, c in news_ok(I, s, m1, m2, R, v.k)]
        r.append(('rank', z3.And(0 <= to_z3(R.at(v.k)), to_z3(R.at(v.k)) <= v.k)))
        return r
    I.loop_cands.append(cands)


def t_merge(I):
    d1, d2 = I.fresh(SDict(SStr, SInt), 'dict1'), I.fresh(SDict(SStr, SInt), 'dict2')
    m1, m2 = d1._c, d2._c
    R = rank(I, m1, m2)
    I.assume(z_bool(R.base_axiom()))
    add_cands(I, m1, m2, R)
    res = I.call(I.fn(U + ':merge_dicts_'), [d1, d2], {})
    a, b = I.unpack(res, 2, [False, False])
    I.ensure('the first dictionary is returned', a is d1)
    for nm, c in merged_ok(a._c, m1, m2, m2.size):
        I.ensure('merged: ' + nm, c)
    for nm, c in news_ok(I, as_seq(b), m1, m2, R, m2.size):
        I.ensure(nm, c)
    I.ensure('the second dictionary is unchanged', d2._c is m2)


def vocab_obj(I, name):
    d = I.fresh(SDict(SStr, SInt), name + '.words')
    d.default, d.pycls = NativeFn('zero', lambda I2, b, k: 0), 'Counter'
    st = I.fresh(SList(STuple(SInt, SInt, SInt)), name + '.stats')
    n = I.fresh(SInt, name + '.n_files')
    o = ObjV(I.fn(P + ':PartialVocab'), {'merged_word_counts': d, 'stats': st, 'n_files': n, 'chunk': I.fresh(SInt, 'chunk'), 'id': I.fresh(SStr, 'id')})
    return o, d._c, n


def t_add(I):
    v1, m1, n1 = vocab_obj(I, 'v1')
    v2, m2, n2 = vocab_obj(I, 'v2')
    R = rank(I, m1, m2)
    I.assume(z_bool(R.base_axiom()))
    add_cands(I, m1, m2, R)
    nw = I.call(I.getattr(v1, 'add_vocab'), [v2], {})
    m = v1.fields['merged_word_counts']._c
    for nm, c in merged_ok(m, m1, m2, m2.size):
        I.ensure('merged: ' + nm, c)
    for nm, c in news_ok(I, as_seq(nw), m1, m2, R, m2.size):
        I.ensure(nm, c)
    I.ensure('files are added up', eqv(v1.fields['n_files'], n1 + n2))
    I.ensure('the merged-in vocabulary is unchanged', z_and(v2.fields['merged_word_counts']._c is m2, v2.fields['n_files'] is n2))


def t_partial(I):
    d = I.fresh(SDict(SStr, SInt), 'words')
    d.default, d.pycls = NativeFn('zero', lambda I2, b, k: 0), 'Counter'
    m = d._c
    I.contracts[P + ':PartialVocab._generate_id'] = FreshStr(P + ':PartialVocab._generate_id')
    v = I.call(I.fn(P + ':PartialVocab'), [d, I.fresh(SInt, 'chunk')], {})
    c = v.fields['merged_word_counts']._c
    q = qs()
    I.ensure('a new partial vocabulary has the counts given', z3.ForAll([q], z3.And(z_bool_t(c.has(q)) == z_bool_t(m.has(q)), z3.Implies(z_bool_t(m.has(q)), to_z3(c.get(q)) == to_z3(m.get(q))))))
    I.ensure('it counts as one', eqv(v.fields['n_files'], 1))


class FreshStr(Contract):
    """an identifier of process id, time and a random number"""

    def __init__(self, qual):
        self.qual = qual

    def apply(self, I, b):
        return I.fresh(SStr, 'id')


def robin(I, n):
    """round robin: (label, round) of position t"""
    return Fold(I, 'robin', STuple(SInt, SInt), (0, 0), lambda acc, t: (
        z3.If(to_z3(acc[0]) + 1 < n, to_z3(acc[0]) + 1, 0), z3.If(to_z3(acc[0]) + 1 < n, to_z3(acc[1]), to_z3(acc[1]) + 1)))


def labels_ok(F, s):
    return forall_int(lambda p: to_z3(s.get(p)) == to_z3(F.raw(p)[0]), 0, s.n)


def gen_cands(I, F, n):
    def cands(v):
        r = []
        for nm, s, e in v.seqs():
            try:
                r.append(('%s labels' % nm, labels_ok(F, s)))
            except (Unsupported, TypeError, AttributeError):
                continue
            L = to_z3(F.at(s.n)[0])
            r.append(('%s next label' % nm, L == z3.If(v.k < n, v.k, 0)))
            r.append(('%s next label 0' % nm, L == 0))
            r.append(('%s length from entry' % nm, to_z3(s.n) == to_z3(e.n) + v.k if e is not None else False))
            r.append(('%s length rounds' % nm, to_z3(s.n) == v.k * n))
        return r
    I.loop_cands.append(cands)


def t_chunks(I):
    total, n = fresh_int(I, 'total', 0), fresh_int(I, 'n_chunks', 1)
    F = robin(I, n)
    I.assume(z_bool(F.base_axiom()))
    gen_cands(I, F, n)
    g = client(I, 'def client(total, n):\n    return [x for x in create_chunk_generator(total, n)]\n', create_chunk_generator=I.fn(U + ':create_chunk_generator'))
    s = as_seq(I.call(g, [total, n], {}))
    I.ensure('one label per element', eqv(s.n, total))
    I.ensure('labels go round', labels_ok(F, s))


class Chunks(Contract):
    """create_chunk_generator (proved by target chunks): labels of positions, round robin"""
    qual = U + ':create_chunk_generator'

    def __init__(self):
        self.F = None

    def apply(self, I, b):
        n = to_z3(b['n_chunks'])
        I.require('at least one chunk', n >= 1)
        self.F = robin(I, n)
        self.n = n
        I.assume(z_bool(self.F.base_axiom()))
        return CellV('seqview', seq=Seq(n=b['total'], get=lambda p: self.F.raw(p)[0]))


def t_groupify(I):
    k = Chunks()
    I.contracts[k.qual] = k
    xs = fresh_list(I, SItem, 'files')
    n = fresh_int(I, 'n_chunks', 1)

    def cands(v):
        if k.F is None:
            return []
        F, r = k.F, []
        lab, rnd = (to_z3(x) for x in F.at(v.k))
        r.append(('label in range', z3.And(0 <= lab, lab < n, lab <= v.k, rnd >= 0)))
        r.append(('first round', z3.Implies(v.k < n, z3.And(lab == v.k, rnd == 0))))
        r.append(('later rounds', z3.Implies(v.k >= n, rnd >= 1)))
        for nm, s, e in v.seqs():
            try:
                if not isinstance(s.get(z3.IntVal(0)), (ListV, Seq)):
                    continue
                r.append(('%s as many groups' % nm, eqv(s.n, e.n)))
                r.append(('%s sizes' % nm, forall_int(lambda g: to_z3(as_seq(s.get(g)).n) == z3.If(to_z3(g) < lab, rnd + 1, rnd), 0, s.n)))
                r.append(('%s places' % nm, forall_int(lambda p: z3.And(*[0 <= to_z3(F.raw(p)[0]), to_z3(F.raw(p)[0]) < to_z3(s.n), 0 <= to_z3(F.raw(p)[1]),
                          to_z3(F.raw(p)[1]) < to_z3(as_seq(s.get(F.raw(p)[0])).n), z_bool_t(eqv(as_seq(s.get(F.raw(p)[0])).get(F.raw(p)[1]), xs._c.get(p)))]), 0, v.k)))
            except Unsupported:
                pass
        return r
    I.loop_cands.append(cands)
    r = as_seq(I.call(I.fn(U + ':groupify'), [xs, n], {}))
    N = to_z3(xs._c.n)
    I.ensure('number of groups', eqv(r.n, z3.If(N < n, N, n)))
    a, b = z3.Ints('ga gb')
    F = k.F
    if F is None:
        I.ensure('every element in its group', N == 0)
        return
    I.ensure('group sizes differ by at most one', z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < r.n, 0 <= b, b < r.n), to_z3(as_seq(r.get(a)).n) - to_z3(as_seq(r.get(b)).n) <= 1)))
    lab, rnd = (to_z3(x) for x in F.at(xs._c.n))
    I.ensure('every element is in the group of its label, at the place of its round', forall_int(lambda p: z3.And(
        to_z3(F.raw(p)[1]) < to_z3(as_seq(r.get(F.raw(p)[0])).n), z_bool_t(eqv(as_seq(r.get(F.raw(p)[0])).get(F.raw(p)[1]), xs._c.get(p)))), 0, N))
    I.ensure('the groups hold nothing else', forall_int(lambda g: to_z3(as_seq(r.get(g)).n) == z3.If(to_z3(g) < lab, rnd + 1, rnd), 0, r.n))
    # rounds are complete: the places (label, round) of the elements are exactly those below the sizes


TARGETS = [
    Target('merge', 'C13', ['util.merge_dicts_'], t_merge, str_mode='atom'),
    Target('add_vocab', 'C13', ['pipeline.vocab.PartialVocab.add_vocab', 'util.merge_dicts_'], t_add, str_mode='atom'),
    Target('partial', 'C13', ['pipeline.vocab.PartialVocab.__init__'], t_partial, str_mode='atom'),
    Target('chunks', 'C13', ['util.create_chunk_generator'], t_chunks, str_mode='atom'),
    Target('groupify', 'C13', ['util.groupify'], t_groupify, str_mode='atom'),
]

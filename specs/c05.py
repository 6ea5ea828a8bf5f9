"""C05 BPE output marks the end of each word exactly once."""
from specs.lib import *
from specs.toks import *

M = 'codeprep.pipeline.to_repr'
END = '</t>'


def words(I):
    """tokens with fitting metadata, and word_of: the word a token belongs to (exists and is unique for strictly
    increasing boundaries from 0 to the number of tokens)"""
    prep = fresh_list(I, SStr, 'prep')
    meta = meta_obj(I, 'meta')
    n, w = prep._c.n, meta.fields['word_boundaries']._c
    for nm, c in valid_meta(n, meta):
        I.assume(z_bool(c))
    a, b, j0 = z3.Ints('a b j0')
    I.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < w.n), w.get(a) < w.get(b)),
                       patterns=[z3.MultiPattern(w.get(a), w.get(b))]))
    W = z3.Function('word_of!%d' % w.id, INT, INT)
    I.assume(z3.ForAll([j0], z3.Implies(z3.And(0 <= j0, j0 < n), z3.And(
        0 <= W(j0), W(j0) < w.n - 1, w.get(W(j0)) <= j0, j0 < w.get(W(j0) + 1))), patterns=[W(j0)]))
    return prep, meta


def suffixed(I, res, p, w, upto=None):
    """token j is suffixed iff it is the last one of its word (and the word is among the first `upto`)"""
    W = z3.Function('word_of!%d' % w.id, INT, INT)
    j = z3.Int('jq')
    last = j == to_z3(w.get(W(j) + 1)) - 1
    if upto is not None:
        last = z3.And(last, W(j) < upto)
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < to_z3(p.n)), to_z3(res.get(j)) == z3.If(last, to_z3(I.cat(p.get(j), END)), to_z3(p.get(j)))),
                     patterns=[to_z3(p.get(j))])


def add_cands(I, p, w):
    def cands(v):
        r = []
        for n, c, _ in v.seqs():
            try:
                r.append(('%s length' % n, to_z3(c.n) == to_z3(p.n)))
                r.append(('%s suffixed so far' % n, suffixed(I, c, p, w, v.k)))
            except Unsupported:
                pass
        return r
    I.loop_cands.append(cands)


def t_insert(I):
    prep, meta = words(I)
    p, w = prep._c, meta.fields['word_boundaries']._c
    t = meta.fields['token_types']._c
    add_cands(I, p, w)
    res = I.call(I.fn(M + ':insert_and_word_tokens'), [prep, meta], {})
    r = as_seq(res)
    I.ensure('no token is added or removed', to_z3(r.n) == to_z3(p.n))
    I.ensure('the suffix is on the last subtoken of each word and nowhere else', suffixed(I, r, p, w))
    I.ensure('the metadata still holds the boundaries', eq_all(meta.fields['word_boundaries'], w))
    I.ensure('the metadata still holds the types', eq_all(meta.fields['token_types'], t))


class ToReprList(Contract):
    """to_repr_list: some tokens with metadata fitting them (established by C04)"""
    qual = CORE + ':to_repr_list'

    def __init__(self):
        self.out = []
        self.args = []

    def apply(self, I, b):
        prep, meta = words(I)
        self.args.append((b['token_list'], b['repr_config']))
        self.out.append((prep._c, meta.fields['word_boundaries']._c, meta.fields['token_types']._c))
        return (prep, meta)


def t_to_repr(bpe):
    def run(I):
        k = ToReprList()
        I.contracts[k.qual] = k
        split = I.fresh(SStr, 'split')
        bpes, others = list('456789'), list('0F123s')
        I.assume(z_bool(z_or(*[eqv(split, v) for v in (bpes if bpe else others)])))

        made = []

        class GRC(Contract):
            qual = 'codeprep.prepconfig:PrepConfig.get_repr_config'

            def apply(self, I, b):
                made.append((b['self'], b['bpe_data'], I.fresh(SOpaque(z3.DeclareSort('ReprConfig')), 'rc')))
                return made[-1][2]
        I.contracts[GRC.qual] = GRC()
        PP = I.fn('codeprep.prepconfig:PrepParam')
        vals = {n: (split if n == 'SPLIT' else I.fresh(SStr, n)) for n in ('EN_ONLY', 'COM', 'STR', 'SPLIT', 'TABS_NEWLINES', 'CASE')}
        pc = ObjV(I.fn('codeprep.prepconfig:PrepConfig'), {'params': DictV(Map(items={I.getattr(PP, n): v for n, v in vals.items()}))})

        # the contract of insert_and_word_tokens is proved by the other target; here its invariant is found again
        def cands(v):
            if not k.out:
                return []
            p, w, _ = k.out[-1]
            saved, I.loop_cands = I.loop_cands, []
            add_cands(I, p, w)
            f = I.loop_cands[0]
            I.loop_cands = saved
            return f(v)
        I.loop_cands.append(cands)
        toks = fresh_list(I, STok, 'tokens')
        given = I.branch(I.fresh(SBool, 'bpe data given'))
        bd = I.fresh(SOpaque(BPE), 'bpe_data') if given else None
        glob = I.fresh(SOpaque(BPE), 'global_bpe_data')

        class Glob(Contract):
            """the merges of the process, if any"""
            qual = M + ':get_global_bpe_data_if_available'

            def apply(self, I, b):
                return glob
        I.contracts[Glob.qual] = Glob()
        I.natives['$truth'] = lambda I, a, k: True
        res, meta = I.call(I.fn(M + ':to_repr'), [pc, toks, bd], {})
        p, w, t = k.out[-1]
        r = as_seq(res)
        I.ensure('represented once', len(k.out) == 1 and len(made) == 1)
        tl, rc = k.args[0]
        I.ensure('the tokens given are represented', tl is toks)
        I.ensure('under the given configuration', made[0][0] is pc and rc is made[0][2])
        I.ensure('with the given merges, else those of the process', eqv(made[0][1], bd if given else glob))
        I.ensure('no token is added or removed', to_z3(r.n) == to_z3(p.n))
        if bpe:
            I.ensure('the suffix is on the last subtoken of each word and nowhere else', suffixed(I, r, p, w))
        else:
            I.ensure('no suffix is added', eq_all(r, p))
        I.ensure('the metadata are those of the tokens', z3.And(eq_all(meta.fields['word_boundaries'], w), eq_all(meta.fields['token_types'], t)))
    return run


TARGETS = [
    Target('insert', 'C05', ['pipeline.to_repr.insert_and_word_tokens'], t_insert, str_mode='atom'),
    Target('to_repr-bpe', 'C05', ['pipeline.to_repr.to_repr', 'prepconfig.PrepConfig.is_bpe'], t_to_repr(True), str_mode='atom'),
    Target('to_repr-other', 'C05', ['pipeline.to_repr.to_repr', 'prepconfig.PrepConfig.is_bpe'], t_to_repr(False), str_mode='atom'),
]

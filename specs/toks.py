"""Model of parsed tokens shared by the specifications of the representation layer (C04, C05, C07, C08).

Nested tokens are opaque values of sort Tok; what is known of them is the contract of `torepr`, which every concrete
token class is verified against.  Structural induction over tokens (tokens are finite trees) is the only step outside the
verifier.
"""
from specs.lib import *

TOK = z3.DeclareSort('Tok')
STok = SOpaque(TOK)
CORE = 'codeprep.preprocess.core'
META = 'codeprep.preprocess.metadata:PreprocessingMetadata'
tok_cls = z3.Function('tok_cls', TOK, CLS)


def install_tok(I):
    st = z3.Function('tok_str', TOK, cur_str().sort)
    sub = z3.Function('tok_isa', TOK, CLS, BOOL)
    I.natives['$type'] = lambda I, a, k: tok_cls(a[0])
    I.natives['$str'] = lambda I, a, k: st(a[0]) if a[0].sort() == TOK else None
    I.natives['$isinstance'] = lambda I, a, k: sub(a[0], to_z3(a[1]))
    return st, sub


def meta_obj(I, name, idxs=(), heap=True):
    idxs = list(idxs)
    f = lambda sh, n: V._fresh(sh, name + n, idxs, True)     # noqa
    m = ObjV(I.fn(META), {'nonprocessable_tokens': SetV(f(SSet(SStr), '.np')), 'word_boundaries': ListV(f(SList(SInt), '.wb')),
                          'token_types': ListV(f(SList(SOpaque(CLS)), '.tt'))})
    I.flush_axioms()
    return m


def valid_meta(n, m, get=None):
    """the stated relation between tokens (n of them) and metadata, as a list of (name, term)"""
    wb, tt = as_seq(m.fields['word_boundaries']), as_seq(m.fields['token_types'])
    a, b = z3.Ints('a b')
    wn = to_z3(wb.n)
    return [('boundaries are not empty', wn >= 1),
            ('boundaries start with 0', to_z3(wb.get(0)) == 0),
            ('boundaries end with the number of tokens', to_z3(wb.get(simp(wn - 1))) == to_z3(n)),
            ('boundaries strictly increase', strictly(wb)),
            ('one token type per word', to_z3(tt.n) == wn - 1)]


def strictly(wb):
    if wb.items is not None:
        return z_and(*[to_z3(x) < to_z3(y) for x, y in zip(wb.items, wb.items[1:])])
    return forall_int(lambda j: to_z3(wb.get(simp(to_z3(j) - 1))) < to_z3(wb.get(j)), 1, wb.n)


class ToRepr(Contract):
    """torepr(t, rc) for opaque tokens and lists of tokens: a deterministic function of the token (or of the list's
    content) and the representation configuration, with whatever `post` states about result and metadata"""
    qual = CORE + ':torepr'

    def __init__(self, post=None, tag=None, lists=True):
        self.post, self.tag, self.lists = post, tag or (lambda I, rc: getattr(rc, 'uid', 'none')), lists

    def applies(self, I, b):
        t = b['token']
        if is_term(t):
            return True
        return self.lists and isinstance(t, ListV) and I.concrete(t._c) is None

    def apply(self, I, b):
        t, rc = b['token'], b['repr_config']
        tag = self.tag(I, rc)
        if is_term(t):
            nm, ix = 'torepr%s' % tag, [t]
        else:
            nm, ix = 'torepr%s#%d' % (tag, t._c.id), []
        toks = ListV(V._fresh(SList(SStr), nm + '.t', ix, True))
        m = meta_obj(I, nm + '.m', ix)
        I.flush_axioms()
        if self.post:
            for c in self.post(I, t, rc, toks._c, m):
                I.assume(z_bool(c))
        return (toks, m)


def repr_config(I, types, bpe=None, lower=False, full=False, maxlen=None, number_splitter=None, word_splitter=None):
    """a ReprConfig as the real constructor builds it"""
    return I.call(I.fn('codeprep.preprocess.reprconfig:ReprConfig'),
                  [types if isinstance(types, ListV) else ListV(Seq(items=list(types))), bpe, lower, number_splitter, word_splitter, full,
                   maxlen if maxlen is not None else 2 ** 63 - 1], {})


def split_fn(I, name, post=None):
    """an arbitrary splitter: a fixed list of strings per (text, data)"""
    def fn(I, a, k):
        s = to_z3(a[0])
        r = ListV(V._fresh(SList(SStr), name, [s], True))
        I.flush_axioms()
        if post:
            I.assume(*[z_bool(c) for c in post(s, r._c)])
        return r
    return NativeFn(name, fn)


BPE = z3.DeclareSort('BpeData')


class PureStr(Contract):
    """a function of strings whose value only depends on its arguments (contract: see the property named)"""

    def __init__(self, qual, *params):
        self.qual, self.params = qual, params

    def apply(self, I, b):
        srt = cur_str().sort
        f = z3.Function('fn!' + self.qual.split(':')[1], *([srt] * (len(self.params) + 1)))
        return f(*[to_z3(b[p]) for p in self.params])


def noneng_contract(I):
    c = PureStr('codeprep.noneng:replace_non_ascii_seqs', 'word', 'placeholder')
    I.contracts[c.qual] = c

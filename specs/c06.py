"""C06 Subword splitting and case encoding are reversible.

   word         Word.from_ of any text that is not empty is a word that prints as the text
   case         what is emitted for it under lower-casing, [marker] + pieces of the form, determines the text; without lower-casing the text itself is split
   underscore   prints as '_'
   identifier   split_identifier: the subtokens together are the identifier, and it is represented by just that where split containers are not split
   no-split     the configurations without splitting"""
from specs.lib import *
from specs import c04
from specs.c23 import alternatives, parse_rx, SC
from specs.toks import *

TK = 'codeprep.tokens.'
SUB = 'codeprep.parse.subtokens'
CAP, CAPS = '<Cap>', '<CAPS>'


def F(name, sort=None):
    s = cur_str().sort
    return z3.Function('str.' + name, s, s if sort is None else sort)


def unicode_laws(I, s):
    """of str.lower, upper, isupper and islower (cross-checked by the witness over every code point)"""
    lower, upper, up, low = F('lower'), F('upper'), F('isupper', BOOL), F('islower', BOOL)
    L, at = z3.Length, lambda x, i: z3.SubString(x, i, 1)         # noqa
    s0 = at(s, 0)
    rest = z3.SubString(s, 1, L(s) - 1)
    ls, l0 = lower(s), lower(s0)
    I.assume(s == z3.Concat(s0, rest))
    for x in (s, s0, ls, l0):
        I.assume(z3.Not(z3.And(low(x), up(x))), lower(lower(x)) == lower(x), L(upper(x)) >= L(x), z3.Implies(L(x) > 0, L(lower(x)) > 0),
                 z3.Implies(z3.And(L(x) > 0, low(x)), z3.Not(up(at(x, 0)))), lower(at(lower(x), 0)) == at(lower(x), 0))
    # a capital whose lower-case form is another letter: that one is a lower-case letter; a text with a lower-case letter is not upper-case
    I.assume(z3.Implies(z3.And(up(s0), l0 != s0, upper(l0) == s0), z3.And(low(l0), z3.Not(up(z3.Concat(l0, rest))))))


def from_(I, s):
    return I.outcome(I.getattr(I.fn(TK + 'word:Word'), 'from_'), [s], {})


def some_text(I):
    s = I.fresh(SStr, 'text')
    I.assume(z3.Length(s) > 0)
    unicode_laws(I, s)
    return s


def t_from(I):
    s = some_text(I)
    out = from_(I, s)
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    I.ensure('prints as the text', eqv(I.natives['builtins.str'](I, [out[1]], {}), s))


def t_empty(I):
    out = from_(I, '')
    I.ensure('an empty text is refused', exc_is(out, 'ValueError'))


def t_case(I):
    s = some_text(I)
    out = from_(I, s)
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    asked = []
    sp = split_fn(I, 'split', lambda x, c: [c.n >= 1])

    def split(I, a, k):
        r = sp.fn(I, a, k)
        asked.append((to_z3(a[0]), r._c))
        return r
    low = I.branch(I.fresh(SBool, 'lower'))
    rc = repr_config(I, [], None, low, False, None, None, NativeFn('split', split))
    got = I.outcome(I.getattr(out[1], 'preprocessed_repr'), [rc], {})
    I.ensure('represented', got[0] == 'ok')
    if got[0] != 'ok':
        return
    r = as_seq(I.unpack(got[1], 2, [False] * 2)[0])
    I.ensure('split once', len(asked) == 1)
    if len(asked) != 1:
        return
    form, ps = asked[0]

    def is_(prefix):
        k = len(prefix)
        return z3.And(to_z3(r.n) == to_z3(ps.n) + k, *([to_z3(r.get(i)) == z3.StringVal(x) for i, x in enumerate(prefix)]
                                                       + [forall_int(lambda j: to_z3(r.get(simp(to_z3(j) + k))) == to_z3(ps.get(j)), 0, ps.n)]))
    if not low:
        I.ensure('the text itself is split', form == s)
        I.ensure('nothing is added', is_([]))
        return
    upper = F('upper')
    first = z3.Concat(upper(z3.SubString(form, 0, 1)), z3.SubString(form, 1, z3.Length(form) - 1))
    I.ensure('form and marker determine the text', z3.Or(z3.And(is_([]), form == s), z3.And(is_([CAP]), first == s), z3.And(is_([CAPS]), upper(form) == s)))
    lw = F('lower')
    I.ensure('a marked form is lower-case where the text was not', z3.Implies(z3.Not(is_([])), z3.Or(form == lw(s), form == z3.Concat(
        lw(z3.SubString(s, 0, 1)), z3.SubString(s, 1, z3.Length(s) - 1)))))


def t_underscore(I):
    u = I.call(I.fn(TK + 'word:Underscore'), [], {})
    I.ensure('prints as _', eqv(I.natives['builtins.str'](I, [u], {}), '_'))
    rc = repr_config(I, [], None, I.branch(I.fresh(SBool, 'lower')), False, None, None, None)
    r = as_seq(I.unpack(I.call(I.fn(CORE + ':torepr'), [u, rc], {}), 2, [False] * 2)[0])
    I.ensure('is represented as _', eq_all(r, Seq(items=['_'])))


def t_plain_word(I):
    """torepr of a word that is not to be split is its text"""
    s = some_text(I)
    out = from_(I, s)
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    rc = repr_config(I, [], None, I.branch(I.fresh(SBool, 'lower')), False, None, None, None) if I.branch(I.fresh(SBool, 'config')) else None
    r = as_seq(I.unpack(I.call(I.fn(CORE + ':torepr'), [out[1], rc], {}), 2, [False] * 2)[0])
    I.ensure('one piece', to_z3(r.n) == 1)
    I.ensure('the text', eqv(r.get(0), s))


def covering(p):
    """one of the alternatives is any character but a space: what a search with the pattern leaves out are spaces"""
    for x in alternatives(p):
        if len(x) == 1 and (x[0] == (SC.NOT_LITERAL, 32) or x[0][0] is SC.IN and list(x[0][1]) == [(SC.NEGATE, None), (SC.LITERAL, 32)]):
            return True
    return False


def t_identifier(I):
    st, sub = install_tok(I)
    S = cur_str().sort
    txt = lambda x: st(x)        # noqa

    class From(Contract):
        """(target word)"""
        qual = TK + 'word:Word.from_'

        def apply(self, I, b):
            I.require('a text that is not empty', to_z3(cur_str().length(to_z3(b['s']))) > 0)
            t = z3.Function('word_of', S, TOK)(to_z3(b['s']))
            I.assume(st(t) == to_z3(b['s']))
            return t
    I.contracts[From.qual] = From()

    def underscore(I, a, k):
        t = z3.Const('underscore', TOK)
        I.assume(st(t) == to_z3('_'))
        return t
    I.natives['new:' + I.fn(TK + 'word:Underscore').qualname] = underscore
    w = I.fresh(SStr, 'identifier')
    I.assume(z_bool(V_nosp(I, w)), to_z3(cur_str().length(w)) > 0)
    found = z3.Function('match_of', S, z3.DeclareSort('Match'))
    parts = {}

    def finditer(I, a, k):
        if not covering(parse_rx(a[0])):
            raise Unsupported('pattern that may leave out parts of an identifier')
        I.ensure('the identifier is split', eqv(a[1], w))
        n, g = z3.Int('find.n'), z3.Function('find.e', INT, S)
        j = z3.Int('jm')
        I.assume(n >= 1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), cur_str().length(g(j)) > 0), patterns=[g(j)]))
        I.trusted.add('regex: the matches of a pattern that matches any character but a space are, together, the text without spaces')
        parts['seq'] = Seq(n=n, get=lambda i: g(to_z3(i)))
        return CellV('seqview', seq=Seq(n=n, get=lambda i: found(g(to_z3(i)))))
    I.natives['regex.finditer'] = finditer
    I.natives['$getitem:Match'] = lambda I, a, k: a[0].arg(0) if a[0].decl().name() == 'match_of' else z3.Function('match_text', a[0].sort(), S)(a[0])
    g = z3.Function('find.e', INT, S)

    def cands(v):
        r = []
        for nm, c, _ in v.seqs():
            try:
                e = c.get(0) if c.items != [] else None
            except (Unsupported, IndexError):
                continue
            if c.items == []:
                r += [('%s matches' % nm, True), ('%s tokens' % nm, True)]
            elif is_str(e):
                r.append(('%s matches' % nm, forall_int(lambda i: to_z3(c.get(i)) == g(to_z3(i)), 0, c.n)))
            elif is_term(e) and e.sort() == TOK:
                r.append(('%s tokens' % nm, forall_int(lambda i: st(to_z3(c.get(i))) == g(to_z3(i)), 0, c.n)))
        return r
    I.loop_cands.append(cands)
    out = I.outcome(I.fn(SUB + ':split_identifier'), [w], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok' or 'seq' not in parts:
        return
    t = out[1]
    while isinstance(t, ObjV) and 'processable_token' in t.fields:
        t = t.fields['processable_token']
    I.ensure('a split container', isinstance(t, ObjV) and t.cls is I.fn(TK + 'containers:SplitContainer'))
    sub = as_seq(t.fields['subtokens'])
    ps = parts['seq']
    I.ensure('a subtoken for every part', to_z3(sub.n) == to_z3(ps.n))
    I.ensure('that prints as the part', forall_int(lambda j: st(to_z3(sub.get(j))) == to_z3(ps.get(j)), 0, ps.n))


class Parts(Contract):
    """torepr of a subtoken that is not to be represented: its text (word, plain-word, underscore)"""
    qual = CORE + ':torepr'

    def __init__(self, st):
        self.st = st

    def applies(self, I, b):
        return is_term(b['token'])

    def apply(self, I, b):
        t = b['token']
        return (ListV(Seq(items=[self.st(t)])), meta_obj(I, 'parts', [t]))


def t_container(how):
    """a split container of any subtokens, not represented: one token, the subtokens' texts together; the same when printed"""
    def run(I):
        from pyvc.loops import join_term
        st, sub = install_tok(I)
        k = Parts(st)
        I.contracts[k.qual] = k
        noneng_contract(I)
        subs = fresh_list(I, STok, 'subtokens')
        c = I.fn(TK + 'containers:SplitContainer')
        t = I.call(c, [subs], {})
        want = join_term(I, '', Seq(n=subs._c.n, get=lambda j: st(to_z3(subs._c.get(j)))))
        if how == 'printed':
            I.ensure('prints as the subtokens together', eqv(I.natives['builtins.str'](I, [t], {}), want))
            return
        types = [I.fn(TK + q) for q in ('numeric:Number', 'containers:OneLineComment', 'containers:MultilineComment', 'containers:StringLiteral')]
        bpe = None
        rc = repr_config(I, types, bpe, False, I.branch(I.fresh(SBool, 'full')), fresh_int(I, 'limit', 2), None, None)
        if how == 'non-eng':
            t = I.call(I.fn(TK + 'noneng:NonEng'), [t], {})
        out = I.outcome(I.fn(CORE + ':torepr'), [t, rc], {})
        I.ensure('no error', out[0] == 'ok')
        if out[0] != 'ok':
            return
        r = as_seq(I.unpack(out[1], 2, [False] * 2)[0])
        I.ensure('one token', to_z3(r.n) == 1)
        I.ensure('the subtokens together', eqv(r.get(0), want))
    return run


def t_no_split(I):
    """without splitting neither split containers nor words are represented, so that an identifier is one token, its text"""
    from specs import c09
    vals, d = c09.params(I, 'p')
    I.assume(c09.valid(vals), z3.Or(vals['SPLIT'] == '0', vals['SPLIT'] == 'F'))
    c = ObjV(I.fn(c09.PC + ':PrepConfig'), {'params': d})
    out = I.outcome(I.getattr(c, 'get_types_to_be_repr'), [], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    r = as_seq(out[1])
    for q in ('containers:SplitContainer', 'word:Word', 'numeric:Number'):
        I.ensure('%s is not represented' % q.split(':')[1], not any(x is I.fn(TK + q) for x in I.concrete(r)))


def V_nosp(I, s):
    from pyvc.loops import no_sep
    return no_sep(I, s, ' ')


TARGETS = [
    Target('word', 'C06', ['tokens.word.Word.from_', 'tokens.word.Word.__init__', 'tokens.word.Word.__str__'], t_from),
    Target('empty', 'C06', ['tokens.word.Word.from_'], t_empty),
    Target('case', 'C06', ['tokens.word.Word.from_', 'tokens.word.Word.preprocessed_repr'], t_case),
    Target('plain-word', 'C06', ['preprocess.core.torepr', 'tokens.word.Word.non_preprocessed_repr'], t_plain_word),
    Target('underscore', 'C06', ['tokens.word.Underscore'], t_underscore),
    Target('identifier', 'C06', ['parse.subtokens.split_identifier'], t_identifier, str_mode='atom'),
    Target('container', 'C06', ['tokens.containers.SplitContainer.non_preprocessed_repr', 'preprocess.core.torepr'], t_container('torepr'), str_mode='atom'),
    Target('printed', 'C06', ['tokens.containers.SplitContainer.non_preprocessed_repr', 'tokens.containers.ProcessableTokenContainer.__str__'],
           t_container('printed'), str_mode='atom'),
    Target('non-eng', 'C06', ['tokens.noneng.NonEng.non_preprocessed_repr'], t_container('non-eng'), str_mode='atom'),
    Target('no-split', 'C06', ['prepconfig.PrepConfig.get_types_to_be_repr'], t_no_split),
]

"""C04 Word boundaries and token types always fit the token list.

torepr is verified class by class of the token against one contract (`post` below), which is assumed for nested tokens; to_repr_list against it for
lists of tokens of any length."""
from specs.lib import *
from specs.toks import *

TK = 'codeprep.tokens.'
SUBT = TK + 'rootclasses:ParsedSubtoken'


def fits(n, m):
    """metadata m fits n tokens"""
    return [c for _, c in valid_meta(n, m)]


def mono(m):
    """strict monotonicity in the form convenient to use"""
    w = as_seq(m.fields['word_boundaries'])
    a, b = z3.Ints('a b')
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < to_z3(w.n)), to_z3(w.get(a)) < to_z3(w.get(b))))


def post(I, t, rc, toks, m):
    """the contract of torepr: full tokens come with fitting metadata; subtokens are a non-empty part of a word without words of their own"""
    n = to_z3(toks.n)
    w, tt = as_seq(m.fields['word_boundaries']), as_seq(m.fields['token_types'])
    sub = z3.And(n >= 1, to_z3(w.n) == 1, to_z3(w.get(0)) == 0, to_z3(tt.n) == 0)
    full = z3.And(*[z_bool(c) for c in fits(n, m)])
    if isinstance(t, ListV):
        return [full]
    return [z3.If(is_sub(I, t), sub, full)]


def is_sub(I, t):
    return z3.Function('tok_isa', TOK, CLS, BOOL)(t, to_z3(I.fn(SUBT)))


def setup(I):
    st, sub = install_tok(I)
    k = ToRepr(post=post, tag=lambda I, rc: 'rc')
    I.contracts[k.qual] = k
    noneng_contract(I)
    I.natives['$truth'] = lambda I, a, k: True
    return st


def config(I, *own):
    """any configuration: the given classes are among those to be represented or not (the others only matter for nested tokens)"""
    types = []
    for q in own:
        c = I.fn(TK + q)
        if c not in types and I.branch(I.fresh(SBool, 'represents ' + q)):
            types.append(c)
    bpe = I.fresh(SOpaque(BPE), 'bpe') if I.branch(I.fresh(SBool, 'with_bpe')) else None
    some = lambda s, c: [c.n >= 1]        # noqa
    return repr_config(I, types, bpe, I.branch(I.fresh(SBool, 'lower')), I.branch(I.fresh(SBool, 'full')), fresh_int(I, 'limit', 2),
                       split_fn(I, 'number_split', some), split_fn(I, 'word_split', some))


def subtokens(I, full):
    """nested tokens: full tokens, or subtokens of one"""
    s = fresh_list(I, STok, 'subtokens')
    j = z3.Int('jt')
    c = is_sub(I, s._c.get(j))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s._c.n), z3.Not(c) if full else c)))
    return s


def check(I, out, cls=None, sub=False, only=None):
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return None
    toks, m = I.unpack(out[1], 2, [False] * 2)
    I.ensure('a list of tokens', isinstance(toks, ListV))
    t = as_seq(toks)
    w, tt = as_seq(m.fields['word_boundaries']), as_seq(m.fields['token_types'])
    if sub:
        I.ensure('part of a word', to_z3(t.n) >= 1)
        I.ensure('no words of its own', z_and(to_z3(w.n) == 1, eqv(w.get(0), 0), to_z3(tt.n) == 0))
        return t, w, tt
    for nm, c in valid_meta(t.n, m):
        I.ensure(nm, c)
    if cls is not None:
        I.ensure('every word has the type of the %s' % cls.name, forall_int(lambda j: eqv(tt.get(j), cls), 0, tt.n))
    return t, w, tt


def t_leaf(q, args, sub=False, own=()):
    def run(I):
        setup(I)
        rc = config(I, *[x for x in (q,) + own if x in KINDS])
        c = I.fn(TK + q)
        t = I.call(c, args(I), {})
        r = check(I, I.outcome(I.fn(CORE + ':torepr'), [t, rc], {}), sub=sub)
        if r is not None and not sub:
            I.ensure('at most one word, of its own type', z_and(to_z3(r[2].n) <= 1, forall_int(lambda j: eqv(r[2].get(j), c), 0, r[2].n)))
    return run


def t_split_container(I):
    setup(I)
    rc = config(I, 'containers:SplitContainer', 'word:Word')
    subs = subtokens(I, False)

    def cands(v):
        r = []
        for nm, c, _ in v.seqs():
            r.append(('%s not empty' % nm, to_z3(c.n) >= 1))
        return r
    I.loop_cands.append(cands)
    c = I.fn(TK + 'containers:SplitContainer')
    t = I.call(c, [subs], {})
    r = check(I, I.outcome(I.fn(CORE + ':torepr'), [t, rc], {}))
    if r is not None:
        I.ensure('one word, a split container', z_and(to_z3(r[2].n) == 1, eqv(r[2].get(0), c)))


class From(Contract):
    """Word.from_ (C06): a word for any text that is not empty"""
    qual = TK + 'word:Word.from_'

    def apply(self, I, b):
        s = b['s']
        I.guard(to_z3(cur_str().length(to_z3(s))) > 0, 'ValueError', 'empty')
        return word(I)


def word(I):
    c = I.fn(TK + 'word:Word')
    s = I.fresh(SStr, 'form')
    I.assume(to_z3(cur_str().length(to_z3(s))) > 0)
    caps = I.getattr(c, 'Capitalization')
    cap = next((x for x in ('UNDEFINED', 'NONE', 'FIRST_LETTER') if I.branch(I.fresh(SBool, x))), 'ALL')
    return ObjV(c, {'canonic_form': s, 'capitalization': I.getattr(caps, cap)})


class Replace(PureStr):
    """replace_non_ascii_seqs (C19): of a text that is not empty, one that is not empty"""

    def apply(self, I, b):
        r = super().apply(I, b)
        I.assume(cur_str().length(r) > 0)
        return r


def t_noneng(I):
    setup(I)
    I.contracts[From.qual] = From()
    c = Replace('codeprep.noneng:replace_non_ascii_seqs', 'word', 'placeholder')
    I.contracts[c.qual] = c
    rc = config(I, 'noneng:NonEng', 'containers:SplitContainer', 'word:Word')
    sp = I.call(I.fn(TK + 'containers:SplitContainer'), [subtokens(I, False)], {})
    t = I.call(I.fn(TK + 'noneng:NonEng'), [sp], {})

    def cands(v):
        return [('%s not empty' % nm, to_z3(c.n) >= 1) for nm, c, _ in v.seqs()]
    I.loop_cands.append(cands)
    check(I, I.outcome(I.fn(CORE + ':torepr'), [t, rc], {}))


def t_text(q):
    def run(I):
        setup(I)
        rc = config(I, q, 'noneng:NonEng')
        subs = subtokens(I, True)
        c = I.fn(TK + q)
        args = [subs] + ([fresh_int(I, 'length', 2)] if 'String' in q else [])
        t = ObjV(c, {'subtokens': subs, 'length': args[-1]} if len(args) > 1 else {'subtokens': subs})
        check(I, I.outcome(I.fn(CORE + ':torepr'), [t, rc], {}), cls=c)
    return run




def t_list(I):
    setup(I)
    rc = I.fresh(SOpaque(z3.DeclareSort('ReprConfig')), 'rc')
    ts = subtokens(I, True)

    def cands(v):
        r = []
        seqs = list(v.seqs())
        if v.seq is not None:
            # boundaries appended so far: those iterated over, shifted
            for nm, c, e in seqs:
                try:
                    if e is None or not is_int(c.get(0) if c.items is None else c.items[0]) or not is_int(v.seq.get(v.k)):
                        continue
                except (Unsupported, IndexError):
                    continue
                for nm2, b in v.env_ints():
                    r.append(('%s shifted by %s' % (nm, nm2), forall_int(lambda j: to_z3(c.get(j)) == to_z3(b) + to_z3(v.seq.get(simp(to_z3(j) - to_z3(e.n)))),
                                                                         e.n, c.n)))
        for nm, c, _ in seqs:
            try:
                e = c.get(z3.IntVal(0)) if c.items is None else (c.items[0] if c.items else None)
            except Unsupported:
                continue
            if e is not None and not is_int(e):
                continue
            if c.items == []:
                continue
            n = to_z3(c.n)
            r.append(('%s not empty' % nm, n >= 1))
            r.append(('%s from 0' % nm, to_z3(c.get(0)) == 0))
            r.append(('%s increases' % nm, strictly(c)))
            r.append(('%s last not negative' % nm, to_z3(c.get(simp(n - 1))) >= 0))
            for nm2, c2, _ in seqs:
                if c2 is c:
                    continue
                r.append(('%s ends with len %s' % (nm, nm2), to_z3(c.get(simp(n - 1))) == to_z3(c2.n)))
                r.append(('%s one more than %s' % (nm, nm2), n == to_z3(c2.n) + 1))
        return r
    I.loop_cands.append(cands)
    check(I, I.outcome(I.fn(CORE + ':to_repr_list'), [ts, rc], {}))


TXT = lambda I: [I.fresh(SStr, 'text')]      # noqa


def t_word(I):
    setup(I)
    rc = config(I, 'word:Word')
    t = word(I)
    check(I, I.outcome(I.fn(CORE + ':torepr'), [t, rc], {}), sub=True)


KINDS = ['containers:SplitContainer', 'word:Word', 'numeric:Number', 'containers:OneLineComment', 'containers:MultilineComment', 'containers:StringLiteral',
         'noneng:NonEng', 'whitespace:NewLine', 'whitespace:Tab']


def t_kinds(I):
    """only tokens that can be represented differently are asked to be"""
    PP = I.fn('codeprep.prepconfig:PrepParam')
    vals = {n: I.fresh(SStr, n) for n in ('EN_ONLY', 'COM', 'STR', 'SPLIT', 'TABS_NEWLINES', 'CASE')}
    pc = ObjV(I.fn('codeprep.prepconfig:PrepConfig'), {'params': DictV(Map(items={I.getattr(PP, n): v for n, v in vals.items()}))})
    out = I.outcome(I.fn('codeprep.prepconfig:PrepConfig.get_types_to_be_repr'), [pc], {})
    I.ensure('no error', out[0] == 'ok')
    its = I.concrete(as_seq(out[1]))
    ok = [I.fn(TK + q) for q in KINDS]
    I.ensure('kinds of tokens with another representation', its is not None and all(any(t is k for k in ok) for t in its))


TARGETS = [
    Target('kinds', 'C04', ['prepconfig.PrepConfig.get_types_to_be_repr'], t_kinds, str_mode='atom'),
    Target('list', 'C04', ['preprocess.core.to_repr_list', 'preprocess.metadata.PreprocessingMetadata.update'], t_list, str_mode='atom'),
    Target('split-container', 'C04', ['tokens.containers.SplitContainer.preprocessed_repr', 'tokens.containers.SplitContainer.non_preprocessed_repr',
                                      'tokens.containers.wrap_in_word_boundaries_if_necessary', 'tokens.rootclasses.ParsedToken.wrap_in_metadata_for_full_word'],
           t_split_container, str_mode='atom'),
    Target('non-english', 'C04', ['tokens.noneng.NonEng.preprocessed_repr', 'tokens.noneng.NonEng.non_preprocessed_repr'], t_noneng, str_mode='atom'),
    Target('one-line-comment', 'C04', ['tokens.containers.OneLineComment.non_preprocessed_repr', 'tokens.containers.Comment.preprocessed_repr'],
           t_text('containers:OneLineComment'), str_mode='atom'),
    Target('multiline-comment', 'C04', ['tokens.containers.MultilineComment.non_preprocessed_repr', 'tokens.containers.Comment.preprocessed_repr'],
           t_text('containers:MultilineComment'), str_mode='atom'),
    Target('string-literal', 'C04', ['tokens.containers.StringLiteral.non_preprocessed_repr', 'tokens.containers.StringLiteral.preprocessed_repr'],
           t_text('containers:StringLiteral'), str_mode='atom'),
    Target('word', 'C04', ['tokens.word.Word.preprocessed_repr', 'tokens.word.Word.non_preprocessed_repr'], t_word, str_mode='atom'),
    Target('underscore', 'C04', ['tokens.word.Underscore.non_preprocessed_repr'], t_leaf('word:Underscore', lambda I: [], sub=True), str_mode='atom'),
    Target('number', 'C04', ['tokens.numeric.Number.preprocessed_repr', 'tokens.numeric.Number.non_preprocessed_repr'], t_leaf('numeric:Number', TXT), str_mode='atom'),
] + [Target(q.split(':')[1].lower(), 'C04', ['tokens.%s.non_preprocessed_repr' % q.replace(':', '.')], t_leaf(q, a, own=o), str_mode='atom') for q, a, o in [
    ('numeric:One', lambda I: [], ()), ('numeric:Zero', lambda I: [], ()), ('whitespace:NewLine', lambda I: [], ()), ('whitespace:Tab', lambda I: [], ()),
    ('whitespace:SpaceInString', lambda I: [fresh_int(I, 'n', 1)], ()), ('word:KeyWord', TXT, ()), ('word:Operator', TXT, ()), ('word:Semicolon', lambda I: [], ()),
    ('word:NonCodeChar', TXT, ()), ('word:SpecialToken', TXT, ())]]

"""C23 Preprocessing a corpus gives the same tokens as preprocessing text.

The written line is `C22.prep`'s postcondition; here also: no token contains a space (parser, then every token class, by structural induction as in C04), so the
line splits back into the tokens; and the library function for text represents the same tokens under the same configuration."""
import re._parser as sre
import re._constants as SC
from specs.lib import *
from specs.toks import *
from specs import c04, c05, c22
from pyvc import loops, fs

TK = 'codeprep.tokens.'
MATCH = 'codeprep.parse.matchers'
SUB = 'codeprep.parse.subtokens'


def nosp(I, x):
    return z_bool(loops.no_sep(I, x, ' '))


def all_nosp(I, seq):
    if seq.items is not None:
        return z_and(*[nosp(I, x) for x in seq.items])
    return forall_int(lambda j: nosp(I, seq.get(j)), 0, seq.n)


def space_axioms(I):
    A = cur_str().sort
    s = z3.Const('s!', A)
    i, j = z3.Ints('i! j!')
    con = lambda x: z3.Function('acontains', A, A, BOOL)(x, to_z3(' '))     # noqa
    ch = z3.Function('achar', A, INT, A)
    I.assume(z3.ForAll([s, i], z3.Implies(z3.Not(con(s)), z3.Not(con(ch(s, i)))), patterns=[ch(s, i)]))
    sub = z3.Function('asub', A, INT, INT, A)
    I.assume(z3.ForAll([s, i, j], z3.Implies(z3.Not(con(s)), z3.Not(con(sub(s, i, j)))), patterns=[sub(s, i, j)]))
    t = z3.Const('t!', A)
    sp = z3.Function('split.e', A, A, INT, A)
    I.assume(z3.ForAll([s, t, i], z3.Implies(z3.Not(con(s)), z3.Not(con(sp(s, t, i)))), patterns=[sp(s, t, i)]))
    rp = z3.Function('fn!replace_non_ascii_seqs', A, A, A)      # the contract of target `replace`
    I.assume(z3.ForAll([s], z3.Implies(z3.Not(con(s)), z3.Not(con(rp(s, to_z3('\xf7'))))), patterns=[rp(s, to_z3('\xf7'))]))
    def split(I, o, sep, mx):
        I.assume(z3.Implies(nosp(I, o), z3.Not(con(to_z3(o)))))      # (for a joined text: the lemma on joined texts)
    I.natives['$split'] = split
    I.trusted.add('a character of a text without spaces is not a space; upper and lower case map no letter to or from a space')


def post(I, t, rc, toks, m):
    r = c04.post(I, t, rc, toks, m)
    j = z3.Int('jn')
    return r + [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < to_z3(toks.n)), nosp(I, toks.get(j))), patterns=[to_z3(toks.get(j))])]


def setup(I):
    install_tok(I)
    k = ToRepr(post=post, tag=lambda I, rc: 'rc')
    I.contracts[k.qual] = k
    I.natives['$truth'] = lambda I, a, k: True
    space_axioms(I)
    t = z3.Const('t!', TOK)
    st = z3.Function('tok_str', TOK, cur_str().sort)
    I.assume(z3.ForAll([t], nosp(I, st(t)), patterns=[st(t)]))


def config(I, *own):
    def post(s, c):
        j = z3.Int('jp')
        return [c.n >= 1, z3.Implies(nosp(I, s), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.n), nosp(I, c.get(j))), patterns=[to_z3(c.get(j))]))]
    types = []
    for q in own:
        c = I.fn(TK + q)
        if c not in types and I.branch(I.fresh(SBool, 'represents ' + q)):
            types.append(c)
    bpe = I.fresh(SOpaque(BPE), 'bpe') if I.branch(I.fresh(SBool, 'with_bpe')) else None
    return repr_config(I, types, bpe, I.fresh(SBool, 'lower'), I.fresh(SBool, 'full'), fresh_int(I, 'limit', 2),
                       split_fn(I, 'number_split', post), split_fn(I, 'word_split', post))


def space_cands(I):
    def cands(v):
        r = []
        for nm, c, _ in v.seqs():
            try:
                if c.items == [] or is_str(c.items[0] if c.items else c.get(z3.Int('probe'))):
                    r.append(('%s without spaces' % nm, all_nosp(I, c)))
            except (Unsupported, IndexError, TypeError):
                pass
            r.append(('%s not empty' % nm, to_z3(c.n) >= 1))
        for nm, c, _ in v.strs():
            r.append(('%s without spaces' % nm, nosp(I, c)))
        return r
    I.loop_cands.append(cands)


def check(I, t, rc, text=True):
    out = I.outcome(I.fn(CORE + ':torepr'), [t, rc], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    toks, m = I.unpack(out[1], 2, [False] * 2)
    I.ensure('no token contains a space', all_nosp(I, as_seq(toks)))
    if text:
        s = I.natives['builtins.str'](I, [t], {})
        I.ensure('nor does its text', nosp(I, s))


def text_(I):
    s = I.fresh(SStr, 'text')
    I.assume(nosp(I, s))
    return s


def t_leaf(q, args, own=()):
    def run(I):
        setup(I)
        rc = config(I, *[x for x in (q,) + own if x in c04.KINDS])
        check(I, I.call(I.fn(TK + q), args(I), {}), rc)
    return run


def t_word(I):
    setup(I)
    rc = config(I, 'word:Word')
    t = c04.word(I)
    I.assume(nosp(I, t.fields['canonic_form']))
    check(I, t, rc)


def t_split_container(I):
    setup(I)
    space_cands(I)
    rc = config(I, 'containers:SplitContainer', 'word:Word')
    check(I, I.call(I.fn(TK + 'containers:SplitContainer'), [c04.subtokens(I, False)], {}), rc)


def t_noneng(I):
    setup(I)
    space_cands(I)
    I.contracts[From.qual] = From()
    I.contracts[Replace.qual] = Replace()
    n = Nested(post=post, tag=lambda I, rc: 'rc')
    I.contracts[n.qual] = n
    rc = config(I, 'noneng:NonEng', 'containers:SplitContainer', 'word:Word')
    sp = I.call(I.fn(TK + 'containers:SplitContainer'), [c04.subtokens(I, False)], {})
    t = I.call(I.fn(TK + 'noneng:NonEng'), [sp], {})
    check(I, t, rc)


class Nested(ToRepr):
    """also for the split container built from the word without non-ASCII letters (target split-container)"""

    def applies(self, I, b):
        return super().applies(I, b) or isinstance(b['token'], ObjV) and b['token'].cls is I.fn(TK + 'containers:SplitContainer')

    def apply(self, I, b):
        if not isinstance(b['token'], ObjV):
            return super().apply(I, b)
        for x in as_seq(b['token'].fields['subtokens']).items or []:
            I.require('made of words without spaces', nosp(I, x.fields['canonic_form']))
        return super().apply(I, dict(b, token=I.fresh(STok, 'split_container')))


class From(Contract):
    """Word.from_ (target word-from): a word without spaces for any such text that is not empty"""
    qual = TK + 'word:Word.from_'

    def apply(self, I, b):
        s = b['s']
        I.require('a text that is not empty', to_z3(cur_str().length(to_z3(s))) > 0)
        I.require('without spaces', nosp(I, s))
        t = c04.word(I)
        I.assume(nosp(I, t.fields['canonic_form']))
        return t


class Replace(PureStr):
    """replace_non_ascii_seqs (C19, target replace): no space out of none"""
    qual = 'codeprep.noneng:replace_non_ascii_seqs'

    def __init__(self):
        PureStr.__init__(self, self.qual, 'word', 'placeholder')

    def apply(self, I, b):
        I.require('the placeholder is no space', b['placeholder'] == '\xf7')
        r = super().apply(I, b)
        I.assume(cur_str().length(r) > 0)
        A = cur_str().sort
        w = to_z3(b['word'])
        I.assume(z3.Implies(nosp(I, w), z3.Not(z3.Function('acontains', A, A, BOOL)(w, to_z3(' ')))))
        return r


def t_from(I):
    setup(I)
    s = text_(I)
    out = I.outcome(I.getattr(I.fn(TK + 'word:Word'), 'from_'), [s], {})
    if out[0] == 'ok':
        I.ensure('no spaces in the form kept', nosp(I, out[1].fields['canonic_form']))


def t_replace(I):
    w = I.fresh(SStr, 'word')
    I.assume(z3.Not(z3.Contains(w, ' ')))

    def cands(v):
        # (a consequence of the assumption, spelled out for the solver)
        c = z3.SubString(w, to_z3(v.k), 1)
        I.assume(z3.Or(z3.Length(c) == 0, z3.And(z3.Length(c) == 1, c != ' ', z3.Not(z3.Contains(c, ' ')))))
        return [('%s without spaces' % n, z3.Not(z3.Contains(to_z3(c), ' '))) for n, c, _ in v.strs()]
    I.loop_cands.append(cands)
    out = I.outcome(I.fn('codeprep.noneng:replace_non_ascii_seqs'), [w, '\xf7'], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] == 'ok':
        I.ensure('no space is introduced', z3.Not(z3.Contains(to_z3(out[1]), ' ')))


def t_text(q):
    def run(I):
        setup(I)
        space_cands(I)
        I.contracts[Replace.qual] = Replace()
        rc = config(I, q, 'noneng:NonEng')
        subs = c04.subtokens(I, True)
        c = I.fn(TK + q)
        t = ObjV(c, {'subtokens': subs, 'length': fresh_int(I, 'length', 2)} if 'String' in q else {'subtokens': subs})
        check(I, t, rc, text='String' in q)
    return run


def t_list(I):
    setup(I)
    space_cands(I)
    rc = I.fresh(SOpaque(z3.DeclareSort('ReprConfig')), 'rc')
    ts = c04.subtokens(I, True)
    out = I.outcome(I.fn(CORE + ':to_repr_list'), [ts, rc], {})
    if out[0] == 'ok':
        toks, m = I.unpack(out[1], 2, [False] * 2)
        I.ensure('no token contains a space', all_nosp(I, as_seq(toks)))


# ---- parser: no token gets a space from the source ----

def may_hold_space(p):
    for op, a in p:
        if op is SC.LITERAL:
            r = a == 32
        elif op is SC.NOT_LITERAL:
            r = a != 32
        elif op is SC.ANY:
            r = True
        elif op is SC.IN:
            hit = False
            for o, x in a:
                if o is SC.LITERAL:
                    hit = hit or x == 32
                elif o is SC.RANGE:
                    hit = hit or x[0] <= 32 <= x[1]
                elif o is SC.CATEGORY:
                    if x not in (SC.CATEGORY_WORD, SC.CATEGORY_DIGIT, SC.CATEGORY_NOT_SPACE):
                        if x not in (SC.CATEGORY_SPACE, SC.CATEGORY_NOT_WORD, SC.CATEGORY_NOT_DIGIT):
                            raise Unsupported('regular expression category')
                        hit = True
            r = hit != (a[0][0] is SC.NEGATE)
        elif op in (SC.MAX_REPEAT, SC.MIN_REPEAT):
            r = may_hold_space(a[2])
        elif op is SC.SUBPATTERN:
            r = may_hold_space(a[3])
        elif op is SC.BRANCH:
            r = any(may_hold_space(x) for x in a[1])
        elif op in (SC.ASSERT, SC.ASSERT_NOT, SC.AT):
            r = False
        else:
            raise Unsupported('regular expression construct %s' % (op,))
        if r:
            return True
    return False


def parse_rx(p):
    if not isinstance(p, str):
        raise Unsupported('pattern')
    return sre.parse(p.replace('[[:upper:]]', '[A-Z]').replace('[[:lower:]]', '[a-z]'))     # (neither holds a space)


def alternatives(p):
    p = list(p)
    while len(p) == 1 and p[0][0] is SC.SUBPATTERN:
        p = list(p[0][1][3])
    if len(p) == 1 and p[0][0] is SC.BRANCH:
        return [list(x) for x in p[0][1][1]]
    return [p]


def blanks(p):
    """(lo, hi) when the pattern is a run of spaces"""
    lo = hi = 0
    for op, a in p:
        if op is SC.LITERAL and a == 32:
            lo, hi = lo + 1, hi + 1
        elif op in (SC.MAX_REPEAT, SC.MIN_REPEAT):
            b = blanks(alternatives(a[2])[0]) if len(alternatives(a[2])) == 1 else None
            if b != (1, 1):
                return None
            lo, hi = lo + a[0], SC.MAXREPEAT if a[1] is SC.MAXREPEAT else hi + a[1]
        elif op is SC.SUBPATTERN:
            b = blanks(a[3])
            if b is None:
                return None
            lo, hi = lo + b[0], hi + b[1]
        else:
            return None
    return lo, hi


def space_regex(I):
    """finditer and fullmatch as far as spaces are concerned: a match is not empty and one of the alternatives matches it"""
    A = cur_str().sort
    found = z3.Function('match_of', A, z3.DeclareSort('Match'))     # a match, known by its text
    spaces = z3.Function('all_spaces', A, BOOL)
    s = z3.Const('s!', A)
    I.assume(z3.ForAll([s], z3.Implies(spaces(s), z3.Not(nosp(I, s))), patterns=[spaces(s)]))

    def finditer(I, a, k):
        p = parse_rx(a[0])
        t = to_z3(a[1])
        n, g = z3.Function('find.n:' + a[0], A, INT)(t), z3.Function('find.e:' + a[0], A, INT, A)
        j = z3.Int('jm')
        e = g(t, j)
        cs = []
        for x in alternatives(p):
            if not may_hold_space(x):
                cs.append(nosp(I, e))
                continue
            b = blanks(x)
            if b is None or b[0] < 1:
                raise Unsupported('pattern with spaces')
            cs.append(e == to_z3(' ' * b[0]) if b[0] == b[1] else spaces(e))
        if p.getwidth()[0] < 1:
            raise Unsupported('pattern that matches nothing')
        I.assume(n >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(cur_str().length(e) > 0, z3.Or(*cs))), patterns=[e]))
        I.trusted.add('regex: what finditer finds is matched by one of the alternatives of the pattern')
        return CellV('seqview', seq=Seq(n=n, get=lambda i: found(g(t, to_z3(i)))))

    def fullmatch(I, a, k):
        p = parse_rx(a[0])
        t = to_z3(a[1])
        b = blanks(alternatives(p)[0]) if len(alternatives(p)) == 1 else None
        f = spaces(t) if b == (1, SC.MAXREPEAT) else z3.Function('full:' + a[0], A, BOOL)(t)
        if not I.branch(f):
            return None
        if not may_hold_space(p):
            I.assume(nosp(I, t))
        return found(t)
    I.natives['regex.finditer'], I.natives['regex.fullmatch'] = finditer, fullmatch

    def item(I, a, k):
        if a[1] != 0:
            raise Unsupported('group')
        m = a[0]
        return m.arg(0) if m.decl().name() == 'match_of' else z3.Function('match_text', m.sort(), A)(m)
    I.natives['$getitem:Match'] = item


MADE = ['word:Underscore', 'word:KeyWord', 'word:Operator', 'word:Semicolon', 'word:OpeningCurlyBracket', 'word:ClosingCurlyBracket', 'word:OpeningBracket',
        'word:ClosingBracket', 'word:NonCodeChar', 'numeric:Number', 'numeric:One', 'numeric:Zero', 'whitespace:NewLine', 'whitespace:Tab',
        'whitespace:SpaceInString', 'containers:SplitContainer', 'containers:OneLineComment', 'containers:MultilineComment', 'containers:StringLiteral', 'noneng:NonEng']


def constructors(I):
    """a new token is one without spaces: what its constructor is given has none (the tokens given are without spaces by the same contract)"""
    def made(q):
        def new(I, a, k):
            for x in list(a[1:] if a and isinstance(a[0], ClassV) else a) + list(k.values()):
                if is_str(x):
                    I.require('%s without spaces' % q.split(':')[1], nosp(I, x))
                elif isinstance(x, ListV):
                    its = x._c.items
                    if its is not None:
                        ok = all(is_term(y) and y.sort() == TOK for y in its)
                    else:
                        y = x._c.get(z3.Int('probe!'))
                        ok = is_term(y) and y.sort() == TOK
                    I.require('%s of tokens' % q.split(':')[1], ok)
                elif not (is_int(x) or is_term(x) and x.sort() == TOK):
                    raise Unsupported('argument %r of a token' % (x,))
            return I.fresh(STok, q.split(':')[1].lower())
        return new
    for q in MADE:
        I.natives['new:' + I.fn(TK + q).qualname] = made(q)

    class FromT(Contract):
        qual = TK + 'word:Word.from_'

        def apply(self, I, b):
            I.require('a text that is not empty', to_z3(cur_str().length(to_z3(b['s']))) > 0)
            I.require('word without spaces', nosp(I, b['s']))
            return I.fresh(STok, 'word')
    I.contracts[FromT.qual] = FromT()


def are_tokens(I, name, v):
    s = v._c if isinstance(v, ListV) else v.d['seq'] if isinstance(v, CellV) else None
    I.ensure('a list of %s' % name, s is not None)
    if s is None:
        return
    its = s.items
    if its is not None:
        I.ensure('of tokens without spaces', all(is_term(x) and x.sort() == TOK for x in its))
    else:
        x = s.get(z3.Int('probe!'))
        I.ensure('of tokens without spaces', is_term(x) and x.sort() == TOK)


def parse_setup(I):
    space_axioms(I)
    space_regex(I)
    constructors(I)


def tok_result(qual, many, pre=None):
    class C(Contract):
        """(target of the same name)"""

        def apply(self, I, b):
            if pre:
                I.require('text without spaces or only spaces', pre(I, list(b.values())[0]))
            return fresh_list(I, STok, 'tokens') if many else I.fresh(STok, 'token')
    C.qual = qual
    return C()


def use(I, *cs):
    for c in cs:
        I.contracts[c.qual] = c


def t_identifier(I):
    parse_setup(I)
    out = I.outcome(I.fn(SUB + ':split_identifier'), [I.fresh(SStr, 'token')], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] == 'ok':
        I.ensure('a token without spaces', is_term(out[1]) and out[1].sort() == TOK)


def t_parsed_token(I):
    parse_setup(I)
    use(I, tok_result(SUB + ':split_identifier', False))
    out = I.outcome(I.fn(SUB + ':to_parsed_token'), [text_(I)], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] == 'ok':
        I.ensure('a token without spaces', is_term(out[1]) and out[1].sort() == TOK)


def t_splitter(name):
    def run(I):
        parse_setup(I)
        use(I, tok_result(SUB + ':to_parsed_token', False, nosp))
        out = I.outcome(I.fn(SUB + ':' + name), [I.fresh(SStr, 'value')], {})
        I.ensure('no error', out[0] == 'ok')
        if out[0] == 'ok':
            are_tokens(I, 'tokens', out[1])
    return run


TTYPE = z3.DeclareSort('TokenType')


def pygments_types(I):
    """token types of the lexer: what type a token has is arbitrary"""
    def isin(I, a, k):
        x, c = a
        if isinstance(c, NativeV) and is_term(x) and x.sort() == TTYPE:
            return z3.Function('in:' + c.name, TTYPE, BOOL)(x)
    I.natives['$in'] = isin


def t_convert(I):
    parse_setup(I)
    pygments_types(I)
    use(I, tok_result(SUB + ':split_into_words', True), tok_result(SUB + ':split_string', True))
    out = I.outcome(I.fn('codeprep.parse.core:_convert'), [I.fresh(SOpaque(TTYPE), 'type'), I.fresh(SStr, 'value')], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] == 'ok':
        are_tokens(I, 'tokens', out[1])


def t_convert_text(I):
    parse_setup(I)
    use(I, tok_result('codeprep.parse.core:_convert', True))
    A = cur_str().sort
    lexer = I.fresh(SOpaque(z3.DeclareSort('Lexer')), 'lexer')

    def by_name(I, a, k):
        if I.branch(I.fresh(SBool, 'unknown extension')):
            I.raise_('ClassNotFound')
        return lexer
    n = fresh_int(I, 'n_lexed', 0)
    ty, va = z3.Function('lexed_type', INT, TTYPE), z3.Function('lexed', INT, A)
    I.natives['pygments.lexers.get_lexer_by_name'] = by_name
    I.natives['pygments.lexers.guess_lexer'] = lambda I, a, k: lexer
    I.natives['pygments.lex'] = lambda I, a, k: CellV('seqview', seq=Seq(n=n, get=lambda i: (ty(to_z3(i)), va(to_z3(i)))))
    out = I.outcome(client(I, 'def client(t, e):\n    return [x for x in f(t, e)]\n',
                           f=I.fn('codeprep.parse.core:convert_text')), [I.fresh(SStr, 'text'), I.fresh(SStr, 'extension')], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] == 'ok':
        are_tokens(I, 'tokens', out[1])


TR = 'codeprep.pipeline.to_repr'


class ReprList(Contract):
    """to_repr_list (target list): tokens without spaces, with metadata fitting them (C04)"""
    qual = CORE + ':to_repr_list'

    def apply(self, I, b):
        prep, m = c05.words(I)
        I.assume(all_nosp(I, prep._c))
        I.loop_cands.append(lambda v: [('%s length' % nm, to_z3(c.n) == to_z3(prep._c.n)) for nm, c, _ in v.seqs()])
        return (prep, m)


class Cfg(Contract):
    qual = 'codeprep.prepconfig:PrepConfig.get_repr_config'

    def apply(self, I, b):
        return I.fresh(SOpaque(z3.DeclareSort('ReprConfig')), 'rc')


def t_to_repr(I):
    """the suffix of words has no space"""
    space_axioms(I)
    space_cands(I)
    use(I, ReprList(), Cfg())
    PP = I.fn('codeprep.prepconfig:PrepParam')
    split = I.fresh(SStr, 'split')
    I.assume(z_bool(z_or(*[eqv(split, v) for v in '0F1234567893s'])))
    pc = ObjV(I.fn('codeprep.prepconfig:PrepConfig'), {'params': DictV(Map(items={I.getattr(PP, n): split if n == 'SPLIT' else I.fresh(SStr, n) for n in (
        'EN_ONLY', 'COM', 'STR', 'SPLIT', 'TABS_NEWLINES', 'CASE')}))})
    I.natives['$truth'] = lambda I, a, k: True
    out = I.outcome(I.fn(TR + ':to_repr'), [pc, fresh_list(I, STok, 'tokens'), I.fresh(SOpaque(BPE), 'bpe_data')], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] == 'ok':
        I.ensure('no token contains a space', all_nosp(I, as_seq(I.unpack(out[1], 2, [False] * 2)[0])))


def t_splitter_of(I):
    """the splitters of a configuration keep their contract: some subtokens, without spaces for a text without (ronin and stem: assumed)"""
    space_axioms(I)
    PP = I.fn('codeprep.prepconfig:PrepParam')
    split = I.fresh(SStr, 'split')
    I.assume(z_bool(z_or(*[eqv(split, v) for v in '0F123456789s'])))
    pc = ObjV(I.fn('codeprep.prepconfig:PrepConfig'), {'params': DictV(Map(items={I.getattr(PP, n): split if n == 'SPLIT' else I.fresh(SStr, n) for n in (
        'EN_ONLY', 'COM', 'STR', 'SPLIT', 'TABS_NEWLINES', 'CASE')}))})

    class Subwords(Contract):
        """get_bpe_subwords (C01): the subwords spell the text"""
        qual = 'codeprep.bpepkg.bpe_encode:get_bpe_subwords'

        def apply(self, I, b):
            r = fresh_list(I, SStr, 'subwords')
            I.assume(to_z3(r._c.n) >= 1, z3.Implies(nosp(I, b['word']), all_nosp(I, r._c)))
            return r
    use(I, Subwords())
    A = cur_str().sort
    I.natives['spiral.ronin.split'] = split_fn(I, 'ronin', lambda s, c: [c.n >= 1, z3.Implies(nosp(I, s), all_nosp(I, c))]).fn
    stem = z3.Function('stem', A, A)
    x = z3.Const('x!', A)
    I.assume(z3.ForAll([x], z3.Implies(nosp(I, x), z3.Not(z3.Function('acontains', A, A, BOOL)(stem(x), to_z3(' ')))), patterns=[stem(x)]))
    I.trusted.add('ronin.split gives some pieces and neither it nor the stemmer puts spaces into words')

    class Stem(Contract):
        qual = 'codeprep.stemming:stem'

        def apply(self, I, b):
            return stem(to_z3(list(b.values())[0]))
    use(I, Stem())
    s = text_(I)
    I.assume(cur_str().length(s) > 0)
    for which in ('get_word_splitter', 'get_number_splitter'):
        f = I.method(pc, which)
        if f is None:
            I.ensure('without a splitter words are not split', z_or(eqv(split, '0'), eqv(split, 'F')))
            continue
        out = I.outcome(f, [s, I.fresh(SOpaque(BPE), 'bpe')], {})
        I.ensure('no error', out[0] == 'ok')
        if out[0] == 'ok':
            r = as_seq(out[1])
            I.ensure('some subtokens', to_z3(r.n) >= 1)
            I.ensure('without spaces', all_nosp(I, r))


def t_reads_back(I):
    """what the line holds: split at spaces after unescaping it gives the tokens; it has no line break"""
    space_axioms(I)
    fs.bytes_as_text(I)
    fs.escapes(I)
    toks = fresh_list(I, SStr, 'tokens')
    I.assume(to_z3(toks._c.n) >= 1, all_nosp(I, toks._c))
    U = 'codeprep.util:'
    out = I.outcome(client(I, 'def client(toks):\n    line = to_literal_str(to_token_str(toks))\n    return line, to_non_literal_str(line).split(" ")\n',
                           to_literal_str=I.fn(U + 'to_literal_str'), to_token_str=I.fn(TR + ':to_token_str'), to_non_literal_str=I.fn(U + 'to_non_literal_str')), [toks], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] == 'ok':
        line, back = I.unpack(out[1], 2, [False] * 2)
        I.ensure('one line', z_and(*[z_bool(loops.no_sep(I, line, c)) for c in '\n\r']))
        I.ensure('the tokens are read back', eq_all(as_seq(back), toks._c))


def t_trailing(I):
    NL, W = I.fn(TK + 'whitespace:NewLine'), I.fn(TK + 'word:Word')
    for n in range(3):
        if n == 2 or I.branch(I.fresh(SBool, '%d tokens' % n)):
            break
    last = I.branch(I.fresh(SBool, 'ends with a newline'))
    its = [I.call(I.fn(TK + 'word:Semicolon'), [], {}) for _ in range(n)]
    if n and last:
        its[-1] = I.call(NL, [], {})
    out = I.outcome(I.fn('codeprep.api.text:remove_trailing_newline'), [ListV(Seq(items=list(its)))], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] == 'ok':
        r = as_seq(out[1])
        want = its[:-1] if n and last else its
        I.ensure('only a newline at the end is left out', r.items is not None and len(r.items) == len(want) and all(x is y for x, y in zip(r.items, want)))


def t_api(I):
    """codeprep.api.text.preprocess: the representation (C05) of the parsed text, without a newline at its end, then the end-of-file token when asked for"""
    text, ext, ident = I.fresh(SStr, 'text'), I.fresh(SStr, 'extension'), I.fresh(SStr, 'bpe_codes_id')
    I.assume(cur_str().length(ident) > 0)
    rec = {}
    newline = z3.Function('is_newline', TOK, BOOL)

    class Convert(Contract):
        qual = 'codeprep.parse.core:convert_text'

        def apply(self, I, b):
            r = fresh_list(I, STok, 'parsed')
            rec.setdefault('parsed', []).append((r._c, b['text'], b['extension']))
            return r

    class Trim(Contract):
        """remove_trailing_newline (target trailing)"""
        qual = 'codeprep.api.text:remove_trailing_newline'

        def apply(self, I, b):
            c = as_seq(b['prep_tokens'])
            n = to_z3(c.n)
            if I.branch(z3.And(n > 0, newline(to_z3(c.get(n - 1))))):
                rec['kept'] = ListV(V.seq_slice(c, 0, n - 1))
            else:
                rec['kept'] = b['prep_tokens']
            rec['n'] = rec['kept']._c.n
            return rec['kept']

    class Repr(Contract):
        """to_repr (C05)"""
        qual = TR + ':to_repr'

        def apply(self, I, b):
            r = (fresh_list(I, SStr, 'repr'), meta_obj(I, 'meta'))
            rec.setdefault('repr', []).append((r, b['prep_config'], b['token_list'], b['bpe_data'], len(rec.get('init', []))))
            return r

    class Init(Contract):
        qual = TR + ':init_bpe_data'

        def apply(self, I, b):
            rec.setdefault('init', []).append((b['prep_config'], b['custom_bpe_config'], b['force_reinit']))
            return None

    class IsPre(Contract):
        qual = 'codeprep.pipeline.bperegistry:is_predefined_id'

        def apply(self, I, b):
            I.require('the id given', gfs_same(b['id'], ident))
            return pre

    class FromId(Contract):
        qual = 'codeprep.pipeline.bperegistry:CustomBpeConfig.from_id'

        def apply(self, I, b):
            I.require('the id given', gfs_same(b['id_str'], ident))
            return custom

    class IsBpe(Contract):
        qual = 'codeprep.prepconfig:PrepConfig.is_bpe'

        def apply(self, I, b):
            return bpe
    use(I, Convert(), Trim(), Repr(), Init(), IsPre(), FromId(), IsBpe())
    pre, bpe = I.fresh(SBool, 'predefined'), I.branch(I.fresh(SBool, 'with_bpe'))
    custom = ObjV(I.fn('codeprep.pipeline.bperegistry:CustomBpeConfig'), {})
    pc = ObjV(I.fn('codeprep.prepconfig:PrepConfig'), {'params': DictV(Map(items={}))})
    eof, md = I.branch(I.fresh(SBool, 'append_eof')), I.branch(I.fresh(SBool, 'return_metadata'))
    force = I.fresh(SBool, 'force')
    out = I.outcome(I.fn('codeprep.api.text:preprocess'), [text, pc, ident if bpe else None, ext, md, force, eof], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    I.ensure('parsed and represented once', len(rec.get('parsed', [])) == 1 and len(rec.get('repr', [])) == 1)
    (c, t, e), (r, cf, tl, bd, inits) = rec['parsed'][0], rec['repr'][0]
    I.ensure('the text is parsed in the language given', z3.And(eqv(t, text), eqv(e, ext)))
    I.ensure('under the given configuration', cf is pc)
    I.ensure('with the merges of the process', bd is None)
    I.ensure('which are those of the id', inits == (1 if bpe else 0) and all(x[0] is pc and eqv(x[2], force) is not False for x in rec.get('init', [])))
    if bpe:
        x = rec['init'][0]
        I.ensure('the merges of the given id are loaded', pre if x[1] is None else z3.Not(pre) if x[1] is custom else False)
    tl = as_seq(tl)
    n = to_z3(c.n)
    m = rec.get('n', c.n)
    I.ensure('a newline at the end is left out', to_z3(m) == z3.If(z3.And(n > 0, newline(to_z3(c.get(n - 1)))), n - 1, n))
    I.ensure('all parsed tokens but a newline at the end', z3.And(to_z3(tl.n) == to_z3(m) + (1 if eof else 0), forall_int(lambda j: eqv(tl.get(j), c.get(j)), 0, m)))
    if eof:
        last = tl.get(m)
        I.ensure('the end of file comes last', isinstance(last, (ObjV, V.FrozenObj)) and
                 eqv(I.natives['builtins.str'](I, [ObjV(last.cls, dict(last.fields))], {}), '<EOF>'))
    if md:
        I.ensure('the tokens and their metadata', out[1] is r or (isinstance(out[1], tuple) and out[1][0] is r[0] and out[1][1] is r[1]))
    else:
        I.ensure('the tokens', out[1] is r[0])


def gfs_same(a, b):
    from pyvc import gfs
    return gfs.same(a, b)


def t_read(I):
    """a source file is read line by line, nothing but the line ends removed; as UTF-8, or else as Latin-1"""
    A = cur_str().sort
    path = I.fresh(SStr, 'path')
    there, utf8 = I.fresh(SBool, 'the file exists'), I.fresh(SBool, 'it is UTF-8')
    line, body, n = z3.Function('line', INT, A, INT, A), z3.Function('line_text', INT, A, INT, A), z3.Function('n_lines', INT, A, INT)
    I.assume(n(0, path) >= 0, n(1, path) >= 0)

    def open_(I, a, k):
        a = list(a) + [None] * 3
        mode, enc = k.get('mode', a[1] or 'r'), k.get('encoding', a[3])
        if mode not in ('r', 'rt') or set(k) - {'mode', 'encoding', 'buffering'} or not isinstance(enc, str):
            raise Unsupported('open with %s' % sorted(k))
        enc = enc.lower().replace('_', '-')
        I.guard(there, 'FileNotFoundError', a[0])
        I.require('the source file is read', eqv(a[0], path))
        if enc in ('utf-8', 'utf8'):
            I.guard(utf8, 'UnicodeDecodeError', 'utf-8')
        elif enc not in ('iso-8859-1', 'latin-1', 'latin1', 'iso8859-1'):
            raise Unsupported('encoding ' + enc)
        e = 0 if enc in ('utf-8', 'utf8') else 1
        return CellV('seqview', seq=Seq(n=n(e, path), get=lambda j: line(e, path, to_z3(j))))
    I.natives['builtins.open'] = open_
    I.natives['$enter:seqview'] = lambda I, a, k: a[0]
    I.natives['$exit:seqview'] = I.natives['$method:seqview.close'] = lambda I, a, k: None
    I.natives['$method:seqview.readlines'] = lambda I, a, k: ListV(a[0].d['seq'])

    def rstrip(I, a, k):
        o = a[0]
        if a[2:] == ['\n'] and is_term(o) and z3.is_app(o) and o.decl().name() == 'line':
            return body(*o.children())
        raise Unsupported('rstrip')
    I.natives['$override:rstrip'] = rstrip
    out = I.outcome(I.fn('codeprep.fileutils:read_file_contents'), [path], {})
    if out[0] != 'ok':
        I.ensure('only a missing file is an error', z_and(exc_is(out, 'FileNotFoundError'), z_not(there)))
        return
    c = as_seq(I.unpack(out[1], 2, [False] * 2)[0])
    e = z3.If(utf8, z3.IntVal(0), z3.IntVal(1))
    I.ensure('every line', eqv(c.n, n(e, path)))
    I.ensure('without its end', forall_int(lambda j: eqv(c.get(j), body(e, path, j)), 0, c.n))


TXT = lambda I: [text_(I)]      # noqa


TARGETS = [
    Target('list', 'C23', ['preprocess.core.to_repr_list'], t_list, str_mode='atom'),
    Target('split-container', 'C23', ['tokens.containers.SplitContainer.preprocessed_repr', 'tokens.containers.SplitContainer.non_preprocessed_repr'],
           t_split_container, str_mode='atom'),
    Target('non-english', 'C23', ['tokens.noneng.NonEng.preprocessed_repr', 'tokens.noneng.NonEng.non_preprocessed_repr'], t_noneng, str_mode='atom'),
    Target('one-line-comment', 'C23', ['tokens.containers.OneLineComment.non_preprocessed_repr', 'tokens.containers.Comment.preprocessed_repr'],
           t_text('containers:OneLineComment'), str_mode='atom'),
    Target('multiline-comment', 'C23', ['tokens.containers.MultilineComment.non_preprocessed_repr', 'tokens.containers.Comment.preprocessed_repr'],
           t_text('containers:MultilineComment'), str_mode='atom'),
    Target('string-literal', 'C23', ['tokens.containers.StringLiteral.non_preprocessed_repr', 'tokens.containers.StringLiteral.preprocessed_repr'],
           t_text('containers:StringLiteral'), str_mode='atom'),
    Target('word', 'C23', ['tokens.word.Word.preprocessed_repr', 'tokens.word.Word.non_preprocessed_repr'], t_word, str_mode='atom'),
    Target('word-from', 'C23', ['tokens.word.Word.from_'], t_from, str_mode='atom'),
    Target('identifier', 'C23', ['parse.subtokens.split_identifier'], t_identifier, str_mode='atom'),
    Target('parsed-token', 'C23', ['parse.subtokens.to_parsed_token', 'parse.subtokens.is_number'], t_parsed_token, str_mode='atom'),
    Target('words', 'C23', ['parse.subtokens.split_into_words'], t_splitter('split_into_words'), str_mode='atom'),
    Target('string', 'C23', ['parse.subtokens.split_string'], t_splitter('split_string'), str_mode='atom'),
    Target('convert', 'C23', ['parse.core._convert', 'parse.matchers'], t_convert, str_mode='atom'),
    Target('convert-text', 'C23', ['parse.core.convert_text'], t_convert_text, str_mode='atom'),
    Target('to-repr', 'C23', ['pipeline.to_repr.to_repr', 'pipeline.to_repr.insert_and_word_tokens'], t_to_repr, str_mode='atom'),
    Target('splitters', 'C23', ['prepconfig.PrepConfig.get_word_splitter', 'prepconfig.PrepConfig.get_number_splitter'], t_splitter_of, str_mode='atom'),
    Target('written', 'C23', ['pipeline.to_repr.preprocess_and_write', 'pipeline.to_repr.to_token_str', 'util.to_literal_str'], c22.t_prep, str_mode='atom'),
    Target('parsed', 'C23', ['pipeline.parse_projects.preprocess_and_write'], lambda I: c22.t_parse(I, True), str_mode='atom'),
    Target('reads-back', 'C23', ['pipeline.to_repr.to_token_str', 'util.to_literal_str', 'util.to_non_literal_str'], t_reads_back, str_mode='atom'),
    Target('trailing', 'C23', ['api.text.remove_trailing_newline'], t_trailing, str_mode='atom'),
    Target('text-api', 'C23', ['api.text.preprocess'], t_api, str_mode='atom'),
    Target('read', 'C23', ['fileutils.read_file_contents', 'fileutils.read_file_with_encoding'], t_read, str_mode='atom'),
    Target('replace', 'C23', ['noneng.replace_non_ascii_seqs'], t_replace),
] + [Target(q.split(':')[1].lower(), 'C23', ['tokens.%s.non_preprocessed_repr' % q.replace(':', '.')], t_leaf(q, a), str_mode='atom') for q, a in [
    ('word:Underscore', lambda I: []), ('numeric:Number', TXT), ('numeric:One', lambda I: []), ('numeric:Zero', lambda I: []),
    ('whitespace:NewLine', lambda I: []), ('whitespace:Tab', lambda I: []), ('whitespace:SpaceInString', lambda I: [fresh_int(I, 'n', 1)]),
    ('word:KeyWord', TXT), ('word:Operator', TXT), ('word:Semicolon', lambda I: []), ('word:NonCodeChar', TXT), ('word:SpecialToken', TXT)]]

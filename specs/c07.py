"""C07 Each placeholder option affects only its own kind of token.

   kinds        what get_types_to_be_repr asks for, and get_repr_config: every option decides on its own kinds of tokens and nothing else
   placeholder  torepr of a token of each kind asked for: its one placeholder as one word, or nothing
   other        torepr of a token of each other kind is a function of the nested tokens' representation that no option has an influence on
   text         the exception: non-ASCII content of string literals in one piece or split into BPE subwords
   list         a list is represented part by part"""
from specs.lib import *
from specs import c04, c09
from specs.c04 import word, is_sub, subtokens, TXT
from specs.toks import *

TK = 'codeprep.tokens.'
OPTIONS = {'COM': ['containers:OneLineComment', 'containers:MultilineComment'], 'STR': ['containers:StringLiteral'], 'EN_ONLY': ['noneng:NonEng'],
           'TABS_NEWLINES': ['whitespace:NewLine', 'whitespace:Tab']}
ON = {'COM': '0', 'STR': '0', 'EN_ONLY': 'U', 'TABS_NEWLINES': '0'}
SPLITTING = {'containers:SplitContainer': '123456789s', 'word:Word': '123456789s', 'numeric:Number': '23456789s'}
PRINTED = {'containers:OneLineComment': '<comment>', 'containers:MultilineComment': '<comment>', 'containers:StringLiteral': '<str-literal>',
           'noneng:NonEng': '<non-en>'}


def prep_config(I, name):
    vals, d = c09.params(I, name)
    I.assume(c09.valid(vals))
    return vals, ObjV(I.fn(c09.PC + ':PrepConfig'), {'params': d})


def t_types(I):
    vals, pc = prep_config(I, 'p')
    out = I.outcome(I.getattr(pc, 'get_types_to_be_repr'), [], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    its = I.concrete(as_seq(out[1]))
    known = {}
    for o, qs in OPTIONS.items():
        for q in qs:
            known[q] = vals[o] == ON[o]
    for q, vs in SPLITTING.items():
        known[q] = z3.Or(*[vals['SPLIT'] == v for v in vs])
    cls = {q: I.fn(TK + q) for q in known}
    for q, c in known.items():
        I.ensure('%s is represented iff the option says so' % q.split(':')[1], z_iff(any(x is cls[q] for x in its), c))
    I.ensure('nothing else is', all(any(x is c for c in cls.values()) for x in its))


class Subwords(Contract):
    """get_bpe_subwords: a function of word and BPE data (C02)"""
    qual = 'codeprep.bpepkg.bpe_encode:get_bpe_subwords'

    def apply(self, I, b):
        r = ListV(V._fresh(SList(SStr), 'subwords', [to_z3(b['word']), to_z3(b['bpe_data'])], True))
        I.flush_axioms()
        return r


class Types(Contract):
    """get_types_to_be_repr (target types)"""
    qual = c09.PC + ':PrepConfig.get_types_to_be_repr'

    def apply(self, I, b):
        return fresh_list(I, SOpaque(CLS), 'types')


class PureInt(PureStr):
    """get_max_str_length (C08): a function of the encoded value"""

    def apply(self, I, b):
        return z3.Function('fn!' + self.qual.split(':')[1], cur_str().sort, INT)(to_z3(list(b.values())[0]))


class Stem(Contract):
    qual = 'codeprep.stemming:stem'

    def apply(self, I, b):
        s = cur_str().sort
        return z3.Function('stem', s, s)(to_z3(list(b.values())[0]))


def t_config(opt):
    """two configurations that differ in one placeholder option: their representation configurations differ in the kinds to be represented at most"""
    def run(I):
        vals, a = prep_config(I, 'p')
        other = dict(vals)
        other[opt] = I.fresh(SStr, 'other')
        I.assume(c09.valid(other))
        if opt == 'STR':
            I.assume(z3.Or(vals['STR'] == '0', other['STR'] == '0'))
        PP = I.fn(c09.PC + ':PrepParam')
        b = ObjV(a.cls, {'params': DictV(Map(items={I.getattr(PP, k): v for k, v in other.items()}))})
        I.contracts[Subwords.qual] = Subwords()
        I.contracts[Stem.qual] = Stem()
        I.natives['spiral.ronin.split'] = split_fn(I, 'ronin').fn
        I.trusted.add('ronin.split and the stemmer are functions of the text')
        data = I.fresh(SOpaque(BPE), 'bpe')
        k = PureInt(c09.PC + ':get_max_str_length')
        I.contracts[k.qual] = k
        I.contracts[Types.qual] = Types()
        split = next((v for v in c09.VALUES['SPLIT'][:-1] if I.branch(vals['SPLIT'] == v)), c09.VALUES['SPLIT'][-1])
        for x in (a, b):
            x.fields['params']._c.items[I.getattr(PP, 'SPLIT')] = split
        rs = [I.outcome(I.getattr(x, 'get_repr_config'), [data], {}) for x in (a, b)]
        I.ensure('no error', rs[0][0] == 'ok' and rs[1][0] == 'ok')
        if rs[0][0] != 'ok' or rs[1][0] != 'ok':
            return
        x, y = rs[0][1], rs[1][1]
        for f in ('bpe_data', 'should_lowercase', 'full_strings') + (() if opt == 'STR' else ('max_str_length',)):
            u, v = I.getattr(x, f), I.getattr(y, f)
            I.ensure('same ' + f, (u is None and v is None) if u is None or v is None else eqv(u, v))
        s = I.fresh(SStr, 's')
        for f in ('number_splitter', 'word_splitter'):
            u, v = I.getattr(x, f), I.getattr(y, f)
            I.ensure('same kind of ' + f, (u is None) == (v is None))
            if u is None or v is None:
                continue
            r = [I.outcome(w, [s, data], {}) for w in (u, v)]
            I.ensure('%s: no error' % f, r[0][0] == 'ok' and r[1][0] == 'ok')
            if r[0][0] == r[1][0] == 'ok':
                I.ensure('same ' + f, eq_all(r[0][1], r[1][1]))
    return run


# ---- tokens

def some_of_word(I, t, rc, toks, m):
    """a part of a word has a representation, that of a list has fitting metadata (C04)"""
    return [z3.Implies(is_sub(I, t), to_z3(toks.n) >= 1)] if is_term(t) else c04.post(I, t, rc, toks, m)


def setup(I):
    install_tok(I)
    k = ToRepr(post=some_of_word, tag=lambda I, rc: 'none' if rc is None else 'rc')
    I.contracts[k.qual] = k
    noneng_contract(I)
    I.natives['$truth'] = lambda I, a, k: True


class Config:
    """a representation configuration without the kinds it is to represent"""

    def __init__(self, I, q=''):
        self.I = I
        base = I.branch(I.fresh(SBool, 'split'))
        self.base = [I.fn(TK + q) for q in ('containers:SplitContainer', 'word:Word')] if base else []
        if base and ('Number' in q or not q) and I.branch(I.fresh(SBool, 'numbers')):
            self.base.append(I.fn(TK + 'numeric:Number'))
        self.bpe = I.fresh(SOpaque(BPE), 'bpe') if base and I.branch(I.fresh(SBool, 'with_bpe')) else None
        self.lower = base and 'Word' in q and I.branch(I.fresh(SBool, 'lower'))
        self.full = not base and 'String' in q and I.branch(I.fresh(SBool, 'full'))
        self.limit = fresh_int(I, 'limit', 2)
        some = lambda s, c: [c.n >= 1]        # noqa
        self.ns, self.ws = split_fn(I, 'number_split', some), split_fn(I, 'word_split', some)

    def make(self, options, tail=()):
        I = self.I
        types = list(self.base)
        for o in OPTIONS:
            if o in options:
                types += [I.fn(TK + q) for q in OPTIONS[o]]
        return repr_config(I, types, self.bpe, self.lower, self.full, self.limit, self.ns, self.ws)


def make(I, q):
    """any token of the class"""
    c = I.fn(TK + q)
    if q in ('containers:OneLineComment', 'containers:MultilineComment'):
        return ObjV(c, {'subtokens': subtokens(I, True)})
    if q == 'containers:StringLiteral':
        return ObjV(c, {'subtokens': subtokens(I, True), 'length': fresh_int(I, 'length', 0)})
    if q == 'containers:SplitContainer':
        return ObjV(c, {'subtokens': subtokens(I, False)})
    if q == 'noneng:NonEng':
        return ObjV(c, {'processable_token': make(I, 'containers:SplitContainer')})
    if q == 'word:Word':
        return word(I)
    if q == 'whitespace:SpaceInString':
        return I.call(c, [fresh_int(I, 'n', 1)], {})
    if q in ('numeric:Number', 'word:KeyWord', 'word:Operator', 'word:NonCodeChar', 'word:SpecialToken'):
        return I.call(c, TXT(I), {})
    return I.call(c, [], {})


def some_options(I, but=None):
    return [o for o in OPTIONS if o != but and I.branch(I.fresh(SBool, 'option ' + o))]


def option_of(q):
    return next((o for o, qs in OPTIONS.items() if q in qs), None)


def rep(I, t, rc, what='no error'):
    out = I.outcome(I.fn(CORE + ':torepr'), [t, rc], {})
    I.ensure(what, out[0] == 'ok')
    if out[0] != 'ok':
        return None
    toks, m = I.unpack(out[1], 2, [False] * 2)
    return as_seq(toks), m


def t_placeholder(q):
    def run(I):
        setup(I)
        cf = Config(I, q)
        own = option_of(q)
        if q == 'noneng:NonEng':
            I.assume(cf.bpe is None)
        rc = cf.make(some_options(I, own) + [own])
        r = rep(I, make(I, q), rc)
        if r is None:
            return
        w, tt = as_seq(r[1].fields['word_boundaries']), as_seq(r[1].fields['token_types'])
        if q not in PRINTED:
            I.ensure('nothing', z_and(to_z3(r[0].n) == 0, to_z3(tt.n) == 0))
            return
        I.ensure('the one placeholder', eq_all(r[0], Seq(items=[PRINTED[q]])))
        I.ensure('as one word', z_and(to_z3(w.n) == 2, eqv(w.get(0), 0), eqv(w.get(1), 1), to_z3(tt.n) == 1))
        I.ensure('of its own type', eqv(tt.get(0), I.fn(TK + q)))
    return run


def t_noneng_bpe(I):
    """with BPE, a word with non-ASCII characters is split as the word with their runs replaced by one character"""
    setup(I)
    cf = Config(I, 'NonEng')
    I.assume(cf.bpe is not None)
    t = make(I, 'noneng:NonEng')
    text = I.natives['builtins.str'](I, [t.fields['processable_token']], {})
    S = cur_str().sort
    repl = z3.Function('fn!replace_non_ascii_seqs', S, S, S)(to_z3(text), to_z3('\xf7'))
    I.assume(cur_str().length(to_z3(text)) > 0, cur_str().length(repl) > 0)

    class From(Contract):
        """Word.from_ (C06): a word that prints as the text"""
        qual = TK + 'word:Word.from_'

        def apply(self, I, b):
            s = to_z3(b['s'])
            I.guard(cur_str().length(s) > 0, 'ValueError', 'empty')
            return z3.Function('word_of', S, TOK)(s)
    I.contracts[From.qual] = From()
    st = z3.Function('tok_str', TOK, S)
    x = z3.Const('x!', S)
    wo = z3.Function('word_of', S, TOK)
    k = ToRepr(tag=lambda I, rc: 'none' if rc is None else 'rc', post=lambda I, t, rc, toks, m: [z3.Implies(t == wo(repl), z3.And(to_z3(toks.n) == 1, to_z3(toks.get(0)) == repl))] + some_of_word(I, t, rc, toks, m) if is_term(t) and rc is None else some_of_word(I, t, rc, toks, m))
    I.contracts[k.qual] = k
    rc = cf.make(some_options(I, 'EN_ONLY') + ['EN_ONLY'])
    r = rep(I, t, rc)
    if r is None:
        return
    want = I.call(cf.ws, [repl, cf.bpe], {})
    I.ensure('split as the word with its non-ASCII runs replaced', eq_all(r[0], want))
    tt = as_seq(r[1].fields['token_types'])
    I.ensure('as one word', to_z3(tt.n) == 1)


def same(I, a, b):
    I.ensure('same tokens as without the options', eq_all(a[0], b[0]))
    for f in ('word_boundaries', 'token_types'):
        I.ensure('same %s as without the options' % f, eq_all(a[1].fields[f], b[1].fields[f]))


def t_other(q):
    """not represented by any of its own options: as with all options off"""
    def run(I):
        setup(I)
        cf = Config(I, q)
        t = make(I, q)
        opts = some_options(I, option_of(q))
        if q == 'containers:StringLiteral' and (cf.full or cf.bpe is not None):
            opts = [o for o in opts if o != 'EN_ONLY']
        if not opts:
            return
        sc = t.fields.get('processable_token', t)
        if sc.cls.name == 'SplitContainer':
            I.contracts[Update.qual] = Update()
            flat(I, sc.fields['subtokens']._c)
        a, b = rep(I, t, cf.make(opts)), rep(I, t, cf.make([]), 'no error without the options')
        if a is None or b is None:
            return
        same(I, a, b)
    return run


def t_text(I):
    """a literal kept in one piece or split into BPE subwords: under no-unicode its text is replaced part by part between spaces, the rest is as before"""
    setup(I)
    cf = Config(I, 'String')
    I.assume(cf.full or cf.bpe is not None)
    t = make(I, 'containers:StringLiteral')
    text = I.natives['builtins.str'](I, [t], {})
    opts = some_options(I, 'STR')
    a = rep(I, t, cf.make(opts + ['EN_ONLY'] if 'EN_ONLY' not in opts else opts))
    long = I.branch(t.fields['length'] > cf.limit)
    if a is None:
        return
    if long:
        I.ensure('emptied when too long', eq_all(a[0], Seq(items=['""'] if cf.full else ['"', '"'])))
        return
    from pyvc.loops import join_term
    S = cur_str().sort
    f = z3.Function('fn!replace_non_ascii_seqs', S, S, S)
    ps = as_seq(I.call(I.getattr(text, 'split'), ['\xa0'], {}))
    want = join_term(I, '\xa0', Seq(n=ps.n, get=lambda i: f(to_z3(ps.get(i)), to_z3('\xf7'))))
    if cf.bpe is not None:
        I.ensure('split as the text with its non-ASCII runs replaced', eq_all(a[0], I.call(cf.ws, [want, cf.bpe], {})))
    else:
        I.ensure('the text with its non-ASCII runs replaced', eq_all(a[0], Seq(items=[want])))


class Update(Contract):
    """PreprocessingMetadata.update (C04): changes the metadata it is called on"""
    qual = 'codeprep.preprocess.metadata:PreprocessingMetadata.update'

    def apply(self, I, b):
        m = b['self']
        I.setattr(m, 'word_boundaries', fresh_list(I, SInt, 'wb'))
        I.setattr(m, 'token_types', fresh_list(I, SOpaque(CLS), 'tt'))
        return m


def flat(I, cn, extra=None):
    """the representations of the tokens cn one after another: their offsets and (a definition) what stands at each position"""
    S = cur_str().sort
    part = lambda i: V._fresh(SList(SStr), 'torepr' + 'rc.t', [to_z3(cn.get(i))], True)      # noqa
    size = lambda i: to_z3(part(i).n)      # noqa
    i, j = z3.Ints('i! j!')
    off = Fold(I, 'off', SInt, 0, lambda a, t: simp(to_z3(a) + size(t)))
    whole = z3.Function('whole', INT, S)
    e = to_z3(part(i).get(j))
    I.assume(z_bool(off.base_axiom()), z3.ForAll([i], size(i) >= 0, patterns=[size(i)]),
             z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < to_z3(cn.n), 0 <= j, j < size(i)), e == whole(to_z3(off.raw(i)) + j)), patterns=[e]))

    def cands(v):
        r = []
        for nm, c, _ in v.seqs():
            if c.items == []:
                r += [('%s size' % nm, to_z3(off.at(v.k)) == 0), ('%s content' % nm, True)]
                continue
            try:
                x = c.get(0)
            except (Unsupported, IndexError):
                continue
            if is_str(x):
                r += [('%s size' % nm, to_z3(c.n) == to_z3(off.at(v.k))),
                      ('%s content' % nm, forall_int(lambda p: to_z3(c.get(p)) == whole(to_z3(p)), 0, c.n))]
        return r
    I.loop_cands.append(cands)
    return off, whole


def t_list(I):
    setup(I)
    ts = subtokens(I, True)
    rc = Config(I, 'list').make(some_options(I))
    I.contracts[Update.qual] = Update()
    off, whole = flat(I, ts._c)
    out = I.outcome(I.fn(CORE + ':to_repr_list'), [ts, rc], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    r = as_seq(I.unpack(out[1], 2, [False] * 2)[0])
    I.ensure('as long as the parts together', to_z3(r.n) == to_z3(off.at(ts._c.n)))
    I.ensure('the parts one after another', forall_int(lambda p: to_z3(r.get(p)) == whole(to_z3(p)), 0, r.n))


OTHER = ['containers:OneLineComment', 'containers:MultilineComment', 'containers:StringLiteral', 'containers:SplitContainer', 'noneng:NonEng', 'word:Word',
         'word:Underscore', 'word:KeyWord', 'word:Operator', 'word:Semicolon', 'word:OpeningBracket', 'word:ClosingBracket', 'word:OpeningCurlyBracket',
         'word:ClosingCurlyBracket', 'word:NonCodeChar', 'word:SpecialToken', 'numeric:Number', 'numeric:One', 'numeric:Zero', 'whitespace:NewLine',
         'whitespace:Tab', 'whitespace:SpaceInString']
NAME = lambda q: q.split(':')[1].lower()        # noqa
FN = lambda q, f: 'tokens.%s.%s' % (q.replace(':', '.'), f)        # noqa

TARGETS = [
    Target('types', 'C07', ['prepconfig.PrepConfig.get_types_to_be_repr'], t_types),
] + [Target('config-' + o, 'C07', ['prepconfig.PrepConfig.get_repr_config', 'prepconfig.PrepConfig.get_word_splitter', 'prepconfig.PrepConfig.get_number_splitter'],
            t_config(o)) for o in OPTIONS] + [
    Target('placeholder-' + NAME(q), 'C07', ['preprocess.core.torepr', FN(q, 'preprocessed_repr')], t_placeholder(q), str_mode='atom')
    for qs in OPTIONS.values() for q in qs] + [
    Target('noneng-bpe', 'C07', ['tokens.noneng.NonEng.preprocessed_repr', 'tokens.containers.SplitContainer.preprocessed_repr'], t_noneng_bpe, str_mode='atom'),
    Target('text', 'C07', ['tokens.containers.StringLiteral.non_preprocessed_repr'], t_text, str_mode='atom'),
    Target('list', 'C07', ['preprocess.core.to_repr_list'], t_list, str_mode='atom')] + [
    Target('other-' + NAME(q), 'C07', ['preprocess.core.torepr', FN(q, 'non_preprocessed_repr')], t_other(q), str_mode='atom') for q in OTHER]

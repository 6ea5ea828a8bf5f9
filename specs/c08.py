"""C08 The maximum string length is applied exactly."""
import sys as _sys
from specs.lib import *
from specs.toks import *

API = 'codeprep.api.common'
PC = 'codeprep.prepconfig'
MAXINT = 2 ** 63 - 1


def t_limit(I):
    """request -> encoded value -> limit, for every integer request >= 0"""
    m = fresh_int(I, 'max_str_length', 0)
    no_str = I.branch(I.fresh(SBool, 'no_str'))
    v = I.call(I.fn(API + ':create_str_value'), [no_str, m], {})
    if no_str:
        I.ensure('replacing strings overrides the limit', eqv(v, '0'))
        return
    I.ensure('the encoded value is not the placeholder value', z_not(eqv(v, '0')))
    r = I.call(I.fn(PC + ':get_max_str_length'), [v], {})
    I.ensure('a limited request yields a limit', r is not None)
    I.ensure('0 and 1 act as 2', z3.Implies(m < 2, to_z3(r) == 2))
    I.ensure('2..61 are exact', z3.Implies(z3.And(2 <= m, m < 62), to_z3(r) == m))
    I.ensure('62 and more act as no limit', z3.Implies(m >= 62, to_z3(r) == MAXINT))


SPLS = ['nosplit', 'chars', 'basic', 'bpe']


def t_config(spl):
    """the limit (or the placeholder) asked for is what the representation of tokens works with"""
    def run(I):
        flags = {}
        for f in ['no_str'] + {'nosplit': ['full_strings'], 'basic': ['split_numbers']}.get(spl, []):
            flags[f] = I.branch(I.fresh(SBool, f))
        kw = dict(flags)
        default = I.branch(I.fresh(SBool, 'limit_not_given'))
        if default:
            m = MAXINT
        else:
            m = fresh_int(I, 'max_str_length', 0)
            kw['max_str_length'] = m
        pc = I.call(I.fn(API + ':create_prep_config'), [spl], kw)
        bpe = I.fresh(SOpaque(BPE), 'bpe')
        rc = I.method(pc, 'get_repr_config', bpe)
        types = I.getattr(rc, 'types_to_be_repr')
        names = [c.name for c in I.host_list(types)] if hasattr(I, 'host_list') else [c.name for c in types._c.items]
        I.ensure('string literals are replaced iff asked for', ('StringLiteral' in names) == flags['no_str'])
        if not flags['no_str']:
            r = I.getattr(rc, 'max_str_length')
            want = z3.If(to_z3(m) < 2, 2, z3.If(to_z3(m) < 62, to_z3(m), MAXINT))
            I.ensure('limit of the configuration', to_z3(r) == want)
    return run


def literal(I, maxlen, subs, length, full, bpe, noneng, st):
    cls = lambda q: I.fn('codeprep.tokens.' + q)     # noqa
    types = [cls('containers:SplitContainer'), cls('word:Word')] + ([cls('noneng:NonEng')] if noneng else [])
    rc = repr_config(I, types, bpe=bpe, full=full, maxlen=maxlen, word_splitter=split_fn(I, 'word_splitter'))
    lit = I.call(cls('containers:StringLiteral'), [subs, length], {})
    toks, meta = I.call(I.fn(CORE + ':torepr'), [lit, rc], {})
    return toks, meta


def t_literal(I):
    """a literal is emptied iff longer than the limit, else represented as without a limit"""
    st, sub = install_tok(I)
    I.contracts[ToRepr.qual] = ToRepr(tag=lambda I, rc: 'rc')
    noneng_contract(I)
    subs = fresh_list(I, STok, 'subtokens')
    I.assume(z3.ForAll([z3.Const('t!', TOK)], z3.Not(sub(z3.Const('t!', TOK), to_z3(I.fn('codeprep.tokens.rootclasses:ParsedSubtoken'))))))
    length = fresh_int(I, 'length', 0)
    limit = fresh_int(I, 'limit', 2)
    full = I.branch(I.fresh(SBool, 'full_strings'))
    bpe = I.fresh(SOpaque(BPE), 'bpe') if I.branch(I.fresh(SBool, 'with_bpe')) else None
    noneng = I.branch(I.fresh(SBool, 'no_unicode'))
    I.natives['$truth'] = lambda I, a, k: True
    I.assume(length <= MAXINT)
    t1, m1 = literal(I, limit, subs, length, full, bpe, noneng, st)
    t2, m2 = literal(I, MAXINT, subs, length, full, bpe, noneng, st)
    empty = ['""'] if full else ['"', '"']
    I.ensure('emptied when longer than the limit', z3.Implies(length > limit, z_bool(eqv(t1, Seq(items=empty)))))
    I.ensure('represented as without a limit otherwise', z3.Implies(length <= limit, eq_all(t1, t2)))
    I.ensure('with the same words otherwise', z3.Implies(length <= limit, z3.And(
        eq_all(m1.fields['word_boundaries'], m2.fields['word_boundaries']), eq_all(m1.fields['token_types'], m2.fields['token_types']))))


def t_length(I):
    """the length a literal is judged by is that of its source text, quotes included"""
    v = I.fresh(SStr, 'value')
    seen = []

    def new(I, a, k):
        seen.append((a, k))
        return ObjV(I.fn('codeprep.tokens.containers:StringLiteral'), {'subtokens': a[0], 'length': a[1]})
    I.contracts['codeprep.parse.subtokens:split_string'] = Split()
    r = I.call(BoundV(I.fn('codeprep.parse.matchers:StringMatcher.transform'), ObjV(I.fn('codeprep.parse.matchers:StringMatcher'))), [v], {})
    its = I.concrete(as_seq(r))
    I.ensure('one literal', its is not None and len(its) == 1 and its[0].cls.name == 'StringLiteral')
    I.ensure('length of the literal', to_z3(its[0].fields['length']) == z3.Length(v))


def t_placeholder(I):
    """a literal to be replaced becomes the placeholder, whatever its length and the limit"""
    install_tok(I)
    cls = lambda q: I.fn('codeprep.tokens.' + q)     # noqa
    lit = ObjV(cls('containers:StringLiteral'), {'subtokens': fresh_list(I, STok, 'subtokens'), 'length': fresh_int(I, 'length', 0)})
    rc = repr_config(I, [cls('containers:SplitContainer'), cls('word:Word'), cls('containers:StringLiteral')],
                     full=I.branch(I.fresh(SBool, 'full')), maxlen=I.fresh(SOpt(SInt), 'limit'))
    toks, meta = I.call(I.fn(CORE + ':torepr'), [lit, rc], {})
    I.ensure('placeholder', eqv(toks, Seq(items=['<str-literal>'])))


class Split(Contract):
    qual = 'codeprep.parse.subtokens:split_string'

    def apply(self, I, b):
        return ListV(Seq(items=[]))


TARGETS = [
    Target('literal', 'C08', ['tokens.containers.StringLiteral.non_preprocessed_repr', 'preprocess.core.torepr',
                              'tokens.containers.StringLiteral.__init__'], t_literal),
    Target('placeholder', 'C08', ['tokens.containers.StringLiteral.preprocessed_repr'], t_placeholder),
    Target('length', 'C08', ['parse.matchers.StringMatcher.transform'], t_length),
    Target('limit', 'C08', ['api.common.create_str_value', 'prepconfig.get_max_str_length'], t_limit),
] + [Target('config-' + s, 'C08', ['api.common.create_prep_config', 'prepconfig.PrepConfig.get_repr_config',
                                  'prepconfig.PrepConfig.get_types_to_be_repr'], t_config(s)) for s in SPLS]

"""C10 Command line and library agree on the meaning of options."""
from specs.lib import *

CLI = 'codeprep.cli.impl'
TEXT = 'codeprep.api.text'
CORPUS = 'codeprep.api.corpus'
KEYS = ['EN_ONLY', 'COM', 'STR', 'SPLIT', 'TABS_NEWLINES', 'CASE']
STRV = [chr(x) for r in ((48, 58), (65, 91), (97, 123)) for x in range(*r)]
COMMON = {'--no-spaces': 'no_spaces', '--no-unicode': 'no_unicode', '--no-com': 'no_com', '--no-str': 'no_str'}
MODES = {'nosplit': dict(COMMON, **{'--full-strings': 'full_strings'}), 'chars': COMMON, 'bpe': COMMON,
         'basic': dict(COMMON, **{'--no-case': 'no_case', '--split-numbers': 'split_numbers', '--ronin': 'ronin', '--stem': 'stem'})}


class Recorder(Contract):
    """preprocess / preprocess_corpus: only what they are called with matters here"""

    def __init__(self, qual, log):
        self.qual, self.log = qual, log

    def apply(self, I, b):
        self.log.append(dict(b))
        return None


class StrValue(Contract):
    """create_str_value: a known value determined by the arguments (established by C08)"""
    qual = 'codeprep.api.common:create_str_value'

    def apply(self, I, b):
        f = z3.Function('str_value', BOOL, INT, cur_str().sort)
        n = I.truth(b['no_str'])
        r = f(z_bool(n), to_z3(b['max_str_len']))
        I.assume(z3.Or(*[r == v for v in STRV]))
        return r


def t_mode(mode, target):
    def run(I):
        opts = MODES[mode]
        I.max_paths = 3000
        log = []
        I.contracts[TEXT + ':preprocess'] = Recorder(TEXT + ':preprocess', log)
        I.contracts[CORPUS + ':preprocess_corpus'] = Recorder(CORPUS + ':preprocess_corpus', log)
        I.contracts[StrValue.qual] = StrValue()
        on = {o: I.branch(I.fresh(SBool, o)) for o in opts}
        if mode == 'basic':      # usage: [-n [-r [-s]]]
            if (on['--ronin'] and not on['--split-numbers']) or (on['--stem'] and not on['--ronin']):
                raise PathPruned()
        missing = I.branch(I.fresh(SBool, 'off options left out'))
        args = {m: m == mode for m in MODES}
        args.update({'--verbose': False, '<text>': None, '--path': None, '--output-path': None, '--calc-vocab': False, '--ext': None})
        for o in opts:
            if on[o] or not missing:
                args[o] = on[o]
        kw = {k: True for o, k in opts.items() if on[o]}
        if I.branch(I.fresh(SBool, 'limit given')):
            m = I.fresh(SInt, 'max_str_length')
            args['--max-str-length'] = I.natives['builtins.str'](I, [m], {})
            kw['max_str_length'] = m
        elif not missing:
            args['--max-str-length'] = None
        pos = []
        if mode == 'bpe':
            args.update({'1k': False, '5k': False, '10k': False, '<bpe-codes-id>': None})
            which = None
            for i in ('1k', '5k', '10k'):
                if I.branch(I.fresh(SBool, i)):
                    which = i
                    break
            if which:
                args[which] = True
                cid = which
            else:
                cid = I.fresh(SStr, 'bpe_codes_id')
                I.assume(cid != '', *[cid != i for i in ('1k', '5k', '10k')])
                args['<bpe-codes-id>'] = cid
            kw['bpe_codes_id'] = cid
        ext = I.fresh(SOpt(SStr), 'ext')
        args['--ext'] = ext
        if target == 'text':
            text = I.fresh(SStr, 'text')
            I.assume(text != '')
            args['<text>'] = text
            kw['extension'] = ext
            I.natives['builtins.print'] = lambda I, a, k: None
            lib = I.fn('%s:%s' % (TEXT, mode))
            pos = [text]
        else:
            path = I.fresh(SStr, 'path')
            args['--path'] = path
            kw['extensions'] = ext
            args['--output-path'] = kw['output_path'] = I.fresh(SOpt(SStr), 'out')
            args['--calc-vocab'] = kw['calc_vocab'] = I.fresh(SBool, '--calc-vocab')
            lib = I.fn('%s:%s' % (CORPUS, mode))
            pos = [path]
        I.call(I.fn(CLI + ':handle_splitting'), [DictV(Map(items=args))], {})
        k1 = len(log)
        I.call(lib, pos, kw)
        I.ensure('the command line preprocesses once, as the library does', k1 == 1 and len(log) == 2)
        c, l = log
        I.ensure('the same parameters', set(c) == set(l))
        for p in sorted(c):
            if p in ('config', 'prep_config'):
                for k in KEYS:
                    m = I.getattr(I.fn('codeprep.prepconfig:PrepParam'), k)
                    I.ensure('configuration value %s' % k, eqv(I.method(c[p], 'get_param_value', m), I.method(l[p], 'get_param_value', m)))
            else:
                I.ensure('argument %s' % p, eqv(c[p], l[p]))
    return run


FUNS = ['cli.impl.handle_splitting', 'cli.impl.create_prep_config_from_args', 'cli.impl.create_split_value_from_args',
        'cli.impl.get_predefined_bpe_codes_id', 'api.common.create_prep_config', 'api.common.create_split_value']
TARGETS = [Target('%s-%s' % (m, t), 'C10', FUNS + ['api.%s.%s' % (t, m)], t_mode(m, t), timeout=400) for m in MODES for t in ('text', 'corpus')]

"""all combinations of the command line options of each mode (text and path, long and short spelling, string limits incl. 0, 1, 61, 62)
through the real argument parser, compared with the library call; non-trivial: every input"""
import contextlib
import io
import itertools
import sys
import codeprep.api.corpus as C
import codeprep.api.text as T
from codeprep.cli.spec import parse_and_run

COMMON = {'--no-spaces': ('no_spaces', '-0'), '--no-unicode': ('no_unicode', '-U'), '--no-com': ('no_com', '-C'), '--no-str': ('no_str', '-S')}
OPTS = {'nosplit': dict(COMMON, **{'--full-strings': ('full_strings', '-f')}), 'chars': COMMON, 'bpe': COMMON,
        'basic': dict(COMMON, **{'--no-case': ('no_case', '-l'), '--split-numbers': ('split_numbers', '-n'), '--ronin': ('ronin', '-r'),
                                 '--stem': ('stem', '-s')})}
IDS = ['1k', '5k', '10k', 'my-bpe_1-2000', '0', '1', '20k']
LIMITS = [None, None, 0, 1, 2, 3, 10, 35, 60, 61, 62, 63, 100000]
calls = []


def T_rec(text, config, bpe_codes_id=None, extension=None, return_metadata=False, force_reinit_bpe_data=True, append_eof=False):
    calls.append(('text', text, {str(k): v for k, v in config.params.items()}, bpe_codes_id, extension, return_metadata, force_reinit_bpe_data, append_eof))
    return []


def C_rec(path, prep_config, bpe_codes_id=None, extensions=None, output_path=None, calc_vocab=False, suppress_caching=False):
    calls.append(('corpus', path, {str(k): v for k, v in prep_config.params.items()}, bpe_codes_id, extensions, output_path, bool(calc_vocab), suppress_caching))


def ok(mode, opts, limit):
    if '--no-str' in opts and (limit is not None or '--full-strings' in opts):
        return False
    if '--ronin' in opts and '--split-numbers' not in opts or '--stem' in opts and '--ronin' not in opts:
        return False
    return True


def corner():
    for mode in OPTS:
        names = sorted(OPTS[mode])
        n = 0
        for k in range(len(names) + 1):
            for opts in itertools.combinations(names, k):
                for limit in (None, 0, 62, 17):
                    n += 1
                    if ok(mode, opts, limit) and (len(opts) <= 2 or n % 5 == 0):
                        yield (mode, opts, limit, IDS[n % len(IDS)], 'text' if n % 2 else 'corpus', ('java', None)[n % 3 == 0], n % 4 == 0, n % 7 == 0)


def gen(rng):
    while True:
        mode = rng.choice(sorted(OPTS))
        opts = tuple(o for o in sorted(OPTS[mode]) if rng.random() < 0.45)
        limit = rng.choice(LIMITS)
        if ok(mode, opts, limit):
            return (mode, opts, limit, rng.choice(IDS), rng.choice(['text', 'corpus']), rng.choice(['java', 'py|js', None]), rng.random() < 0.5,
                    rng.random() < 0.5)


def check(i):
    mode, opts, limit, cid, target, ext, short, vocab = i
    argv, kw = [mode], {}
    if mode == 'bpe':
        argv.append(cid)
        kw['bpe_codes_id'] = cid
    argv += ['some text'] if target == 'text' else ['-p', '/some/path']
    for o in opts:
        name, s = OPTS[mode][o]
        argv.append(s if short else o)
        kw[name] = True
    if limit is not None:
        argv.append('-L=%d' % limit if short else '--max-str-length=%d' % limit)
        if short:
            argv[-1:] = ['-L', str(limit)]
        kw['max_str_length'] = limit
    if ext:
        argv += ['-e' if short else '--ext', ext]
        kw['extension' if target == 'text' else 'extensions'] = ext
    if target == 'corpus':
        if short:
            argv += ['-o', '/some/out']
            kw['output_path'] = '/some/out'
        if vocab:
            argv.append('--calc-vocab')
            kw['calc_vocab'] = True
    del calls[:]
    old = T.preprocess, C.preprocess_corpus
    T.preprocess, C.preprocess_corpus = T_rec, C_rec
    try:
        with contextlib.redirect_stdout(io.StringIO()) as so:
            try:
                parse_and_run(argv)
            except SystemExit as e:
                raise AssertionError('command line %r not accepted: %s' % (argv, so.getvalue()[:200]))
        if target == 'text':
            getattr(T, mode)('some text', **kw)
        else:
            getattr(C, mode)('/some/path', **kw)
    finally:
        T.preprocess, C.preprocess_corpus = old
    assert len(calls) == 2, 'command line %r: %d calls' % (argv, len(calls) - 1)
    assert calls[0] == calls[1], 'command line %r: %r, library %r' % (argv, calls[0], calls[1])

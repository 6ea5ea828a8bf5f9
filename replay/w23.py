"""a source text written to a file, parsed and represented by both preprocess_and_write functions: the resulting file is one line which, unescaped and split at
spaces, gives the tokens that the same configuration gives for the parsed text plus the end-of-file token, and the function for text gives the same ones (but
for a newline at the end); no token holds a space or empties the separation; non-trivial: the text is not empty"""
import gzip
import os
import pickle
import shutil
import tempfile
from codeprep.api import text as api
from codeprep.parse.core import convert_text
from codeprep.pipeline import parse_projects, to_repr
from codeprep.tokens.whitespace import NewLine
from codeprep.tokens.word import SpecialToken
from wlib import config, bpe_data, gen_config

TEXTS = [
    ('java', 'import static java.util.A.*;\n'), ('java', 'int a = 0;'), ('java', 'class Foo {\n    // \xfcber "x  y"\n\tString s = "a  b\\n\\t \u4e2d c";\n}\n\n'),
    ('scss', 'a { b : c; }\n@include  x ;\n'), ('cob', '       01  A PIC 9(3) VALUE 12  .\n'), ('py', 'def f(a):\n    """doc  string\n    x"""\n    return not  in a is not b\n'),
    ('js', 'var s = `a ${ b } c`; /* x  y */ // z\n'), ('java', ''), ('java', '\n'), ('java', '\\ n \\n "\\\\ \\n" \'\\u0041\'\n'), ('java', '"\xa0 \u2028 \x0b \x0c \x85 \u3000"\n'),
    ('java', '/* a */ x /* \n * b */'), ('java', 'MAX_VALUE camelCase iPhone 0x1F 1.5e+3f 10L'), ('java', '     "     "     '), ('sql', 'SELECT  a  FROM b WHERE c IS NOT NULL;\n'),
    ('f90', 'end  if\nend do\n'), ('vb', 'End Sub\nExit  For\n'), ('c', '#include  <a.h>\n#define  A  B\n'), ('rb', 'a = %w( b  c )\nputs "x #{ y } z"\n'),
    ('java', 'a\r\nb\rc\n'), ('java', '\ta\t\tb\t\n'), ('html', '<a  b="c d">x  y</a>\n'), ('java', 'String s = "\\" \\\\";@A @interface  B {}\n'), ('go', 'x := `a  b`\n'),
    ('java', 'x = "' + 'a b ' * 30 + '";\n'), ('unknown-ext', 'a b  c\n'), ('yaml', 'a:  b c\n- d   e\n'), ('sh', 'if  [ a ] ; then\n  echo "$x  y"\nfi\n')]
CONF = ['u011su', 'uc140u', 'Uc18su', 'U0E10u', 'uc12sl', 'u01Fsu', 'u021su', 'ucA2su', 'U014su', 'ucE80u', 'u009su', 'ucz1sl']
SNIPS = ['a', ' ', '  ', '\n', '\t', '"', '\\', 'foo', 'Bar_baz', '12', '0', ';', '{', '//', '/*', '*/', '\xfcber', '\u4e2d', '\xa0', '\u2003', 'import', 'static ', '\\n', '@', '\'',
         '\x85', '\x1c', '\u2028', '<', '=', 'if ', '\r\n', '\ud83d\ude00', '\xf7', '`', '$', '\x00', '\x0b', '\x0c', '#']
EXTS = ['java', 'py', 'c', 'js', 'scss', 'rb', 'html', 'cob', 'sql', 'unknown', 'sh', 'php']


def corner():
    for n, (e, t) in enumerate(TEXTS):
        for m in range(3):
            yield (e, t, CONF[(n + 4 * m) % len(CONF)])
    for e in EXTS:
        for c in CONF[:4]:
            yield (e, 'x  =  y "a  b" ;  import static b\n# c  d\n', c)


def gen(rng):
    if rng.random() < 0.3:
        e, t = rng.choice(TEXTS)
        k = rng.randrange(len(t) + 1)
        t = t[:k] + rng.choice(SNIPS) + t[k:]
    else:
        e, t = rng.choice(EXTS), ''.join(rng.choice(SNIPS) for _ in range(rng.randrange(14)))
    return (e, t.encode('utf-8', 'replace').decode(), gen_config(rng))


def nontrivial(i):
    return bool(i[1].strip())


def check(i):
    ext, text, conf = i
    cfg = config(conf)
    data = bpe_data(5) if conf[3] in '456789' else None
    d = tempfile.mkdtemp(dir=os.environ['VREPLAY_SCRATCH']).encode()
    saved = getattr(api, 'init_bpe_data', None)
    try:
        src = os.path.join(d, b'in', b'a.' + ext.encode())
        mid, dst = os.path.join(d, b'parsed', b'a.parsed'), os.path.join(d, b'out', b'a.prep')
        os.mkdir(os.path.join(d, b'in'))
        with open(src, 'wb') as f:
            f.write(text.encode('utf-8'))
        parse_projects.preprocess_and_write((src, mid))
        to_repr.preprocess_and_write((mid, dst, cfg, None), data)
        with open(dst, 'rb') as f:
            raw = f.read()
        with gzip.GzipFile(mid, 'rb') as f:
            stored = pickle.load(f)
        lines = text.split('\n')
        if '\r' in text or not text or text.endswith('\n'):
            from codeprep.fileutils import read_file_contents
            lines, _ = read_file_contents(src)
        seen = '\n'.join(lines)
        if '\r' not in text:
            assert seen in (text, text[:-1]) and (seen == text or text.endswith('\n')), 'the file is read as %r' % seen
        parsed = list(convert_text(seen, ext))
        assert list(map(repr, parsed)) == list(map(repr, stored)), 'the parsed contents are not those of the text'
        eof = [SpecialToken('<EOF>')]
        want = to_repr.to_repr(cfg, parsed + eof, data)[0]
        for t in want:
            assert ' ' not in t, 'token %r holds a space' % t
            assert t != '', 'an empty token'
        assert raw.endswith(b'\n') and raw.count(b'\n') == 1 and b'\r' not in raw, 'not one line: %r' % raw
        back = raw[:-1].decode('ascii').encode('ascii').decode('unicode-escape').split(' ')
        assert back == want, 'written %r, the tokens are %r' % (back, want)

        def init(*a, **k):
            to_repr.global_bpe_data = data
        if saved is not None:
            api.init_bpe_data = init
        trimmed = parsed[:-1] if parsed and isinstance(parsed[-1], NewLine) else parsed
        if data is None or saved is not None:
            for e in (True, False):
                if not (trimmed or e):
                    continue
                got = api.preprocess(seen, cfg, '1k' if data is not None else None, extension=ext, append_eof=e)
                exp = to_repr.to_repr(cfg, trimmed + (eof if e else []), data)[0]
                assert got == exp, 'the function for text gives %r, the corpus %r' % (got, exp)
                got, meta = api.preprocess(seen, cfg, '1k' if data is not None else None, extension=ext, append_eof=e, return_metadata=True)
                assert got == exp and meta.word_boundaries[-1] == len(exp), 'with metadata: %r' % (got,)
    finally:
        if saved is not None:
            api.init_bpe_data = saved
        if 'global_bpe_data' in vars(to_repr):
            del to_repr.global_bpe_data
        shutil.rmtree(d, ignore_errors=True)


def shrink(i):
    for k in range(len(i[1])):
        yield (i[0], i[1][:k] + i[1][k + 1:], i[2])

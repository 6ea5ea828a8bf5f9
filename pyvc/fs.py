"""Files and directories as the functions under contract see them.

static(I): a file system that does not change during the call: existence, directory lists and file contents are arbitrary but fixed
functions of the path."""
import z3
from . import values as V
from .values import *       # noqa
from .values import _fresh


def uf(name, *sorts):
    return z3.Function(name, *sorts)


def pjoin(a, b):
    s = cur_str().sort
    return uf('path.join', s, s, s)(to_z3(a), to_z3(b))


def exists(p):
    return uf('fs.exists', cur_str().sort, BOOL)(to_z3(p))


def text(p):
    return uf('fs.text', cur_str().sort, cur_str().sort)(to_z3(p))


def subdirs(I, p):
    p = to_z3(p)
    r = ListV(_fresh(SList(SStr), 'fs.subdirs', [p], True))
    I.flush_axioms()
    return r


def install_paths(I):
    n = I.natives

    def join(I, a, k):
        r = a[0]
        for x in a[1:]:
            r = pjoin(r, x)
        return r
    n['os.path.join'] = join
    for f in ('basename', 'dirname', 'abspath', 'realpath', 'normpath'):
        n['os.path.' + f] = (lambda f: lambda I, a, k: uf('path.' + f, cur_str().sort, cur_str().sort)(to_z3(a[0])))(f)


def static(I):
    install_paths(I)
    n = I.natives
    n['os.path.exists'] = lambda I, a, k: exists(a[0])

    def walk(I, a, k):
        return CellV('walk', p=a[0])
    n['os.walk'] = walk

    def first(I, a, k):
        p = a[0].d['p']
        # a directory that is there has a first entry: itself, its directories, its files
        if not I.branch(exists(p)):
            I.raise_('StopIteration')
        files = ListV(_fresh(SList(SStr), 'fs.files', [to_z3(p)], True))
        I.flush_axioms()
        return (p, subdirs(I, p), files)
    n['$next:walk'] = first

    def listdir(I, a, k):
        I.guard(exists(a[0]), 'FileNotFoundError', a[0])
        r = ListV(_fresh(SList(SStr), 'fs.listdir', [to_z3(a[0])], True))
        I.flush_axioms()
        return r
    n['os.listdir'] = listdir

    def open_(I, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if not isinstance(mode, str) or 'r' not in mode or '+' in mode:
            raise Unsupported('writing to a file that does not change')
        I.guard(exists(a[0]), 'FileNotFoundError', a[0])
        return CellV('rfile', p=a[0])
    n['builtins.open'] = open_
    n['$enter:rfile'] = lambda I, a, k: a[0]
    n['$exit:rfile'] = lambda I, a, k: None
    n['$method:rfile.close'] = lambda I, a, k: None
    n['$method:rfile.read'] = lambda I, a, k: text(a[0].d['p'])
    if cur_str().mode != 'z3':
        # str.strip() of unstructured strings: some string
        n['$method:strip'] = lambda I, a, k: uf('strip', cur_str().sort, cur_str().sort)(to_z3(a[0]))


# ---------------------------------------------------------------- bytes as text, relative paths, text files
def bytes_as_text(I):
    """bytes are modelled as the text they encode (UTF-8 is an injective homomorphism that keeps '/', '.' and prefixes/suffixes)"""
    I.bytes_text = True
    I.natives['$encode'] = lambda I, a, k: a[0]
    I.natives['$decode'] = lambda I, a, k: a[0]
    I.trusted.add('bytes of paths are modelled as the text they encode')


def norm(x):
    """normalised relative path; norm(r + literal) == norm(r) + literal for a path r that ends with a file name and a literal without '/'"""
    th = cur_str()
    s = th.sort
    ps = th.parts(to_z3(x))
    tail = ''
    if len(ps) > 1 and isinstance(ps[-1], str) and '/' not in ps[-1]:
        tail, ps = ps[-1], ps[:-1]
    b = th.lit('')
    for p in ps:
        b = th.cat(b, th.lit(p) if isinstance(p, str) else p)
    return th.cat(uf('path.norm', s, s)(b), th.lit(tail))


def relative(I):
    """os.path.relpath for paths made by joining: relpath(join(P, r), P) == norm(r), relpath(P, P) == '.'"""
    def relpath(I, a, k):
        p, q = to_z3(a[0]), to_z3(a[1])
        if p.eq(q):
            return '.'
        if z3.is_app(p) and p.decl().name() == 'path.join' and p.arg(0).eq(q):
            return norm(p.arg(1))
        raise Unsupported('relpath of unrelated paths %s %s' % (str(p)[:200], str(q)[:200]))
    I.natives['os.path.relpath'] = relpath
    I.natives['os.path.isfile'] = lambda I, a, k: uf('fs.isfile', cur_str().sort, BOOL)(to_z3(a[0]))
    I.natives['os.path.islink'] = lambda I, a, k: uf('fs.islink', cur_str().sort, BOOL)(to_z3(a[0]))


def writers(I):
    """files opened for writing: the list of chunks written, under I.ghost[('file', path id)]; read back with line_reader"""
    I.written = {}
    old = I.natives.get('builtins.open')

    def open_(I, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if mode != 'w':
            if old is None:
                raise Unsupported('open for %r' % (mode,))
            return old(I, a, k)
        p = to_z3(a[0])
        c = ListV(Seq(items=[]))
        I.written[p.get_id()] = (p, c)
        return CellV('wfile', p=a[0], lines=c)
    I.natives['builtins.open'] = open_
    I.natives['$enter:wfile'] = lambda I, a, k: a[0]
    I.natives['$exit:wfile'] = lambda I, a, k: None
    I.natives['$method:wfile.close'] = lambda I, a, k: None

    def write(I, a, k):
        c = a[0].d['lines']
        I.set_content(c, V.seq_append(c._c, a[1]))
    I.natives['$method:wfile.write'] = write


def written(I, p):
    """the chunks written to the file"""
    x = I.written.get(to_z3(p).get_id())
    return None if x is None else x[1]


# ---------------------------------------------------------------- text files of lines
def one_line(I, p):
    """this part of a text surely holds no line break"""
    from . import loops
    if isinstance(p, str):
        return '\n' not in p and '\r' not in p
    n = p.decl().name() if z3.is_app(p) else ''
    if n == 'if':
        return False            # one case each
    if n in ('lit', 'int2str'):
        return True
    return bool(I.entails(z_and(z_bool(loops.no_sep(I, p, '\n')), z_bool(loops.no_sep(I, p, '\r')))))


def text_files(I):
    """files opened for writing collect complete lines; the lines of files opened for reading come from I.files (path -> Seq of lines)"""
    escapes(I)
    I.written = {}
    I.files = []
    n = I.natives

    def open_(I, a, k):
        mode = k.get('mode', a[1] if len(a) > 1 else 'r')
        if set(k) - {'mode', 'encoding'} or k.get('encoding') not in (None, 'utf-8', 'utf8', 'UTF-8'):
            raise Unsupported('open with %s' % sorted(k))
        p = to_z3(a[0])
        if mode in ('w', 'wt'):
            c = CellV('wfile', p=a[0], lines=ListV(Seq(items=[])), pend='')
            I.written[p.get_id()] = (p, c)
            return c
        if mode not in ('r', 'rt'):
            raise Unsupported('open for %r' % (mode,))
        for q, seq in I.files:
            if q.eq(p):
                if seq.items is not None:
                    return CellV('seqview', seq=Seq(items=[I.cat(x, '\n') for x in seq.items]))
                return CellV('seqview', seq=Seq(n=seq.n, get=lambda j: I.cat(seq.get(j), '\n')))
        I.raise_('FileNotFoundError', a[0])
    n['builtins.open'] = open_
    for kind in ('wfile', 'seqview'):
        n['$enter:' + kind] = lambda I, a, k: a[0]
        n['$method:%s.__enter__' % kind] = lambda I, a, k: a[0]
    n['$exit:seqview'] = n['$method:seqview.close'] = lambda I, a, k: None
    n['$method:seqview.readlines'] = lambda I, a, k: ListV(a[0].d['seq'])
    n['$method:wfile.flush'] = lambda I, a, k: None

    def close(I, a, k):
        c = a[0]
        if not (isinstance(c.d['pend'], str) and c.d['pend'] == ''):
            I.set_content(c.d['lines'], V.seq_append(c.d['lines']._c, c.d['pend']))
            c.d['pend'] = ''
    n['$exit:wfile'] = n['$method:wfile.close'] = close

    def lines_of(I, s):
        cur, out = '', []
        todo = [s] if isinstance(s, str) else list(cur_str().parts(to_z3(s)))
        while todo:
            p = todo.pop(0)
            if not isinstance(p, str) and z3.is_app_of(p, z3.Z3_OP_ITE) and not one_line(I, p):
                todo[:0] = cur_str().parts(p.arg(1) if I.branch(p.arg(0)) else p.arg(2))
                continue
            if isinstance(p, str):
                if '\r' in p:
                    raise Unsupported('a carriage return is written to a file of lines')
                sg = p.split('\n')
                cur = I.cat(cur, sg[0])
                for x in sg[1:]:
                    out.append(cur)
                    cur = x
            elif one_line(I, p):
                cur = I.cat(cur, p)
            else:
                raise Unsupported('a line break may be written inside a line: %s' % str(p)[:120])
        return out, cur

    def write(I, a, k):
        c = a[0]
        out, cur = lines_of(I, I.cat(c.d['pend'], a[1]))
        for x in out:
            I.set_content(c.d['lines'], V.seq_append(c.d['lines']._c, x))
        if not (isinstance(cur, str) and cur == c.d['pend']):
            I.mutate(c)
            c.d['pend'] = cur
    n['$method:wfile.write'] = write

    def writelines(I, a, k):
        c = a[0]
        s = I.to_seq(a[1])
        its = I.concrete(s)
        if its is not None:
            for x in its:
                write(I, [c, x], {})
            return
        if c.d['pend'] != '':
            raise Unsupported('writelines after an unfinished line')
        j = z3.Int('wl!%d' % next(V._fc))
        out, cur = lines_of(I, s.get(j))
        if len(out) != 1 or cur != '':
            raise Unsupported('writelines of something else than lines')
        I.set_content(c.d['lines'], V.seq_concat(c.d['lines']._c, Seq(n=s.n, get=lambda i: lines_of(I, s.get(i))[0][0])))
    n['$method:wfile.writelines'] = writelines
    I.trusted.add('text files: every write appends to the file, reading iterates over the lines written')


def escapes(I):
    """the codecs unicode-escape (lit / nonlit): character-wise escaping to printable ASCII without line breaks and tabs, that keeps spaces and printable
    ASCII other than the backslash; decoding what was so encoded gives the text back"""
    n = I.natives
    st = cur_str().sort
    lit = uf('lit', st, st)
    nonlit = uf('nonlit', st, st)
    plain = lambda p: all(' ' <= ch <= '~' and ch != '\\' for ch in p)      # noqa
    digits = lambda p: z3.is_app(p) and p.decl().name() == 'int2str'       # noqa

    def join(I, xs):
        r = ''
        for x in xs:
            r = I.cat(r, x)
        return r

    def enc(I, s):
        return join(I, [p.encode('unicode-escape').decode() if isinstance(p, str) else p if digits(p) else lit(p) for p in cur_str().parts(to_z3(s))])

    def dec(I, s):
        out = []
        for p in cur_str().parts(to_z3(s)):
            if isinstance(p, str) and plain(p) or digits(p) if not isinstance(p, str) or plain(p) else False:
                out.append(p)
            elif not isinstance(p, str) and z3.is_app(p) and p.decl().eq(lit):
                out.append(p.arg(0))
            else:
                return nonlit(to_z3(s))
        return join(I, out)
    I.escape, I.unescape = enc, dec
    n['$lit'], n['$nonlit'] = (lambda I, a, k: enc(I, a[0])), (lambda I, a, k: dec(I, a[0]))
    I.trusted.add('codec unicode-escape: escaping works character by character, yields printable ASCII and is inverted by decoding')

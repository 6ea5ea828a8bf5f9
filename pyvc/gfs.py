"""A file system that the code under contract changes step by step (ghost state), with crashes and faults.

Each file of interest has an entry: does it exist, and its content.  Every operation that changes the disk is one step; after each step
the specification's `after(fs, kind, paths)` is called (that is every point at which the process can be killed), and each operation
may fail with an OSError (a branch of its own).  What was written to a file that is still open may or may not have reached the disk: its content is
complete only once it has been closed."""
import itertools
import z3
from . import values as V
from . import fs
from .values import *       # noqa

_n = itertools.count()


def same(a, b):
    return to_z3(a).eq(to_z3(b))


class GFS:
    def __init__(self, I, after=None, faults=True):
        self.I = I
        self.after = after or (lambda *a: None)
        self.faults = faults
        self.cell = CellV('fsstate', at=[])
        self.trace = []
        self.opaque_fault = 'RuntimeError'
        install(I, self)

    # ---- state
    def add(self, path, present, content=None):
        """a file that may exist at first; content: a 'node' cell"""
        self.I.mutate(self.cell)
        self.cell.d['at'] = self.cell.d['at'] + [(path, present, content)]

    def entry(self, path):
        for p, e, c in self.cell.d['at']:
            if same(p, path):
                return e, c
        return None

    def present(self, path):
        e = self.entry(path)
        return fs.exists(path) if e is None else e[0]

    def node(self, path):
        e = self.entry(path)
        return None if e is None else e[1]

    def put(self, path, present, content):
        at = [x for x in self.cell.d['at'] if not same(x[0], path)]
        self.I.mutate(self.cell)
        self.cell.d['at'] = at + [(path, present, content)]

    # ---- steps
    def step(self, kind, *paths):
        self.trace.append((kind, paths))
        self.after(self, kind, paths)

    def fault(self, what, exc='OSError'):
        I = self.I
        if self.faults and I.branch(z3.Bool('fails!%s!%d' % (what, next(_n)))):
            I.raise_(exc, what)

    def need(self, path):
        self.I.guard(self.present(path), 'FileNotFoundError', path)

    def open(self, path, mode, gz=False):
        I = self.I
        m = mode.replace('t', '').replace('+', '')
        bin_ = 'b' in m or gz
        m = m.replace('b', '')
        if m == 'r':
            self.need(path)
            self.fault('open')
            return CellV('gread', path=path, node=self.node(path))
        if m == 'w':
            self.fault('create')
            node = CellV('node', lines=ListV(Seq(items=[])), pend='', objs=[], closed=False)
        elif m == 'a':
            self.fault('append')
            node = self.node(path)
            if node is None:
                if I.branch(self.present(path)):
                    raise Unsupported('appending to a file')
                node = CellV('node', lines=ListV(Seq(items=[])), pend='', objs=[], closed=False)
            else:
                I.mutate(node)
                node.d['closed'] = False
        elif m == 'x':
            I.guard(z_not(self.present(path)), 'FileExistsError', path)
            node = CellV('node', lines=ListV(Seq(items=[])), pend='', objs=[], closed=False)
        else:
            raise Unsupported('open for %r' % (mode,))
        self.put(path, True, node)
        self.step('write', path)
        return CellV('gwrite', path=path, node=node)

    def remove(self, path):
        self.need(path)
        self.fault('remove')
        self.put(path, False, None)
        self.step('remove', path)

    def rename(self, a, b):
        self.need(a)
        self.fault('rename')
        e, c = self.entry(a) or (None, None)
        self.put(a, False, None)
        self.put(b, True, c)
        self.step('rename', a, b)

    def copy(self, a, b):
        """copying is not atomic: the target is there before it is complete"""
        self.need(a)
        self.fault('copy')
        self.put(b, True, CellV('node', lines=ListV(Seq(items=[])), pend='', objs=[], closed=False))
        self.step('write', b)
        self.put(b, True, self.node(a))
        self.step('write', b)


def lines_of(I, s):
    """the complete lines and the rest of a text"""
    cur, out = '', []
    todo = [s] if isinstance(s, str) else list(cur_str().parts(to_z3(s)))
    while todo:
        p = todo.pop(0)
        if isinstance(p, str):
            sg = p.split('\n')
            cur = I.cat(cur, sg[0])
            for x in sg[1:]:
                out.append(cur)
                cur = x
        elif z3.is_app_of(p, z3.Z3_OP_ITE):
            todo[:0] = cur_str().parts(p.arg(1) if I.branch(p.arg(0)) else p.arg(2))
        elif fs.one_line(I, p):
            cur = I.cat(cur, p)
        else:
            raise Unsupported('a line break may be written inside a line: %s' % str(p)[:120])
    return out, cur


def install(I, G):
    n = I.natives
    fs.install_paths(I)
    n['os.path.exists'] = lambda I, a, k: G.present(a[0])
    n['os.path.isfile'] = lambda I, a, k: G.present(a[0])
    n['os.path.lexists'] = n['os.path.exists']

    def makedirs(I, a, k):
        G.fault('makedirs')
        ok = k.get('exist_ok', a[2] if len(a) > 2 else False)
        if ok is not True and G.entry(a[0]) is None and G.faults:
            # some other process may have made it in the meantime
            G.fault('makedirs', 'FileExistsError')
        G.step('makedirs', a[0])
    n['os.makedirs'] = n['os.mkdir'] = makedirs

    def arg(a, k, i, name, default=None):
        return a[i] if len(a) > i else k.get(name, default)

    def open_(I, a, k):
        return G.open(a[0], arg(a, k, 1, 'mode', 'r'))
    n['builtins.open'] = n['io.open'] = open_
    n['gzip.GzipFile'] = n['gzip.open'] = lambda I, a, k: G.open(a[0] if a else k['filename'], arg(a, k, 1, 'mode', 'rb'), gz=True)
    n['os.rename'] = n['os.replace'] = n['shutil.move'] = lambda I, a, k: G.rename(a[0], a[1])
    n['os.remove'] = n['os.unlink'] = lambda I, a, k: G.remove(a[0])
    for f in ('copy', 'copy2', 'copyfile'):
        n['shutil.' + f] = lambda I, a, k: G.copy(a[0], a[1])
    for kind in ('gwrite', 'gread'):
        n['$enter:' + kind] = n['$method:%s.__enter__' % kind] = lambda I, a, k: a[0]

    def close(I, a, k):
        nd = a[0].d['node']
        if not nd.d['closed']:
            # an error while flushing leaves the file incomplete
            G.fault('close')
            I.mutate(nd)
            nd.d['closed'] = True
            G.step('close', a[0].d['path'])
    n['$exit:gwrite'] = n['$method:gwrite.close'] = close
    n['$exit:gread'] = n['$method:gread.close'] = n['$method:gread.flush'] = lambda I, a, k: None
    def read(I, a, k):
        nd = a[0].d['node']
        if nd is None or nd.d['lines']._c.items is None or a[1:]:
            raise Unsupported('read')
        t = ''
        for x in nd.d['lines']._c.items:
            t = I.cat(I.cat(t, x), '\n')
        return I.cat(t, nd.d['pend'])
    n['$method:gread.read'] = read
    n['$method:gwrite.flush'] = lambda I, a, k: None
    n['$method:gwrite.fileno'] = lambda I, a, k: 3
    n['os.fsync'] = lambda I, a, k: None

    def write(I, a, k):
        nd = a[0].d['node']
        if nd.d['closed']:
            I.raise_('ValueError', 'I/O operation on closed file')
        G.fault('write')
        out, cur = lines_of(I, I.cat(nd.d['pend'], a[1]))
        for x in out:
            I.set_content(nd.d['lines'], V.seq_append(nd.d['lines']._c, x))
        I.mutate(nd)
        nd.d['pend'] = cur
        G.step('write', a[0].d['path'])
    n['$method:gwrite.write'] = write

    def writelines(I, a, k):
        its = I.concrete(I.to_seq(a[1]))
        if its is None:
            raise Unsupported('writelines')
        for x in its:
            write(I, [a[0], x], {})
    n['$method:gwrite.writelines'] = writelines

    def dump(I, a, k):
        nd = (a[1] if len(a) > 1 else k['file']).d['node']
        if nd.d['closed']:
            I.raise_('ValueError', 'I/O operation on closed file')
        G.fault('dump')
        I.mutate(nd)
        nd.d['objs'] = nd.d['objs'] + [snapshot(I, a[0])]
        G.step('write', (a[1] if len(a) > 1 else k['file']).d['path'])
    n['pickle.dump'] = dump

    def load(I, a, k):
        G.fault('load', 'EOFError')
        return G.loaded(a[0])
    n['pickle.load'] = load
    n['time.time'] = lambda I, a, k: I.fresh(SInt, 'time')
    I.trusted.add('files: renaming is atomic; a file holds what was written to it once it has been closed')


def snapshot(I, v):
    """the value as it is now"""
    if isinstance(v, ListV):
        return ListV(v._c)
    if isinstance(v, DictV):
        return DictV(v._c)
    if isinstance(v, ObjV):
        return ObjV(v.cls, {k: snapshot(I, x) for k, x in v.fields.items()})
    return v


def content(nd):
    """(lines, unfinished line, pickled objects, closed)"""
    return nd.d['lines']._c, nd.d['pend'], nd.d['objs'], nd.d['closed']

"""C20 Distinct source files map to distinct, mirrored output files."""
from specs.lib import *
from pyvc import fs

D = 'codeprep.pipeline.dataset'
SRT = lambda: cur_str().sort                                     # noqa


def base(I):
    fs.static(I)
    fs.bytes_as_text(I)
    fs.relative(I)


class Files(Contract):
    """Dataset.get_all_files: paths relative to the dataset (proved by target select)"""
    qual = D + ':Dataset.get_all_files'

    def __init__(self, files):
        self.files = files

    def apply(self, I, b):
        return CellV('seqview', seq=self.files._c)


class Stamp(Contract):
    qual = 'codeprep.dirutils:get_timestamp'

    def apply(self, I, b):
        return I.fresh(SStr, 'timestamp')


def dataset(I, files):
    I.contracts[Files.qual] = Files(files)
    I.contracts[Stamp.qual] = Stamp()
    P = I.fresh(SStr, 'path')
    pc = I.fresh(SOpaque(z3.DeclareSort('PrepConfig')), 'prep_config')
    I.natives['$str'] = lambda I, a, k: z3.Function('str!' + a[0].sort().name(), a[0].sort(), SRT())(a[0]) if is_term(a[0]) and a[0].sort().name() == 'PrepConfig' else None
    for nm in ('DEFAULT_PARSED_DATASETS_DIR', 'DEFAULT_PREP_DATASETS_DIR'):
        I.goverlay[(D, nm)] = I.fresh(SStr, nm)
    over = I.fresh(SStr, 'output') if I.branch(I.fresh(SBool, 'output given')) else None
    if over is not None:
        I.assume(cur_str().length(over) > 0)
    ds = I.call(I.fn(D + ':Dataset'), [P, pc, None, None, None, over], {'suppress_caching': False})
    return ds, P, over


ITER = '''
def client(src):
    return [f for f in src.file_iterator()]
'''


def t_map(single):
    def run(I):
        base(I)
        files = fresh_list(I, SStr, 'files')
        ds, P, over = dataset(I, files)
        n = files._c.n
        isfile = fs.uf('fs.isfile', SRT(), BOOL)
        o, a, b = (I.getattr(ds, x) for x in ('original', 'parsed', 'preprocessed'))
        Q, R = to_z3(I.getattr(a, 'path')), to_z3(I.getattr(b, 'path'))
        I.assume(isfile(P) if single else z3.Not(isfile(P)), z3.Not(isfile(Q)), z3.Not(isfile(R)))
        bn = fs.uf('path.basename', SRT(), SRT())
        nm = fs.uf('path.norm', SRT(), SRT())
        rel = lambda j: nm(files._c.get(j))                          # noqa
        if single:
            # a data set that is one file: its only file is the base name (proved by target select)
            I.assume(n == 1, files._c.get(0) == bn(P), nm(bn(P)) == bn(P))
        else:
            # files lie below the dataset directory: their relative path is not the directory itself
            I.assume(forall_int(lambda j: z3.And(cur_str().length(files._c.get(j)) > 0, rel(j) != to_z3('.')), 0, n))
        g = client(I, ITER)
        if over is not None:
            d = R
            I.ensure('an output directory given by the user is used', z_bool(z3.is_app(d) and d.decl().name() == 'path.join' and I.entails(d.arg(0) == over)))
        s1, s2 = I.getattr(a, '_suffix'), I.getattr(b, '_suffix')
        I.ensure('fixed suffixes', z_bool(isinstance(s1, str) and isinstance(s2, str) and s1 != s2 and '' not in (s1, s2) and '/' not in s1 + s2))
        src = lambda j: P if single else fs.pjoin(P, files._c.get(j))          # noqa
        mid = lambda j: fs.pjoin(Q, I.cat(files._c.get(j), s1))                # noqa

        def cands(v):
            out = []
            for nm, c, e in v.seqs():
                for l, f in (('source', src), ('parsed', mid)):
                    try:
                        out.append(('%s holds %s files' % (nm, l), forall_int(lambda j: eqv(c.get(j), f(j)), 0, v.k)))
                    except (Unsupported, z3.Z3Exception):
                        pass
            return out
        I.loop_cands.append(cands)
        first = as_seq(I.call(g, [o], {}))
        I.ensure('every source file once', eqv(first.n, n))
        I.ensure('the source files are those of the dataset', forall_int(lambda j: eqv(first.get(j), src(j)), 0, n))
        second = as_seq(I.call(g, [a], {}))
        I.ensure('every parsed file once', eqv(second.n, n))
        I.ensure('the parsed files are those of the dataset', forall_int(lambda j: eqv(second.get(j), mid(j)), 0, n))
        name = I.fn(D + ':SubDataset.get_new_file_name')
        i, j = fresh_int(I, 'i', 0), fresh_int(I, 'j', 0)
        if single:
            i, j = z3.IntVal(0), z3.IntVal(0)
        I.assume(i < n, j < n)
        out = {}
        for x in (i, j):
            out[1, x] = I.call(name, [o, src(x), a], {})
            I.ensure('the parsed file mirrors the source file', eqv(out[1, x], fs.pjoin(Q, I.cat(rel(x), s1))))
            I.ensure('the parsed file is the one read afterwards', eqv(fs.norm(I.cat(files._c.get(x), s1)), I.cat(rel(x), s1)))
            out[2, x] = I.call(name, [a, mid(x), b], {})
            I.ensure('the preprocessed file mirrors the source file', eqv(out[2, x], fs.pjoin(R, I.cat(rel(x), s2))))
        # joining with the same directory and appending the same suffix are injective
        for k, d, s in ((1, Q, s1), (2, R, s2)):
            p, q = (to_z3(I.cat(rel(x), s)) for x in (i, j))
            I.assume(z3.Implies(fs.pjoin(d, p) == fs.pjoin(d, q), p == q), z3.Implies(p == q, rel(i) == rel(j)))
        if not single:
            I.assume(rel(i) != rel(j))
            for k in (1, 2):
                I.ensure('different files have different outputs', z3.Not(z_bool(eqv(out[k, i], out[k, j]))))
    return run


def t_ext(I):
    fs.bytes_as_text(I)
    name = I.fresh(SStr, 'name')
    exts = fresh_list(I, SStr, 'extensions')
    ends = lambda e: to_z3(z_bool(I.truth(I.method(name, 'endswith', I.cat('.', e)))))      # noqa
    has = lambda hi: exists_int(lambda j: ends(exts._c.get(j)), 0, hi)            # noqa
    I.loop_cands.append(lambda v: [('none so far', forall_int(lambda j: z3.Not(ends(exts._c.get(j))), 0, v.k))])
    r = I.call(I.fn('codeprep.fileutils:has_one_of_extensions'), [name, exts], {})
    r = to_z3(z_bool(I.truth(r)))
    n = exts._c.n
    none = forall_int(lambda j: z3.Not(ends(exts._c.get(j))), 0, n)
    I.ensure('true only if the name ends with a dot and one of the extensions', z3.Implies(r, z3.Not(none)))
    I.ensure('true if the name ends with a dot and one of the extensions', z3.Implies(z3.Not(r), none))


def t_norm(I):
    a, b = I.fresh(SStr, 'a'), I.fresh(SStr, 'b')
    sa, sb = (as_seq(I.method(x, 'split', '|')) for x in (a, b))
    q, j = z3.Const('q', SRT()), z3.Int('j')
    # the same extensions, in any order and any number of times
    ia, ib = fs.uf('in.a', SRT(), INT), fs.uf('in.b', SRT(), INT)
    I.assume(forall_int(lambda j: z3.And(0 <= ib(sa.get(j)), ib(sa.get(j)) < sb.n, to_z3(sb.get(ib(sa.get(j)))) == to_z3(sa.get(j))), 0, sa.n))
    I.assume(forall_int(lambda j: z3.And(0 <= ia(sb.get(j)), ia(sb.get(j)) < sa.n, to_z3(sa.get(ia(sb.get(j)))) == to_z3(sb.get(j))), 0, sb.n))
    I.assume(cur_str().length(a) > 0, cur_str().length(b) > 0)
    f = I.fn(D + ':normalize_extension_string')
    ra, rb = as_seq(I.call(f, [a], {})), as_seq(I.call(f, [b], {}))
    I.ensure('order and repetition do not matter', eq_all(ra, rb))
    w = fs.uf('in.r', SRT(), INT)
    k = fresh_int(I, 'k', 0)
    I.assume(k < ra.n)
    I.ensure('only requested extensions', z3.Not(forall_int(lambda j: to_z3(sa.get(j)) != to_z3(ra.get(k)), 0, sa.n)))
    m = fresh_int(I, 'm', 0)
    I.assume(m < sa.n)
    I.ensure('every requested extension', z3.Not(forall_int(lambda j: to_z3(sa.get(m)) != to_z3(ra.get(j)), 0, ra.n)))
    x = I.branch(I.fresh(SBool, 'none'))
    r = I.call(f, [None if x else ''], {})
    I.ensure('no extensions: no selection', z_not(z_bool(I.truth(r))))


class HasExt(Contract):
    """has_one_of_extensions: whether the name ends with a dot and one of the extensions (proved by target extensions)"""
    qual = 'codeprep.fileutils:has_one_of_extensions'

    def __init__(self, exts):
        self.exts = exts

    def holds(self, name):
        return fs.uf('ends.with.ext', SRT(), BOOL)(to_z3(name))

    def apply(self, I, b):
        I.require('the requested extensions are looked for', eq_all(b['extensions'], self.exts))
        return self.holds(b['name'])


SAVE = '''
def client(walk, path, d, f, dirs, exts):
    return [x for x in walk(path, d, f, dirs, exts)]
'''


def t_select(single):
    def run(I):
        base(I)
        fs.writers(I)
        rp = fs.uf('bytes.repr', SRT(), SRT())
        I.natives['$strstr'] = lambda I, a, k: rp(to_z3(a[0]))
        rel_ = fs.uf('path.rel', SRT(), SRT(), SRT())
        I.natives['os.path.relpath'] = lambda I, a, k: rel_(to_z3(a[0]), to_z3(a[1]))
        P, dp, fp = (I.fresh(SStr, x) for x in ('path', 'dir_list', 'file_list'))
        exts = None if I.branch(I.fresh(SBool, 'no extensions')) else fresh_list(I, SStr, 'extensions')
        if exts is not None:
            I.assume(exts._c.n > 0)
            I.contracts[HasExt.qual] = HasExt(exts)
        isfile = fs.uf('fs.isfile', SRT(), BOOL)
        islink = fs.uf('fs.islink', SRT(), BOOL)
        I.assume(isfile(P) if single else z3.Not(isfile(P)))
        W = fresh_list(I, STuple(SStr, SList(SStr), SList(SStr)), 'walk')
        follow = []

        def walk(I, a, k):
            I.require('the directory itself is walked', eqv(a[0], P))
            I.require('links to directories are followed', z_bool(I.truth(k.get('followlinks', False))))
            return CellV('seqview', seq=W._c)
        I.natives['os.walk'] = walk
        w = W._c
        root = lambda i: w.get(i)[0]                       # noqa
        files = lambda i: as_seq(w.get(i)[2])              # noqa
        name = lambda i, j: fs.pjoin(rel_(root(i), P), files(i).get(j))         # noqa
        sel = lambda i, j: z_bool(z_and(True if exts is None else HasExt(exts).holds(name(i, j)), z3.Not(islink(fs.pjoin(root(i), files(i).get(j))))))    # noqa
        pos = z3.Function('pos', INT, INT, INT)
        pi, pj = z3.Function('pi', INT, INT), z3.Function('pj', INT, INT)
        i, j = z3.Ints('pos!i pos!j')
        nf = lambda i: to_z3(files(i).n)                   # noqa
        inr = z3.And(0 <= i, i < w.n, 0 <= j, j < nf(i))
        I.assume(pos(0, 0) == 0)
        I.assume(z3.ForAll([i, j], z3.Implies(inr, pos(i, j + 1) == pos(i, j) + z3.If(to_z3(sel(i, j)), 1, 0)), patterns=[pos(i, j + 1)]))
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w.n), pos(i + 1, 0) == pos(i, nf(i))), patterns=[pos(i + 1, 0)]))
        # positions of selected files are distinct: pi/pj invert pos on them
        I.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr, to_z3(sel(i, j))), z3.And(pi(pos(i, j)) == i, pj(pos(i, j)) == j)), patterns=[pos(i, j)]))

        def item(c, p, t):
            return eqv(c.get(p), t) if c.items != [] else False

        def upto(v, K, L):
            """what is known after all files of directories before K and the first L files of directory K"""
            out = []
            done = lambda x, y: z3.Or(z3.And(0 <= x, x < K, 0 <= y, y < nf(x)), z3.And(x == K, 0 <= y, y < L))        # noqa
            hold = {to_z3(q).get_id(): h.uid for q, h in I.written.values()}
            for sl, (nm, c, e) in zip(v.slots, v.pairs()):
                c = as_seq(c)
                if not isinstance(c, Seq):
                    continue
                if getattr(sl.holder, 'uid', -1) == hold.get(dp.get_id()):
                    continue
                is_line = getattr(sl.holder, 'uid', -1) == hold.get(fp.get_id())
                for lab, f in ([('line', lambda t: I.cat(rp(t), chr(10)))] if is_line else [('name', lambda t: t)]):
                    x, y, p = z3.Ints('up!x up!y up!p')
                    try:
                        out.append((nm + ' len ' + lab, eqv(c.n, pos(K, L))))
                        out.append((nm + ' all ' + lab, z3.ForAll([x, y], z3.Implies(z3.And(done(x, y), to_z3(sel(x, y))),
                                    z3.And(0 <= pos(x, y), pos(x, y) < to_z3(c.n), z_bool(item(c, pos(x, y), f(name(x, y)))))), patterns=[pos(x, y)])))
                        out.append((nm + ' only ' + lab, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < to_z3(c.n)),
                                    z3.And(done(pi(p), pj(p)), to_z3(sel(pi(p), pj(p))), pos(pi(p), pj(p)) == p)), patterns=[pi(p)])))
                    except (Unsupported, z3.Z3Exception, AttributeError):
                        pass
            return out

        def cands(v):
            out = []
            s = v.seq
            if s is None or single:
                return out
            if s is w or to_z3(s.n).eq(to_z3(w.n)):
                return upto(v, v.k, 0)
            # an inner loop: over the files of the directory the outer loop is at
            t = to_z3(s.n)
            for K in outer(t):
                out += upto(v, K, v.k)
            return out

        def outer(t):
            if z3.is_app(t) and t.num_args() == 1 and nf(t.arg(0)).eq(t):
                return [t.arg(0)]
            return []
        I.loop_cands.append(cands)
        g = client(I, SAVE)
        r = as_seq(I.call(g, [I.fn('codeprep.dirutils:walk_and_save'), P, dp, fp, False, exts], {}))
        lines = fs.written(I, fp)
        I.ensure('the file list is written', z_bool(lines is not None))
        lines = lines._c
        I.ensure('one line per file', eqv(lines.n, r.n))
        if single:
            I.ensure('a dataset that is a file has that file', eqv(r.n, 1))
            I.ensure('its name is the base name', eqv(r.get(0), fs.uf('path.basename', SRT(), SRT())(P)))
            I.ensure('the line is its representation', eqv(lines.get(0), I.cat(rp(to_z3(r.get(0))), chr(10))))
            return
        x, y, p = fresh_int(I, 'x', 0), fresh_int(I, 'y', 0), fresh_int(I, 'p', 0)
        I.assume(x < w.n, y < nf(x), to_z3(sel(x, y)), p < to_z3(r.n), pos(x, y) == pos(x, y), pi(p) == pi(p))
        I.ensure('every selected file is yielded under its relative path', z3.And(0 <= pos(x, y), pos(x, y) < to_z3(r.n), z_bool(eqv(r.get(pos(x, y)), name(x, y)))))
        I.ensure('its line is its representation', eqv(lines.get(pos(x, y)), I.cat(rp(name(x, y)), chr(10))))
        I.ensure('only selected files are yielded', z3.And(0 <= pi(p), pi(p) < w.n, 0 <= pj(p), pj(p) < nf(pi(p)), to_z3(sel(pi(p), pj(p))), pos(pi(p), pj(p)) == p))
    return run


class Save(Contract):
    """walk_and_save yields the selected files and writes one line (its representation) for each (proved by select-dir, select-file)"""
    qual = 'codeprep.dirutils:walk_and_save'

    def __init__(self, path, exts, files):
        self.path, self.exts, self.files, self.saved_to = path, exts, files, None

    def apply(self, I, b):
        I.require('the dataset directory is searched', eqv(b['path'], self.path))
        I.require('the extensions of the dataset are used', z_bool(eqv(b['extensions'], None)) if self.exts is None else eq_all(b['extensions'], self.exts))
        I.require('files, not directories', z_not(z_bool(I.truth(b['return_dirs_instead_of_regular_files']))))
        self.saved_to = b['file_list_path']
        return CellV('seqview', seq=self.files._c)


class Const(Contract):
    def __init__(self, qual, val):
        self.qual, self.val = qual, val

    def apply(self, I, b):
        return self.val


GET = '''
def client(ds):
    return [x for x in ds.get_all_files()]
'''


def t_cached(I):
    base(I)
    files = fresh_list(I, SStr, 'files')
    exts = None if I.branch(I.fresh(SBool, 'no extensions')) else fresh_list(I, SStr, 'extensions')
    ds, P, over = dataset(I, files)
    del I.contracts[Files.qual]
    ds.fields['_normalized_extension_list'] = exts
    ds.fields['_suppress_caching'] = I.fresh(SBool, 'suppress_caching')
    for nm in ('DEFAULT_FILE_LIST_DIR',):
        I.goverlay[(D, nm)] = I.fresh(SStr, nm)
    save = I.contracts[Save.qual] = Save(P, exts, files)
    ready = []

    class Ready(Contract):
        qual = D + ':set_path_ready'

        def apply(self, I, b):
            I.require('only a complete list is marked as ready', z_bool(save.saved_to is not None))
            return None
    I.contracts[Ready.qual] = Ready()
    I.natives['os.makedirs'] = lambda I, a, k: None
    rp = fs.uf('bytes.repr', SRT(), SRT())
    I.loop_cands.append(lambda v: [(nm + ' copies', forall_int(lambda j: eqv(c.get(j), files._c.get(j)), 0, v.k)) for nm, c, e in v.seqs() if c.items != [] or v.k is not None and hint(v.k) == 0])
    g = client(I, GET)
    for first in (True, False):
        I.contracts[D + ':Dataset.files_need_to_be_saved'] = Const(D + ':Dataset.files_need_to_be_saved', first)
        if not first:
            def open_(I, a, k):
                I.require('the list that was saved is read', z_bool(eqv(a[0], save.saved_to)))
                I.require('it is only read', z_bool((a[1] if len(a) > 1 else 'r') == 'r'))
                return CellV('seqview', seq=Seq(n=files._c.n, get=lambda j: I.cat(rp(files._c.get(j)), chr(10))))

            def leval(I, a, k):
                ps = [p for p in cur_str().parts(to_z3(a[0])) if is_term(p) or p != chr(10)]
                if len(ps) == 1 and is_term(ps[0]) and ps[0].decl().eq(rp):
                    return ps[0].arg(0)
                raise Unsupported('literal_eval of something else')
            I.natives['builtins.open'] = open_
            I.natives['ast.literal_eval'] = leval
            I.natives['$enter:seqview'] = lambda I, a, k: a[0]
            I.natives['$exit:seqview'] = lambda I, a, k: None
        r = as_seq(I.call(g, [ds], {}))
        I.ensure('the files are those selected' if first else 'a saved list gives the same files', eq_all(r, files))


T = 'pipeline.dataset.'
TARGETS = [
    Target('map-dir', 'C20', [T + 'SubDataset.file_iterator', T + 'SubDataset.get_new_file_name', T + 'Dataset.__init__'], t_map(False), str_mode='atom'),
    Target('map-file', 'C20', [T + 'SubDataset.file_iterator', T + 'SubDataset.get_new_file_name', T + 'Dataset.__init__'], t_map(True), str_mode='atom'),
    Target('extensions', 'C20', ['fileutils.has_one_of_extensions'], t_ext, str_mode='atom'),
    Target('normalize', 'C20', [T + 'normalize_extension_string'], t_norm, str_mode='atom'),
    Target('select-dir', 'C20', ['dirutils.walk_and_save'], t_select(False), str_mode='atom'),
    Target('select-file', 'C20', ['dirutils.walk_and_save'], t_select(True), str_mode='atom'),
    Target('cached', 'C20', ['pipeline.dataset.Dataset.get_all_files'], t_cached, str_mode='atom'),
]

ASSUMPTIONS = [
    'bytes of paths are modelled as the text they encode',
    'os.path.join(d, .) is injective for relative paths; normalising a relative path that ends with a file name keeps a suffix without "/" appended to it',
    'os.walk lists every file below the directory once; files of different directories have different normalised relative paths',
    'ast.literal_eval inverts repr on bytes, and repr of bytes has no line break',
]

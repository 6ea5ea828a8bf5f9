"""C21 A stage never reuses outdated or unfinished results.

Contracts of the completion marks (ready, outdated, set ready, archive: a ghost file system with crash points), of the four stage functions over ghost states of
the three results (complete? marked? changed?), of the two runs that mark their result complete, and of the writing of the vocabulary."""
from specs.lib import *
from specs import c13
from pyvc import fs, gfs, loops

D = 'codeprep.pipeline.dataset'
ST = 'codeprep.pipeline.stages'
PP = 'codeprep.pipeline.parse_projects'
TR = 'codeprep.pipeline.to_repr'
V_ = 'codeprep.pipeline.vocab'
VL = 'codeprep.pipeline.vocabloader'


def paths(I):
    fs.install_paths(I)
    A = cur_str().sort
    dn, bn = fs.uf('path.dirname', A, A), fs.uf('path.basename', A, A)

    def split(p):
        p = to_z3(p)
        if z3.is_app(p) and p.decl().name() == 'path.join':
            return p.arg(0), p.arg(1)
        return dn(p), bn(p)
    I.natives['os.path.split'] = lambda I, a, k: split(a[0])
    I.natives['os.path.dirname'] = lambda I, a, k: split(a[0])[0]
    I.natives['os.path.basename'] = lambda I, a, k: split(a[0])[1]


class Stamp(Contract):
    """get_timestamp (target stamp): tells when the path was last changed"""
    qual = 'codeprep.dirutils:get_timestamp'

    def __init__(self):
        self.at = {}

    def apply(self, I, b):
        key = to_z3(b['path']).get_id()
        if key not in self.at:
            self.set(I, b['path'])
        return self.at[key][1]

    def set(self, I, p):
        s = I.fresh(SStr, 'stamp')
        I.assume(cur_str().length(s) > 0)
        for c in '\n\r':
            I.assume(z_bool(loops.no_sep(I, s, c)))
        self.at[to_z3(p).get_id()] = (p, s)
        return s


def fn(I, name):
    return I.fn(D + ':' + name)


def marked(I):
    """a path that has just been marked complete: (path, file system, its mark, stamp contract)"""
    P = I.fresh(SStr, 'path')
    k = I.contracts[Stamp.qual] = Stamp()
    hook = [None]
    G = gfs.GFS(I, lambda *a: hook[0] and hook[0](*a), faults=False)
    paths(I)
    content = CellV('node', lines=ListV(Seq(items=[])), pend='', objs=[], closed=True)
    G.add(P, True, content)
    k.set(I, P)
    I.call(fn(I, 'set_path_ready'), [P], {})
    others = [p for p, _, _ in G.cell.d['at'] if not gfs.same(p, P)]
    I.ensure('one mark', len(others) == 1)
    if len(others) != 1:
        raise PathPruned()
    return P, G, others[0], k, content, hook


def t_marks(I):
    """a marked path is ready and up to date until it changes"""
    P, G, M, k, content, hook = marked(I)
    I.ensure('the result is left alone', G.present(P) is True and G.node(P) is content)
    ready, old = fn(I, 'is_path_ready'), fn(I, 'is_path_outdated')
    n0 = len(G.trace)
    I.ensure('marked: ready', z_bool(I.truth(I.call(ready, [P], {}))))
    I.ensure('marked: up to date', z_not(z_bool(I.truth(I.call(old, [P], {})))))
    s0 = k.at[to_z3(P).get_id()][1]
    s1 = k.set(I, P)
    I.assume(s1 != s0)
    I.ensure('changed: still ready', z_bool(I.truth(I.call(ready, [P], {}))))
    I.ensure('changed: outdated', z_bool(I.truth(I.call(old, [P], {}))))
    mark = G.node(M)
    p, m = I.fresh(SBool, 'result there'), I.fresh(SBool, 'mark there')
    c = I.fresh(SStr, 'text of the mark')
    nd = CellV('node', lines=ListV(Seq(items=[])), pend=c, objs=[], closed=True)
    G.put(P, p, content)
    G.put(M, m, nd)
    I.ensure('ready: result and mark are there', z_iff(I.truth(I.call(ready, [P], {})), z_and(p, m)))
    o = I.outcome(old, [P], {})
    if o[0] == 'ok':
        I.ensure('up to date only if marked with the present time stamp', z_implies(z_not(I.truth(o[1])), z_and(m, eqv(c, s1))))
        I.ensure('outdated only if it changed', z_implies(z_bool(I.truth(o[1])), z_not(eqv(c, s1))))
    else:
        I.ensure('an error only without mark', z_not(m))
    I.ensure('asking changes nothing', len(G.trace) == n0)


def z_implies(a, b):
    return z_or(z_not(z_bool(a)), z_bool(b))


def t_set(I):
    """marking, stopped at any point: the result is untouched, nothing else is, the mark is not taken for another time stamp"""
    P = I.fresh(SStr, 'path')
    k = I.contracts[Stamp.qual] = Stamp()
    content = CellV('node', lines=ListV(Seq(items=[])), pend='', objs=[], closed=True)

    def after(G, kind, ps):
        I.ensure('the result is left alone', G.present(P) is True and G.node(P) is content)
        for p, e, c in G.cell.d['at']:
            if not gfs.same(p, P) and c is not None:
                t = I.natives['$method:gread.read'](I, [CellV('gread', path=p, node=c)], {})
                I.ensure('the mark tells the time stamp, or nothing yet', z_or(eqv(t, ''), eqv(t, s0)))
    G = gfs.GFS(I, after)
    paths(I)
    G.add(P, True, content)
    s0 = k.set(I, P)
    out = I.outcome(fn(I, 'set_path_ready'), [P], {})
    if out[0] == 'ok':
        I.ensure('marked', len(G.cell.d['at']) == 2)


def t_archive(I):
    """archiving, stopped at any point: a changed result is never left without its mark (it would be taken for an unfinished one and be reused)"""
    P, G, M, k, content, hook = marked(I)
    dirs = I.fresh(SStr, 'DEFAULT_PREP_DATASETS_DIR')
    I.goverlay[(D, 'DEFAULT_PREP_DATASETS_DIR')] = dirs
    k.set(I, P)

    def after(G, kind, ps):
        I.ensure('a changed result keeps its mark', z_implies(z_bool(G.present(P)), z_bool(G.present(M))))
        I.ensure('the changed result is not lost', any(c is content and e is True for _, e, c in G.cell.d['at']))
    hook[0] = after
    G.faults = True
    out = I.outcome(fn(I, 'archive_path'), [P], {})
    if out[0] != 'ok':
        return
    I.ensure('the result has gone', z_not(z_bool(G.present(P))))
    I.ensure('and its mark', z_not(z_bool(G.present(M))))
    G.faults = False
    I.ensure('no longer ready', z_not(I.truth(I.call(fn(I, 'is_path_ready'), [P], {}))))


# ---- the stages
class W:
    """the three results of a dataset: ready (there and marked), outdated (changed since it was marked); done: computed anew by this run"""

    def __init__(self, I, voc):
        self.I = I
        self.names = ['parsed', 'preprocessed', 'vocabulary']
        self.path = {}
        self.r = {n: I.fresh(SBool, n + ' ready') for n in self.names}
        self.o = {n: I.fresh(SBool, n + ' outdated') for n in self.names}
        self.r0, self.o0 = dict(self.r), dict(self.o)
        self.done, self.archived, self.failed = [], [], False
        self.computed = []
        sd = I.fn(D + ':SubDataset')
        pc, bc = I.fresh(SStr, 'prep_config'), I.fresh(SStr, 'vocab_config')
        paths(I)
        self.ds = ds = ObjV(I.fn(D + ':Dataset'), {'_path': I.fresh(SStr, 'dataset'), '_prep_config': pc, '_normalized_extension_list': None,
                                                   '_custom_bpe_config': None, '_dataset_last_modified': I.fresh(SStr, 'modified'),
                                                   '_bpe_config': None, '_suppress_caching': I.fresh(SBool, 'suppress_caching')})
        for n, f in (('original', '_original'), ('parsed', '_parsed'), ('preprocessed', '_preprocessed')):
            p = ds.fields['_path'] if n == 'original' else I.fresh(SStr, n)
            self.path[n] = p
            ds.fields[f] = ObjV(sd, {'_dataset': ds, '_path': p, '_suffix': '.' + n})
        if voc == 'base':
            ds.fields['_bpe_config'] = CellV('bpeconfig')
            I.natives['$method:bpeconfig.to_prep_config'] = lambda I, a, k: bc
        I.goverlay[(D, 'USER_VOCAB_DIR')] = I.fresh(SStr, 'USER_VOCAB_DIR')
        if voc:
            self.path['vocabulary'] = I.getattr(ds, 'path_to_bpe_vocab_file' if voc == 'base' else 'path_to_vocab_file')
            self.vocdir = I.getattr(ds, 'base_bpe_vocab_path' if voc == 'base' else 'vocab_path')
            p = to_z3(self.path['vocabulary'])
            I.ensure('the vocabulary is in its directory', z3.is_app(p) and p.decl().name() == 'path.join' and gfs.same(p.arg(0), self.vocdir) and
                     gfs.same(p.arg(1), 'vocab'))
        w = self

        class Path(Contract):
            def __init__(self, name, f):
                self.qual, self.f = D + ':' + name, f

            def apply(self, I, b):
                for n in w.names:
                    if n in w.path and gfs.same(b['path'], w.path[n]):
                        return self.f(n)
                I.require('the results of this dataset', False)
        for name, f in (('is_path_ready', w.ready), ('is_path_outdated', w.outdated), ('archive_path', w.archive), ('set_path_ready', w.mark)):
            k = Path(name, f)
            I.contracts[k.qual] = k

        class ParseRun(Contract):
            """parse_projects.run (target parse-run): parses, then marks the result complete unless caching is suppressed"""
            qual = PP + ':run'

            def apply(self, I, b):
                I.require('this dataset', b['dataset'] is ds)
                w.compute('parsed')
                w.r['parsed'] = z_not(to_z3(ds.fields['_suppress_caching']))
                w.o['parsed'] = z3.BoolVal(False)

        class PrepRun(Contract):
            """to_repr.run (target prep-run): preprocesses, then marks the result complete"""
            qual = TR + ':run'

            def apply(self, I, b):
                I.require('this dataset', b['dataset'] is ds)
                I.require('with the merges given', b['custom_bpe_config'] is w.custom)
                w.compute('preprocessed', 'parsed')
                w.r['preprocessed'], w.o['preprocessed'] = z3.BoolVal(True), z3.BoolVal(False)

        class Calc(Contract):
            """calc_vocab (targets calc, finish-merges): computes the vocabulary, or fails"""
            qual = V_ + ':calc_vocab'

            def apply(self, I, b):
                I.require('of the preprocessed files', b['file_iterator'] is w.files and gfs.same(b['path'], w.path['preprocessed']))
                I.require('into the directory of the vocabulary', gfs.same(b['output_dir'], w.vocdir))
                w.compute('vocabulary', 'preprocessed')

        class Iter(Contract):
            """SubDataset.file_iterator (C20)"""
            qual = D + ':SubDataset.file_iterator'

            def apply(self, I, b):
                I.require('of the preprocessed files', b['self'] is ds.fields['_preprocessed'])
                return w.files
        self.files = CellV('files')
        for c in (ParseRun, PrepRun, Calc, Iter):
            I.contracts[c.qual] = c()
        self.custom = CellV('custom') if I.branch(I.fresh(SBool, 'custom merges')) else None
        I.natives['os.path.exists'] = lambda I, a, k: self.there(a[0])

    def there(self, p):
        """a ready result is there; one that is not ready may be there in part"""
        I = self.I
        for n in self.names:
            if n in self.path and gfs.same(p, self.path[n]):
                return z_or(self.r[n], I.fresh(SBool, n + ' there'))
        return I.fresh(SBool, 'exists')

    def current(self, n):
        """was brought up to date"""
        return True if n in self.done else z_and(self.r[n], z_not(self.o[n]))

    def ready(self, n):
        return self.r[n]

    def outdated(self, n):
        self.I.guard(self.r[n], 'FileNotFoundError')
        return self.o[n]

    def archive(self, n):
        I = self.I
        I.require('only a changed result is archived', z_and(self.r[n], self.o[n]))
        self.fault('archive')
        self.r[n] = z3.BoolVal(False)
        self.archived.append(n)

    def mark(self, n):
        self.I.require('only a computed result is marked complete', n in self.done)
        self.fault('mark')
        self.r[n], self.o[n] = z3.BoolVal(True), z3.BoolVal(False)

    def fault(self, what):
        if self.I.branch(self.I.fresh(SBool, what + ' fails')):
            self.failed = True
            self.I.raise_('OSError', what)

    def compute(self, n, dep=None):
        I = self.I
        I.require('a result is computed only if it is unfinished or has been archived: ' + n, z_not(z_bool(self.r[n])))
        if dep:
            I.require('the results it is made from are up to date: ' + n, self.current(dep))
        I.require('computed once', n not in self.done)
        self.fault('computing')
        self.done.append(n)


def t_stage(name, results, voc=None):
    def run(I):
        w = W(I, voc)
        out = I.outcome(I.fn(ST + ':' + name), [w.ds] + ([w.custom] if name != 'run_parsing' else []), {})
        if out[0] != 'ok':
            I.ensure('an error only if a step failed', w.failed)
            return
        for n in results:
            need = z_or(z_not(w.r0[n]), w.o0[n])
            I.ensure('up to date afterwards: ' + n, w.current(n))
            I.ensure('computed only if unfinished or changed: ' + n, z_iff(n in w.done, need))
            I.ensure('archived first if changed: ' + n, z_iff(n in w.archived, z_and(w.r0[n], w.o0[n])))
            I.ensure('marked complete: ' + n, z_or(w.r[n], z_and(n == 'parsed', to_z3(w.ds.fields['_suppress_caching']))))
        I.ensure('nothing else is computed', all(n in results for n in w.done))
    return run


# ---- the runs that mark their result complete
class Files(Contract):
    """Dataset.get_all_files (C20)"""
    qual = D + ':Dataset.get_all_files'

    def __init__(self, files):
        self.files = files

    def apply(self, I, b):
        I.require('the files, not the directories', b['return_dirs_instead_of_regular_files'] is False)
        return CellV('seqview', seq=self.files._c)


class R:
    """a dataset whose files are processed; done: the files processed, in ghost state"""

    def __init__(self, I, module, src, dst):
        self.I, self.module = I, module
        paths(I)
        fs.bytes_as_text(I)
        A = cur_str().sort
        self.files = fresh_list(I, SStr, 'files')
        self.width = 2
        self.inputs = fresh_list(I, SStr, 'input files')
        self.newname = fs.uf('newname', A, A)
        self.pc = I.fresh(SOpaque(z3.DeclareSort('PrepConfig')), 'prep_config')
        self.ds = ds = ObjV(I.fn(D + ':Dataset'), {
            '_path': I.fresh(SStr, 'dataset'), '_prep_config': self.pc, '_normalized_extension_list': None, '_custom_bpe_config': None,
            '_dataset_last_modified': I.fresh(SStr, 'modified'), '_bpe_config': None, '_suppress_caching': I.fresh(SBool, 'suppress_caching')})
        sd = I.fn(D + ':SubDataset')
        for n in ('original', 'parsed', 'preprocessed'):
            ds.fields['_' + n] = ObjV(sd, {'_dataset': ds, '_path': I.fresh(SStr, n), '_suffix': '.' + n})
        self.src, self.dst = ds.fields['_' + src], ds.fields['_' + dst]
        I.contracts[Files.qual] = Files(self.files)
        w = self

        class Iter(Contract):
            """SubDataset.file_iterator (C20)"""
            qual = D + ':SubDataset.file_iterator'

            def apply(self, I, b):
                I.require('of the results of the stage before', b['self'] is w.src)
                return CellV('seqview', seq=w.inputs._c)

        class New(Contract):
            """SubDataset.get_new_file_name (C20)"""
            qual = D + ':SubDataset.get_new_file_name'

            def apply(self, I, b):
                I.require('into the results of this stage', b['self'] is w.src and b['new_subdataset'] is w.dst)
                return w.newname(to_z3(b['file_path']))

        class Mark(Contract):
            qual = D + ':set_path_ready'

            def apply(self, I, b):
                w.mark(b['path'])

        class Need(Contract):
            """files_need_to_be_saved: either (only the count shown to the user depends on it)"""
            qual = D + ':Dataset.files_need_to_be_saved'

            def apply(self, I, b):
                return I.fresh(SBool, 'files_need_to_be_saved')
        for c in (Iter, New, Mark, Need):
            I.contracts[c.qual] = c()

        def cands(v):
            c = w.inputs._c
            out = []
            for nm, q, e in v.seqs():
                if v.k is None:
                    continue
                for l in range(self.width):
                    try:
                        out.append((nm + ' so far %d' % l, True if q.items == [] else forall_int(lambda j: w.one_ok(q.get(j), j, l), 0, v.k)))
                    except (Unsupported, z3.Z3Exception, TypeError, IndexError):
                        pass
            return out
        I.loop_cands.append(cands)
        self.all = False                # every file has been processed
        self.one = None                 # processed one by one: ghost list
        self.marked = False
        n = I.natives
        for q in ('multiprocessing.pool.Pool', 'multiprocessing.Pool'):
            n[q] = lambda I, a, k: CellV('pool')
        n['$enter:pool'] = lambda I, a, k: a[0]
        n['$exit:pool'] = n['$method:pool.close'] = n['$method:pool.join'] = lambda I, a, k: None
        n['tqdm.tqdm'] = lambda I, a, k: a[0]
        for m in ('imap_unordered', 'imap'):
            n['$method:pool.' + m] = lambda I, a, k: w.imap(a[1], a[2])
        for m in ('map', 'starmap'):
            n['$method:pool.' + m] = lambda I, a, k: (w.imap(a[1], a[2]), w.exhausted())[1]
        n['builtins.exit'] = n['sys.exit'] = lambda I, a, k: I.raise_('SystemExit', 'exit')
        self.custom = None

    def params_ok(self, seq, rest):
        """one file after the other: where it is read from and written to, and the rest"""
        I, c = self.I, self.inputs._c
        I.ensure('every file is processed', eqv(seq.n, c.n))

        def one(j):
            p = I.unpack(seq.get(j), 2 + len(rest), [False] * (2 + len(rest)))
            return z_and(eqv(p[0], c.get(j)), eqv(p[1], self.newname(to_z3(c.get(j)))), *[same_value(x, y) for x, y in zip(p[2:], rest)])
        I.ensure('read from the stage before, written to this one', forall_int(one, 0, c.n))

    def imap(self, f, params):
        I = self.I
        I.require('the function that processes a file', getattr(f, 'qualname', None) == self.module + ':preprocess_and_write' or f is I.fn(self.module + ':preprocess_and_write'))
        self.start()
        seq = I.to_seq(params, True)
        self.params_ok(seq, self.rest())
        return CellV('seqview', seq=fresh_list(I, SInt, 'results')._c, exhausted=self.exhausted)

    def one_ok(self, t, j, l):
        c = self.inputs._c
        return eqv(t[l], c.get(j) if l == 0 else self.newname(to_z3(c.get(j))))

    def start(self):
        pass

    def rest(self):
        return []

    def exhausted(self):
        """the results have been awaited, or a file failed: its error arrives here"""
        self.I.guard(z_not(self.I.fresh(SBool, 'a file fails')), 'OSError', 'a file fails')
        self.all = True

    def before_mark(self):
        pass

    def finished(self):
        if self.one is not None:
            c, d = self.inputs._c, self.I.ghost['processed']._c
            return z_and(eqv(d.n, c.n), forall_int(lambda j: eqv(d.get(j), c.get(j)), 0, c.n))
        return self.all

    def mark(self, path):
        I = self.I
        I.require('the result of this stage', gfs.same(path, self.dst.fields['_path']))
        I.require('marked complete only after every file has been processed', self.finished())
        I.require('marked once', not self.marked)
        self.before_mark()
        self.marked = True


def same_value(x, y):
    if isinstance(x, OptV) or isinstance(y, OptV):
        return eqv(x, y)
    return x is y if x is None or y is None or isinstance(x, (ObjV, CellV)) or isinstance(y, (ObjV, CellV)) else eqv(x, y)


def t_parse_run(I):
    w = R(I, PP, 'original', 'parsed')
    out = I.outcome(I.fn(PP + ':run'), [w.ds], {})
    if out[0] != 'ok':
        I.ensure('no error but that of a file', exc_is(out, 'OSError'))
        I.ensure('then nothing is marked complete', not w.marked)
        return
    I.ensure('every file has been processed', w.finished())
    I.ensure('marked complete unless caching is suppressed', z_iff(w.marked, z_not(to_z3(w.ds.fields['_suppress_caching']))))


def t_prep_run(I):
    w = R(I, TR, 'parsed', 'preprocessed')
    n = I.natives
    A = cur_str().sort
    bpe, base = I.fresh(SBool, 'is bpe'), I.fresh(SBool, 'is base bpe config')
    there, dirs = I.fresh(SBool, 'parsed there'), I.fresh(SBool, 'directory there')
    nonbpe, part = I.fresh(SBool, 'nonbpe vocab there'), I.fresh(SBool, 'parts there')
    I.goverlay[(D, 'USER_VOCAB_DIR')] = I.fresh(SStr, 'USER_VOCAB_DIR')
    n['$method:is_bpe'] = lambda I, a, k: bpe
    n['$method:is_base_bpe_config'] = lambda I, a, k: base
    pc = I.fresh(SStr, 'prep config')
    n['$str'] = lambda I, a, k: pc if is_term(a[0]) and a[0].eq(w.pc) else None
    nb = I.getattr(w.ds, 'path_to_nonbpe_vocab_file')
    st = {'made': False, 'init': False, 'gathered': False}
    w.custom = CellV('custom') if I.branch(I.fresh(SBool, 'custom merges')) else None
    D_ = CellV('bpedata')

    def exists(I, a, k):
        if gfs.same(a[0], w.src.fields['_path']):
            return there
        if gfs.same(a[0], nb):
            return nonbpe
        if gfs.same(a[0], I.cat(nb, '_part')):
            return z_or(part, st['made'])
        raise Unsupported('exists %s %s' % (a[0], I.cat(nb, '_part')))
    n['os.path.exists'] = n['os.path.isdir'] = exists

    def makedirs(I, a, k):
        I.require('the directory of the parts of the nonbpe vocab', gfs.same(a[0], I.cat(nb, '_part')))
        st['made'] = True
    n['os.makedirs'] = n['os.mkdir'] = makedirs
    parts = z_and(base, z_not(nonbpe))
    I.assume(cur_str().length(I.cat(nb, '_part')) > 0)

    class Init(Contract):
        qual = TR + ':init_bpe_data'

        def apply(self, I, b):
            I.require('the merges of this run', z_and(eqv(b['prep_config'], w.pc), b['custom_bpe_config'] is w.custom))
            I.require('set anew', b['force_reinit'] is True)
            st['init'] = True

    class Data(Contract):
        """the merges that init_bpe_data has read, if it was called (a run before may have left others)"""
        qual = TR + ':get_global_bpe_data_if_available'

        def apply(self, I, b):
            return D_

    class Cpus(Contract):
        qual = TR + ':get_n_cpus_to_be_used'

        def apply(self, I, b):
            return fresh_int(I, 'n_cpus', 1)

    class Gather(Contract):
        """gather_non_bpe_vocab (target gather)"""
        qual = VL + ':gather_non_bpe_vocab'

        def apply(self, I, b):
            I.require('of this dataset', b['dataset'] is w.ds)
            I.require('only after every file has been processed', w.finished())
            I.require('if there are parts', parts)
            st['gathered'] = True

    class One(Contract):
        """preprocess_and_write (C22)"""
        qual = TR + ':preprocess_and_write'

        def apply(self, I, b):
            w.one = True
            w.start()
            p = I.unpack(b['params'], 4, [False] * 4)
            I.require('read from the stage before, written to this one', eqv(p[1], w.newname(to_z3(p[0]))))
            w.rest_ok(p[2:])
            I.require('with the merges of this run', b['bpe_data'] is D_)
            I.guard(z_not(I.fresh(SBool, 'the file fails')), 'OSError', 'a file fails')
            g = I.ghost['processed']
            I.method(g, 'append', p[0])

    def start():
        I.require('the merges have been read', z_implies(bpe, st['init']))
        I.require('the directory of the parts is there', z_implies(parts, z_or(part, st['made'])))
        I.require('the parsed files are there', there)

    def rest_ok(rest):
        I.require('with the configuration of the dataset', eqv(rest[0], w.pc))
        I.require('the parts of the nonbpe vocab are collected in their directory, if they are', meta_ok(rest[1]))

    def meta_ok(m):
        some = z_not(m.isnone) if isinstance(m, OptV) else m is not None
        val = m.val if isinstance(m, OptV) else m
        return z_and(z_iff(some, parts), z_or(z_not(z_bool(some)), eqv(val, I.cat(nb, '_part')) if val is not None else True))
    w.start, w.rest_ok, w.width = start, rest_ok, 4
    w.before_mark = lambda: I.require('marked complete only after the nonbpe vocab has been gathered', z_iff(st['gathered'], parts))
    ok2 = w.one_ok

    def one_ok(t, j, l):
        if l < 2:
            return ok2(t, j, l)
        return eqv(t[2], w.pc) if l == 2 else meta_ok(t[3])
    w.one_ok = one_ok

    def params_ok(seq, rest):
        c = w.inputs._c
        I.ensure('every file is processed', eqv(seq.n, c.n))
        t = I.fresh(SInt, 'one')
        I.assume(t >= 0, t < c.n)
        p = I.unpack(seq.get(t), 4, [False] * 4)
        I.ensure('read from the stage before, written to this one', z_and(eqv(p[0], c.get(t)), eqv(p[1], w.newname(to_z3(c.get(t))))))
        rest_ok(p[2:])
    w.params_ok = params_ok
    for c in (Init, Data, Cpus, Gather, One):
        I.contracts[c.qual] = c()
    I.ghost['processed'] = ListV(Seq(items=[]))

    def cands(v):
        c, g = w.inputs._c, I.ghost['processed']._c
        if v.k is None:
            return []
        return [('processed so far', True if g.items == [] and not isinstance(v.k, int) and False else z_and(eqv(g.n, v.k), forall_int(lambda j: eqv(g.get(j), c.get(j)), 0, v.k) if g.items is None else True))]
    I.loop_cands.append(cands)
    out = I.outcome(I.fn(TR + ':run'), [w.ds, w.custom], {})
    if out[0] != 'ok':
        I.ensure('refused only if there is nothing parsed', z_or(exc_is(out, 'OSError'), z_and(exc_is(out, 'SystemExit'), z_not(there))))
        I.ensure('then nothing is marked complete', not w.marked)
        return
    I.ensure('every file has been processed', w.finished())
    I.ensure('marked complete', w.marked)
    I.ensure('parts gathered', z_iff(st['gathered'], parts))


# ---- when a path was last changed
def t_stamp(I):
    """get_timestamp is the text of the latest modification time of the path and of what is in it (of at least the first LIMIT entries)"""
    fs.static(I)
    A = cur_str().sort
    P = I.fresh(SStr, 'path')
    mt = fs.uf('fs.mtime', A, z3.IntSort())
    isfile, islink = fs.uf('fs.isfile', A, z3.BoolSort()), fs.uf('fs.islink', A, z3.BoolSort())
    n = I.natives
    W = fresh_list(I, STuple(SStr, SList(SStr), SList(SStr)), 'walk')
    lst = fresh_list(I, SStr, 'listdir')
    w = W._c
    root = lambda i: w.get(i)[0]                                           # noqa
    inner = lambda i, kind: as_seq(w.get(i)[1 if kind == 'dir' else 2])    # noqa
    I.assume(z3.Implies(z3.Not(isfile(P)), z3.And(to_z3(w.n) > 0, to_z3(root(0)) == P)))
    limit = 1000            # (as documented in config.py: more entries are not looked at)
    one = lambda f: (lambda I, a, k: f(to_z3(a[0])))                       # noqa
    n['os.path.getmtime'], n['os.path.isfile'], n['os.path.islink'] = one(mt), one(isfile), one(islink)

    def getmtime(I, a, k):
        p = to_z3(a[0])
        if not gfs.same(p, P):
            I.require('a link is not followed', z_or(z3.Not(islink(p)), st['dir'](p)))
        return mt(p)
    n['os.path.getmtime'] = getmtime
    isdir_ = fs.uf('fs.is_walked_dir', A, z3.BoolSort())
    st = {'dir': isdir_}

    def walk(I, a, k):
        I.require('the path itself is walked', eqv(a[0], P))
        return CellV('seqview', seq=w)
    n['os.walk'] = walk

    def listdir(I, a, k):
        I.require('the path itself is listed', eqv(a[0], P))
        I.guard(z3.Not(isfile(P)), 'NotADirectoryError')
        return lst
    n['os.listdir'] = listdir
    day = fs.uf('datetime', z3.IntSort(), A)
    n['datetime.datetime.fromtimestamp'] = lambda I, a, k: CellV('datetime', t=to_z3(a[0]))
    n['$method:datetime.strftime'] = lambda I, a, k: (I.require('to the second', a[1] == '%y-%m-%dT%H-%M-%S'), day(a[0].d['t']))[1]
    i, j = fresh_int(I, 'i', 0), fresh_int(I, 'j', 0)
    x = I.fresh(SInt, 'kind')
    kind = 'root' if I.branch(x == 0) else 'dir' if I.branch(x == 1) else 'file'
    if kind != 'root':
        I.assume(i < w.n, j < inner(i, kind).n, z3.Not(isfile(P)), to_z3(lst.n if hasattr(lst, 'n') else lst._c.n) > 0)
        e = fs.pjoin(root(i), inner(i, kind).get(j))
        if kind == 'file':
            I.assume(z3.Not(islink(e)))
    else:
        e = P
    p, q = z3.Ints('w!p w!q')
    I.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < w.n, 0 <= q, q < to_z3(inner(p, 'dir').n)), isdir_(fs.pjoin(root(p), inner(p, 'dir').get(q))))))
    m = mt(e)

    def seen(c):
        return exists_int(lambda t: eqv(c.get(t), m), 0, c.n)

    def cands(v):
        out = []
        s = v.seq
        if s is None:
            return out
        K = [(v.k, None)] if s is w else []
        if not K:
            t = to_z3(s.n)
            for kd in ('dir', 'file'):
                f = to_z3(inner(z3.IntVal(0), kd).n)
                if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(f.decl()):
                    K = [(t.arg(0), kd)]
        for k, kd in K:
            if kd is None:
                done = k > i
            elif kind == 'dir':
                done = z3.Or(k > i, z3.And(k == i, True if kd == 'file' else v.k > j))
            else:
                done = z3.Or(k > i, z3.And(k == i, kd == 'file', v.k > j))
            for nm, c, en in v.seqs():
                if c.items is not None:
                    out.append((nm + ' holds', seen(c) if kind == 'root' else z_implies(done, False) if c.items == [] else True))
                else:
                    out.append((nm + ' holds', seen(c) if kind == 'root' else z_implies(done, seen(c))))
                for nm2, x, _ in v.ints():
                    out.append((nm + ' counts ' + nm2, eqv(c.n, to_z3(x) + 1)))
                    out.append((nm + ' counts at least ' + nm2, to_z3(c.n) >= to_z3(x)))
        return out
    I.loop_cands.append(cands)
    mx = n['builtins.max']

    def max_(I, a, k):
        if len(a) == 1:
            st['times'] = I.to_seq(a[0])
            a = [CellV('seqview', seq=st['times'])]
        return mx(I, a, k)
    n['builtins.max'] = max_
    r = I.call(I.fn('codeprep.dirutils:get_timestamp'), [P], {})
    n['builtins.max'] = mx
    I.ensure('the text of a time', z3.is_app(r) and r.decl().name() == 'datetime')
    t = r.arg(0)
    seq = st.get('times')
    I.ensure('not before the latest change, unless there are too many entries', z_or(t >= m, to_z3(seq.n) > limit if seq is not None else False))


# ---- the vocabulary of words that are not split
def t_gather(I):
    """gather_non_bpe_vocab: a file under the final name is complete, whenever the run is stopped; it holds the union of the parts that are complete and the
    placeholders; the parts are removed only afterwards"""
    A = cur_str().sort
    part_dir = [None]
    names = fresh_list(I, SStr, 'parts')
    c = names._c
    n = I.natives
    fin = [None]
    st = {}

    def union(q):
        return z3.Or(U(q, c.n), *[q == to_z3(x) for x in phs])

    def complete(nd):
        if nd is None:
            return False
        lines, pend, objs, closed = gfs.content(nd)
        if closed is not True or pend != '' or objs:
            return False
        q, j = I.fresh(SStr, 'word'), fresh_int(I, 'line', 0)
        lt = lambda x: to_z3(I.escape(I, x))    # noqa
        if lines.items is not None:
            # there are no parts
            return z_and(z_or(z_not(union(q)), *[z_and(eqv(q, x), any(I.entails(eqv(y, lt(x))) for y in lines.items)) for x in phs]),
                         *[z_or(*[eqv(y, lt(x)) for x in phs]) for y in lines.items])
        keys = st.get('keys')
        if keys is None:
            return False
        return z_and(z_or(z_not(union(q)), exists_int(lambda t: eqv(lines.get(t), lt(q)), 0, lines.n)),
                     z_or(z_not(j < to_z3(lines.n)), z_and(eqv(lines.get(j), lt(keys.get(j))), union(to_z3(keys.get(j))))))

    def after(G, kind, ps):
        e = G.entry(fin[0])
        if e is not None and e[0] is True:
            I.ensure('under the final name only if it is complete', complete(e[1]))
        elif kind == 'rmtree':
            I.ensure('the parts are removed only when the vocabulary is complete', False)
    G = gfs.GFS(I, after)
    fs.escapes(I)
    ds = ObjV(I.fn(D + ':Dataset'), {'_path': I.fresh(SStr, 'dataset'), '_prep_config': I.fresh(SStr, 'prep_config'), '_normalized_extension_list': None,
                                     '_custom_bpe_config': None, '_dataset_last_modified': I.fresh(SStr, 'modified'), '_bpe_config': None})
    I.goverlay[(D, 'USER_VOCAB_DIR')] = I.fresh(SStr, 'USER_VOCAB_DIR')
    fin[0] = I.getattr(ds, 'path_to_nonbpe_vocab_file')
    part_dir[0] = I.cat(fin[0], '_part')
    G.add(fin[0], False, None)

    def listdir(I, a, k):
        I.require('the parts are listed', gfs.same(a[0], part_dir[0]))
        return names
    n['os.listdir'] = listdir

    def rmtree(I, a, k):
        I.require('only the parts are removed', gfs.same(a[0], part_dir[0]))
        G.fault('rmtree')
        G.step('rmtree', a[0])
    n['shutil.rmtree'] = rmtree
    tok = lambda p: V._fresh(SSet(SStr), 'tokens', [to_z3(p)], True)         # noqa

    class Load(Contract):
        """_load_vocab_set (C12): the words of a file"""
        qual = V_ + ':_load_vocab_set'

        def apply(self, I, b):
            m = tok(b['file'])
            I.flush_axioms()
            return SetV(m) if not isinstance(m, SetV) else m
    I.contracts[Load.qual] = Load()
    phs = [v for v in I.concrete(I.to_seq(I.call(I.getattr(I.fn('codeprep.preprocess.placeholders:placeholders'), 'values'), [], {})))]
    U = fs.uf('in first', A, z3.IntSort(), z3.BoolSort())
    q, t = z3.Const('u!q', A), z3.Int('u!t')
    unfinished = lambda x: to_z3(I.method(x, 'endswith', '.part'))            # noqa

    def has(p, q):
        m = tok(p)
        m = m._c if isinstance(m, SetV) else m
        return to_z3(m.has(q))
    I.assume(z3.ForAll([q], z3.Not(U(q, 0))))
    I.assume(z3.ForAll([q, t], z3.Implies(z3.And(0 <= t, t < c.n), U(q, t + 1) == z3.Or(U(q, t), z3.And(z3.Not(unfinished(c.get(t))), has(fs.pjoin(part_dir[0], c.get(t)), q)))),
                       patterns=[U(q, t + 1)]))

    def cands(v):
        out = []
        for nm, m, _ in v.maps():
            if m.items == {}:
                out.append((nm + ' union', True))
            elif v.k is not None:
                x = z3.Const('u!x', A)
                out.append((nm + ' union', z3.ForAll([x], to_z3(m.has(x)) == U(x, v.k))))
        for nm, s, e in v.seqs():
            if s.items == []:
                out += [(nm + ' so many', True), (nm + ' the lines', True)]
            elif v.seq is not None and s.items is None:
                try:
                    out.append((nm + ' so many', to_z3(s.n) == v.k))
                    out.append((nm + ' the lines', forall_int(lambda j: eqv(s.get(j), fs.uf('lit', A, A)(to_z3(v.seq.get(j)))), 0, v.k)))
                except (Unsupported, z3.Z3Exception):
                    pass
        if v.seq is not None and v.seq is not c:
            st['keys'] = v.seq
        return out
    I.loop_cands.append(cands)
    out = I.outcome(I.fn(VL + ':gather_non_bpe_vocab'), [ds], {})
    if out[0] == 'ok':
        e = G.entry(fin[0])
        I.ensure('the vocabulary is there', e[0] is True)


# ---- the vocabulary
def t_finish(I):
    """_finish_merges: the vocabulary and its size are both there only if both are complete, and hold the merge of all chunks, whenever the run is stopped; the
    partial vocabularies are removed only afterwards"""
    Q, P_ = z3.DeclareSort('TaskQueue'), z3.DeclareSort('Part')
    vocab_of = z3.Function('only vocab of', Q, P_)
    merged = z3.Function('merged', P_, P_, P_)
    n = I.natives
    tasks = I.fresh(SDict(SInt, SOpaque(Q)), 'tasks')
    c = tasks._c
    cnt = to_z3(c.size)
    I.assume(cnt > 0)
    vp, sp, dump = (I.fresh(SStr, x) for x in ('vocab_file_path', 'vocab_size_file_path', 'path_to_dump'))
    chunk = lambda t: vocab_of(to_z3(c.get(c.keys.get(t))))                 # noqa
    F = Fold(I, 'acc', SOpaque(P_), chunk(cnt - 1), lambda acc, t: merged(to_z3(acc), chunk(t)))
    I.assume(z_bool(F.base_axiom()))
    removed = [False]

    def good(p, what):
        nd = G.node(p)
        return nd is not None and nd.d['closed'] is True and nd.d.get('what') == what and nd.d['objs'] and eqv(nd.d['objs'][0], F.at(cnt - 1))

    def after(G, kind, ps):
        v, s = G.present(vp), G.present(sp)
        both = z_and(z_bool(v), z_bool(s))
        I.ensure('both files are there only if both are complete', z_implies(both, z_and(good(vp, 'vocab'), good(sp, 'size'))))
        if kind == 'rmtree':
            I.ensure('the partial vocabularies are removed only when both are there', both)
    G = gfs.GFS(I, after)
    old = I.branch(I.fresh(SBool, 'old size file'))
    G.add(sp, old, CellV('node', lines=ListV(Seq(items=[])), pend='', objs=[], closed=True) if old else None)
    G.add(vp, False, None)

    def rmtree(I, a, k):
        I.require('only the partial vocabularies are removed', gfs.same(a[0], dump))
        G.fault('rmtree')
        G.step('rmtree', a[0])
    n['shutil.rmtree'] = rmtree

    def write(what):
        def f(I, a, k):
            w = G.open(a[1], 'w')
            nd = w.d['node']
            I.mutate(nd)
            nd.d['objs'], nd.d['what'] = [a[0]], what
            G.step('write', a[1])
            G.fault('write')
            I.mutate(nd)
            nd.d['closed'] = True
            G.step('close', a[1])
        return f
    n['$method:write_vocab'], n['$method:write_stats'] = write('vocab'), write('size')
    n['$attr:merged_word_counts'] = lambda I, a, k: fresh_list(I, SStr, 'words')

    def get(I, a, k):
        G.fault('queue', '_queue.Empty')
        return vocab_of(to_z3(a[0]))
    n['$method:get'] = get

    class Merge(Contract):
        """_merge (C24, C13): the vocabulary with the counts of both; it is the first one"""
        qual = V_ + ':VocabMerger._merge'

        def apply(self, I, b):
            G.fault('merge')
            return (merged(to_z3(b['first']), to_z3(b['second'])), fresh_list(I, SStr, 'new words'))
    I.contracts[Merge.qual] = Merge()
    vm = ObjV(I.fn(V_ + ':VocabMerger'), {'tasks': tasks, 'path_to_dump': dump, 'vocab_file_path': vp, 'vocav_size_file_path': sp, 'id': fresh_int(I, 'id', 0)})

    def cands(v):
        out = []
        if v.k is None:
            return out
        for nm, x, _ in v.pairs():
            if is_term(x) and x.sort() == P_:
                out.append((nm + ' so far', eqv(x, F.at(v.k))))
        for nm, s, _ in v.seqs():
            try:
                out.append((nm + ' of the chunks', True if s.items == [] else forall_int(lambda j: eqv(s.get(j), chunk(j)), 0, v.k)))
            except (Unsupported, z3.Z3Exception):
                pass
        return out
    I.loop_cands.append(cands)
    out = I.outcome(I.getattr(vm, '_finish_merges'), [], {})
    if out[0] == 'ok':
        I.ensure('both are there', z_and(z_bool(G.present(vp)), z_bool(G.present(sp))))
        I.ensure('the partial vocabularies are removed', G.trace and G.trace[-1][0] == 'rmtree')


def t_calc(I):
    """calc_vocab: done if both files are there; otherwise every merger is started and awaited, on all the partial vocabularies; afterwards none is left over for
    another run to resume from"""
    n = I.natives
    A = cur_str().sort
    M = z3.DeclareSort('Merger')
    fs.install_paths(I)
    path, out_dir = I.fresh(SStr, 'path'), I.fresh(SStr, 'output_dir')
    files = CellV('files')
    st = {'tasks': None, 'queues': None, 'left': I.fresh(SBool, 'partial vocabs left'), 'made': None}
    voc, size = I.fresh(SBool, 'vocab there'), I.fresh(SBool, 'vocab size there')
    ready = I.fresh(SBool, 'partial vocabs ready')
    I.assume(z3.Implies(ready, st['left']))
    vp, sp, dump = (fs.pjoin(out_dir, x) for x in ('vocab', 'vocabsize', 'part_vocab'))
    done0 = z_and(voc, size)
    state = CellV('state', left=st['left'], voc=voc, size=size)

    def exists(I, a, k):
        for p, e in ((vp, 'voc'), (sp, 'size'), (dump, 'left')):
            if gfs.same(a[0], p):
                return state.d[e]
        raise Unsupported('exists %s' % a[0])
    n['os.path.exists'] = n['os.path.isfile'] = n['os.path.isdir'] = exists

    def rmtree(I, a, k):
        I.require('only partial vocabularies are removed', gfs.same(a[0], dump))
        I.require('only when the vocabulary is complete', z_and(state.d['voc'], state.d['size']))
        I.mutate(state)
        state.d['left'] = False
    n['shutil.rmtree'] = rmtree
    n['platform.system'] = lambda I, a, k: I.fresh(SStr, 'system')
    ncpu = fresh_int(I, 'cpus', 1)
    n['multiprocessing.cpu_count'] = n['os.cpu_count'] = lambda I, a, k: ncpu
    def counter(I, a, k):
        c = CellV('counter', v=a[0], ident=I.fresh(SInt, 'counter'))
        st['counters'] = st['counters'] + [c.d['ident']]
        return c
    st['counters'] = []
    for cls in ('AtomicInteger', 'NonAtomicCounter'):
        try:
            n['new:' + I.fn('codeprep.pipeline.vocab:' + cls).qualname] = counter
        except Exception:           # noqa  (a class of another module)
            pass
    part = CellV('parts')

    class Ready(Contract):
        qual = V_ + ':partial_vocabs_ready'

        def apply(self, I, b):
            I.require('of this vocabulary', gfs.same(b['path_to_dump'], dump))
            return ready

    def loaded(how):
        def f(I, b):
            I.require('once', st['tasks'] is None)
            I.require('of this vocabulary', gfs.same(b['path' if how == 'load' else 'path_to_dump'], dump))
            I.require('resumed if and only if the partial vocabularies are complete', ready if how == 'load' else z_not(ready))
            if how == 'create':
                I.require('of the files given', b['file_iterator'] is files)
            I.mutate(state)
            state.d['left'] = True
            st['tasks'] = fresh_list(I, SOpaque(z3.DeclareSort('Part')), 'tasks')
            return st['tasks']
        return f

    class Load(Contract):
        """load_partial_vocabs (C24)"""
        qual = V_ + ':load_partial_vocabs'

        def apply(self, I, b):
            return loaded('load')(I, b)

    class Create(Contract):
        """create_partial_vocabs"""
        qual = V_ + ':create_partial_vocabs'

        def apply(self, I, b):
            return loaded('create')(I, b)

    class Map_(Contract):
        qual = V_ + ':mapify_tasks'

        def apply(self, I, b):
            I.require('all the partial vocabularies', b['tasks'] is st['tasks'])
            st['queues'], st['sizes'] = CellV('queues'), CellV('sizes')
            return (st['queues'], st['sizes'])

    class Chunks(Contract):
        qual = V_ + ':create_chunk_queue'

        def apply(self, I, b):
            I.require('all the chunks', b['chunk_sizes'] is st['sizes'])
            st['n'] = b['num_mergers']              # the stop signs
            I.require('some mergers', to_z3(st['n']) >= 1)
            st['chunks'], st['todo'] = CellV('chunks'), I.fresh(SInt, 'merges')
            return (st['chunks'], st['todo'])
    for k in (Ready, Load, Create, Map_, Chunks):
        I.contracts[k.qual] = k()
    merger = z3.Function('merger', z3.IntSort(), z3.IntSort(), z3.IntSort(), M)
    I.ghost['started'], I.ghost['joined'] = ListV(Seq(items=[])), ListV(Seq(items=[]))

    def new(I, a, k):
        names = ['id', 'tasks', 'path_to_dump', 'process_counter', 'chunk_queue', 'merges_left_counter', 'vocab_file_path', 'vocab_size_file_path']
        b = dict(zip(names, a))
        b.update(k)
        I.require('all the partial vocabularies are merged', b['tasks'] is st['queues'] and b['chunk_queue'] is st['chunks'])
        I.require('into the files of the vocabulary', gfs.same(b['vocab_file_path'], vp) and gfs.same(b['vocab_size_file_path'], sp) and gfs.same(b['path_to_dump'], dump))
        I.require('the counters', z_and(eqv(b['process_counter'].d['v'], st['n']), eqv(b['merges_left_counter'].d['v'], st['todo'])))
        st['pc'], st['mc'] = b['process_counter'].d['ident'], b['merges_left_counter'].d['ident']
        return merger(to_z3(b['id']), st['pc'], st['mc'])
    n['new:' + I.fn(V_ + ':VocabMerger').qualname] = new

    def run(what):
        def f(I, a, k):
            if what == 'joined':
                s = I.ghost['started']._c
                I.require('all are started before one is awaited', eqv(s.n, st['n']))
            I.method(I.ghost[what], 'append', a[0])
        return f
    n['$method:start'], n['$method:join'] = run('started'), run('joined')

    def cands(v):
        out = []
        if v.k is None:
            return out
        for nm, s, _ in v.seqs():
            for c in st['counters']:
                for d in st['counters']:
                    if c is not d:
                        out.append(('%s mergers %s' % (nm, c is st['counters'][0]), True if s.items == [] else forall_int(lambda j: eqv(s.get(j), merger(to_z3(j) + 1, c, d)), 0, v.k)))
        return out
    I.loop_cands.append(cands)
    I.call(I.fn(V_ + ':calc_vocab'), [path, files, out_dir], {})
    s, j = I.ghost['started']._c, I.ghost['joined']._c
    if st['tasks'] is None:
        I.ensure('nothing is done only if both files are there', done0)
        I.ensure('no partial vocabularies are left over', z_not(z_bool(state.d['left'])))
        I.ensure('no merger', s.items == [] and j.items == [])
    else:
        I.ensure('computed only if a file is missing', z_not(done0))
        I.ensure('a merger for each stop sign is started', eqv(s.n, st['n']))
        I.ensure('all share the counters', forall_int(lambda t: eqv(s.get(t), merger(to_z3(t) + 1, st['pc'], st['mc'])), 0, s.n))
        I.ensure('every merger is awaited', z_and(eqv(j.n, s.n), forall_int(lambda t: eqv(j.get(t), s.get(t)), 0, s.n) if j.items is None else True))


T = 'pipeline.'
TARGETS = [
    Target('marks', 'C21', [T + 'dataset.set_path_ready', T + 'dataset.is_path_ready', T + 'dataset.is_path_outdated'], t_marks, str_mode='atom'),
    Target('set-ready', 'C21', [T + 'dataset.set_path_ready'], t_set, str_mode='atom'),
    Target('archive', 'C21', [T + 'dataset.archive_path', T + 'dataset.is_path_ready'], t_archive, str_mode='atom'),
    Target('stage-parsing', 'C21', [T + 'stages.run_parsing', T + 'dataset.SubDataset'], t_stage('run_parsing', ['parsed']), str_mode='atom'),
    Target('stage-preprocessing', 'C21', [T + 'stages.run_until_preprocessing', T + 'stages.run_parsing', T + 'dataset.SubDataset'],
           t_stage('run_until_preprocessing', ['parsed', 'preprocessed']), str_mode='atom'),
    Target('stage-base-vocab', 'C21', [T + 'stages.run_until_base_bpe_vocab', T + 'stages.run_until_preprocessing', T + 'dataset.SubDataset'],
           t_stage('run_until_base_bpe_vocab', ['parsed', 'preprocessed', 'vocabulary'], 'base'), str_mode='atom'),
    Target('stage-vocab', 'C21', [T + 'stages.run_until_vocab', T + 'stages.run_until_preprocessing', T + 'dataset.SubDataset'],
           t_stage('run_until_vocab', ['parsed', 'preprocessed', 'vocabulary'], 'own'), str_mode='atom'),
    Target('parse-run', 'C21', [T + 'parse_projects.run', T + 'parse_projects.params_generator'], t_parse_run, str_mode='atom'),
    Target('prep-run', 'C21', [T + 'to_repr.run', T + 'to_repr.params_generator', T + 'dataset.Dataset.path_to_nonbpe_vocab_file'], t_prep_run, str_mode='atom'),
    Target('stamp', 'C21', ['dirutils.get_timestamp', 'dirutils.get_dir_last_modification'], t_stamp, str_mode='atom'),
    Target('gather', 'C21', [T + 'vocabloader.gather_non_bpe_vocab', T + 'dataset.Dataset.path_to_nonbpe_vocab_file'], t_gather, str_mode='atom'),
    Target('finish-merges', 'C21', [T + 'vocab.VocabMerger._finish_merges'], t_finish, str_mode='atom'),
    Target('calc', 'C21', [T + 'vocab.calc_vocab'], t_calc, str_mode='atom'),
]

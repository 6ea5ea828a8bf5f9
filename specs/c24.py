"""C24 An interrupted vocabulary merge resumes without loss or double count: after every step on disk of a merge, or of the resumption of one, the partial
vocabularies that would be recovered have the same total counts (crash invariant over a ghost file system); load_partial_vocabs resumes every interrupted merge
and loads every partial vocabulary once."""
from specs.lib import *
from specs import c13
from pyvc import fs, gfs, loops

P = 'codeprep.pipeline.vocab'
EXT = '.partvocab'
BROKEN = ['EOFError', '_pickle.UnpicklingError', 'IndexError', 'struct.error']


def digits(I, name):
    """an identifier: not empty, digits only (target id)"""
    s = I.fresh(SStr, name)
    I.assume(cur_str().length(s) > 0, *[z_bool(loops.no_sep(I, s, c)) for c in '._/'])
    return s


class NewId(Contract):
    """_generate_id (target id): digits; different from every other identifier (process id, time and random number)"""
    qual = P + ':PartialVocab._generate_id'

    def apply(self, I, b):
        return digits(I, 'new_id')


class AddVocab(Contract):
    """add_vocab (C13)"""
    qual = P + ':PartialVocab.add_vocab'

    def apply(self, I, b):
        v, w = b['self'], b['partial_vocab']
        m1, m2 = v.fields['merged_word_counts']._c, w.fields['merged_word_counts']._c
        d = I.fresh(SDict(SStr, SInt), 'merged')
        d.default, d.pycls = v.fields['merged_word_counts'].default, 'Counter'
        for _, c in c13.merged_ok(d._c, m1, m2, m2.size):
            I.assume(c)
        for f, x in (('merged_word_counts', d), ('n_files', I.fresh(SInt, 'n_files')), ('stats', I.fresh(SList(STuple(SInt, SInt, SInt)), 'stats'))):
            I.setattr(v, f, x)
        return fresh_list(I, SStr, 'new_words')


class World:
    """the files of one merge: the two parts A and B, the interrupted result T, the result N"""

    def __init__(self, I):
        self.I = I
        self.dump = I.fresh(SStr, 'path_to_dump')
        self.v1, self.m1, _ = c13.vocab_obj(I, 'first')
        self.v2, self.m2, _ = c13.vocab_obj(I, 'second')
        self.id1, self.id2 = digits(I, 'first_id'), digits(I, 'second_id')
        self.v1.fields['id'], self.v2.fields['id'] = self.id1, self.id2
        self.chunk = self.v1.fields['chunk']
        self.A, self.B = self.file(self.id1), self.file(self.id2)
        self.na, self.nb = CellV('node', part='first'), CellV('node', part='second')
        self.T = self.N = None
        self.G = gfs.GFS(I, self.after)
        G = self.G
        I.natives['dill.dump'] = I.natives['pickle.dump']
        I.natives['dill.load'] = I.natives['pickle.load'] = lambda I, a, k: self.load(a[0])

        def split(I, a, k):
            p = to_z3(a[0])
            if not (z3.is_app(p) and p.decl().name() == 'path.join'):
                raise Unsupported('os.path.split')
            return (p.arg(0), p.arg(1))         # (the name holds no '/')
        I.natives['os.path.split'] = split
        I.natives['os.path.dirname'] = lambda I, a, k: split(I, a, k)[0]
        I.natives['os.path.basename'] = lambda I, a, k: split(I, a, k)[1]
        I.trusted.add('identifiers of partial vocabularies are unique')

    def file(self, *ids):
        nm = ids[0]
        for x in ids[1:]:
            nm = self.I.cat(self.I.cat(nm, '_'), x)
        return fs.pjoin(self.dump, self.I.cat(nm, EXT))

    def names(self, new):
        self.new = new
        self.T, self.N = self.file(self.id1, self.id2, new), self.file(new)

    def merged(self, o):
        """the object holds the counts of both parts, under the new identifier"""
        if not isinstance(o, (ObjV, V.FrozenObj)) or 'merged_word_counts' not in o.fields:
            return False
        m = o.fields['merged_word_counts']._c
        q = c13.qs()
        tb = c13.z_bool_t
        return z_and(z3.ForAll([q], z3.And(tb(m.has(q)) == z3.Or(tb(self.m1.has(q)), tb(self.m2.has(q))),
                                           z3.Implies(tb(m.has(q)), to_z3(m.get(q)) == c13.count(self.m1, q) + c13.count(self.m2, q)))),
                     eqv(o.fields['id'], self.new), eqv(o.fields['chunk'], self.chunk))

    def complete(self, nd):
        if nd is None or 'closed' not in nd.d or nd.d['closed'] is not True:
            return False
        _, pend, objs, _ = gfs.content(nd)
        return len(objs) == 1 and pend == '' and self.merged(objs[0])

    def whole(self, nd):
        return nd is not None and nd.d.get('closed') is True and len(nd.d['objs']) == 1

    def load(self, f):
        I, nd = self.I, f.d['node']
        if nd is self.na:
            return self.v1
        if nd is self.nb:
            return self.v2
        if not self.whole(nd):
            for e in BROKEN[:-1]:
                if I.branch(I.fresh(SBool, 'ends with ' + e)):
                    I.raise_(e, 'truncated')
            I.raise_(BROKEN[-1], 'truncated')
        return nd.d['objs'][0]

    def parts_there(self):
        G = self.G
        return z_and(z_bool(G.present(self.A)), z_bool(G.present(self.B)), G.node(self.A) is self.na, G.node(self.B) is self.nb)

    def recoverable(self):
        """what loading again gives has the counts of both parts, once: a complete interrupted result stands for them, a broken one for nothing"""
        G = self.G
        pT, nT, pN, nN = G.present(self.T), G.node(self.T), G.present(self.N), G.node(self.N)
        if pT is True and self.whole(nT):
            return self.complete(nT)
        if pN is True:
            return z_and(z_not(z_bool(G.present(self.A))), z_not(z_bool(G.present(self.B))), self.complete(nN), pT is not True)
        return self.parts_there()

    def after(self, G, kind, paths):
        I = self.I
        if self.T is None:
            # the first file written is the result to be: its name carries the three identifiers
            ids = self.v1.fields['id']
            self.names(ids)
        I.ensure('only the files of this merge are touched', all(any(gfs.same(p, x) for x in (self.A, self.B, self.T, self.N, self.dump)) for p in paths))
        for p in (self.T, self.N):
            if G.entry(p) is None:
                G.add(p, False, None)
        I.ensure('stopped here, loading again gives the same counts', self.recoverable())


def t_merge(I):
    I.contracts[NewId.qual], I.contracts[AddVocab.qual] = NewId(), AddVocab()
    w = World(I)
    G = w.G
    G.add(w.A, True, w.na)
    G.add(w.B, True, w.nb)
    G.add(w.dump, True, None)
    vm = ObjV(I.fn(P + ':VocabMerger'), {'path_to_dump': w.dump, 'id': fresh_int(I, 'id', 0)})
    out = I.outcome(I.getattr(vm, '_merge'), [w.v1, w.v2], {})
    if out[0] != 'ok':
        return
    r, _ = I.unpack(out[1], 2, [False] * 2)
    I.ensure('the merge is on disk', G.present(w.N) is True and z_bool(w.complete(G.node(w.N))))
    I.ensure('nothing else is', z_and(z_not(z_bool(G.present(w.A))), z_not(z_bool(G.present(w.B))), z_not(z_bool(G.present(w.T)))))
    I.ensure('the merged vocabulary goes on', z_and(w.merged(r), gfs.same(fs.pjoin(w.dump, I.cat(r.fields['id'], EXT)), w.N)))


def t_finish(I):
    w = World(I)
    G = w.G
    w.names(digits(I, 'new_id'))
    G.add(w.dump, True, None)
    if I.branch(I.fresh(SBool, 'the result is complete')):
        d = I.fresh(SDict(SStr, SInt), 'merged')
        for _, c in c13.merged_ok(d._c, w.m1, w.m2, w.m2.size):
            I.assume(c)
        G.add(w.T, True, CellV('node', lines=ListV(Seq(items=[])), pend='', closed=True, objs=[ObjV(I.fn(P + ':PartialVocab'), {
            'merged_word_counts': d, 'chunk': w.chunk, 'id': w.new})]))
        a = I.fresh(SBool, 'first part there')
        b = I.fresh(SBool, 'second part there')
        done = True
    else:
        G.add(w.T, True, CellV('node', lines=ListV(Seq(items=[])), pend='', closed=False, objs=[]))
        a = b = True
        done = False
    G.add(w.A, a, w.na)
    G.add(w.B, b, w.nb)
    G.add(w.N, False, None)
    out = I.outcome(I.fn(P + ':finish_file_dumping'), [w.T], {})
    if out[0] != 'ok':
        I.ensure('only a fault of the disk stops it', exc_is(out, 'OSError') or exc_is(out, 'FileNotFoundError'))
        return
    I.ensure('no interrupted result is left', z_not(z_bool(G.present(w.T))))
    if done:
        I.ensure('a complete result replaces its parts', z_and(G.present(w.N) is True and z_bool(w.complete(G.node(w.N))), z_not(z_bool(G.present(w.A))),
                                                              z_not(z_bool(G.present(w.B)))))
    else:
        I.ensure('a truncated one is discarded', z_and(w.parts_there(), z_not(z_bool(G.present(w.N)))))


D = z3.Plus(z3.Range('0', '9'))
lit = lambda s: z3.Re(z3.StringVal(s))      # noqa
SINGLE = z3.Concat(D, lit(EXT))
TRIPLE = z3.Concat(D, lit('_'), D, lit('_'), D, lit(EXT))


def t_id(I):
    TIME = z3.DeclareSort('Time')
    pid, rnd = fresh_int(I, 'pid', 1), fresh_int(I, 'random', 0)
    s1, s2 = I.fresh(SStr, 'seconds'), I.fresh(SStr, 'fraction')
    I.assume(*[z_bool(loops.no_sep(I, x, c)) for x in (s1, s2) for c in '._'], cur_str().length(s1) > 0, cur_str().length(s2) > 0)
    I.natives['os.getpid'] = lambda I, a, k: pid
    I.natives['random.randint'] = lambda I, a, k: rnd if a[0] == 0 else I.raise_('ValueError')
    I.natives['time.time'] = lambda I, a, k: I.fresh(SOpaque(TIME), 'now')
    I.natives['$str'] = lambda I, a, k: I.cat(I.cat(s1, '.'), s2) if is_term(a[0]) and a[0].sort() == TIME else None
    I.trusted.add('the time since the epoch is written as digits with a point')
    v = ObjV(I.fn(P + ':PartialVocab'), {})
    out = I.outcome(I.getattr(v, '_generate_id'), [], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] == 'ok':
        ps = cur_str().parts(to_z3(out[1]))
        number = lambda x: x.decl().name() == 'int2str' and bool(I.entails(x.arg(0) >= 0))     # noqa
        I.ensure('an identifier consists of digits', len(ps) > 0 and all(x.isdigit() if isinstance(x, str) else x.eq(s1) or x.eq(s2) or number(x) for x in ps))


def glob(p):
    """a file name pattern as a regular expression"""
    r, i = [], 0
    while i < len(p):
        if p[i] == '*':
            r.append(z3.Star(z3.AllChar(z3.ReSort(z3.StringSort()))))
        elif p[i] == '?':
            r.append(z3.AllChar(z3.ReSort(z3.StringSort())))
        elif p[i] == '[':
            j = p.index(']', i)
            b = p[i + 1:j]
            if len(b) != 3 or b[1] != '-' or b[0] == '!':
                raise Unsupported('file name pattern')
            r.append(z3.Range(b[0], b[2]))
            i = j
        else:
            r.append(lit(p[i]))
        i += 1
    return z3.Concat(*r) if len(r) > 1 else r[0]


def places(I, s, cond, name):
    """rank(i): how many of the first i elements satisfy cond"""
    F = Fold(I, name, SInt, 0, lambda acc, t: z3.If(cond(s.get(t)), to_z3(acc) + 1, to_z3(acc)))
    I.assume(z_bool(F.base_axiom()))
    return F


def chosen(c, s, cond, F, img, upto):
    """c holds the images of the elements of s (the first upto) with cond, in order"""
    return [('so many', eqv(c.n, F.at(upto))),
            ('each of them', forall_int(lambda t: z3.Implies(cond(s.get(t)), z3.And(0 <= to_z3(F.raw(t)), to_z3(F.raw(t)) < to_z3(c.n),
                                                                                z_bool(eqv(c.get(F.raw(t)), img(s.get(t)))))), 0, upto))]


VOC = z3.DeclareSort('Vocab')


def holds_for(cls, r):
    """True / False / None: every / no / some text of the class matches"""
    x = z3.String('x!')

    def empty(e):
        v = z3.Solver()
        v.set('timeout', 20000)
        v.add(z3.InRe(x, e))
        return v.check() == z3.unsat
    if empty(z3.Intersect(cls, r)):
        return False
    if empty(z3.Intersect(cls, z3.Complement(r))):
        return True
    return None


def t_load(I):
    """all n files of the directory, whatever they are: every interrupted merge is resumed, then every partial vocabulary is loaded, once"""
    fs.install_paths(I)
    A = cur_str().sort
    path = I.fresh(SStr, 'path')
    is_triple, is_single = z3.Function('is_triple', A, BOOL), z3.Function('is_single', A, BOOL)
    x0 = z3.Const('x!', A)
    ready = to_z3('ready')
    I.assume(z3.ForAll([x0], z3.And(z3.Not(z3.And(is_triple(x0), is_single(x0)))), patterns=[is_triple(x0)]), z3.Not(is_triple(ready)), z3.Not(is_single(ready)))
    kind = lambda x: z3.Or(is_single(to_z3(x)), is_triple(to_z3(x)), to_z3(x) == ready)       # noqa

    def matches(x, r):
        """does the name match the regular expression: decided for each kind of name"""
        c = [holds_for(k, r) for k in (SINGLE, TRIPLE, lit('ready'))]
        x = to_z3(x)
        u = z3.Function('matches:%s' % r.sexpr(), A, BOOL)(x)
        b = [u if k is None else z3.BoolVal(k) for k in c]
        return z3.If(is_single(x), b[0], z3.If(is_triple(x), b[1], z3.If(x == ready, b[2], u)))
    every = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))

    def affix(before):
        def f(I, a, k):
            fix = a[2] if isinstance(a[2], tuple) else (a[2],)
            if not all(isinstance(y, str) for y in fix):
                raise Unsupported('startswith')
            return z_or(*[matches(a[0], z3.Concat(every, lit(y)) if before else z3.Concat(lit(y), every)) for y in fix])
        return f
    I.natives['$override:endswith'], I.natives['$override:startswith'] = affix(True), affix(False)
    listings = []
    I.ghost['finished'] = ListV(Seq(items=[]))
    folds = {}
    jt = z3.Int('jt')

    def listdir(I, a, k):
        I.require('the directory given', eqv(a[0], path))
        if listings:
            s0 = listings[0]
            F = folds['done']
            for nm, c in chosen(I.ghost['finished']._c, s0, is_triple, F, lambda x: fs.pjoin(path, x), s0.n):
                I.require('every interrupted merge is finished before the vocabularies are loaded: ' + nm, c)
        l = fresh_list(I, SStr, 'names%d' % len(listings))
        s = l._c
        # the second time no interrupted merge is left (target finish)
        ok = (lambda x: z3.Or(is_single(to_z3(x)), to_z3(x) == ready)) if listings else kind
        I.assume(z3.ForAll([jt], z3.Implies(z3.And(0 <= jt, jt < to_z3(s.n)), ok(s.get(jt))), patterns=[to_z3(s.get(jt))]))
        folds['load' if listings else 'done'] = places(I, s, is_single if listings else is_triple, 'rank%d' % len(listings))
        listings.append(s)
        return l
    I.natives['os.listdir'] = listdir

    def fnmatch(I, a, k):
        if not isinstance(a[1], str):
            raise Unsupported('file name pattern')
        return matches(a[0], glob(a[1]))
    I.natives['fnmatch.fnmatch'] = I.natives['fnmatch.fnmatchcase'] = fnmatch

    class Finish(Contract):
        """finish_file_dumping (target finish)"""
        qual = P + ':finish_file_dumping'

        def apply(self, I, b):
            p = to_z3(b['path_to_new_file'])
            if not (z3.is_app(p) and p.decl().name() == 'path.join'):
                raise Unsupported('path of an interrupted merge')
            I.require('an interrupted merge', z3.And(p.arg(0) == to_z3(path), is_triple(p.arg(1))))
            I.ghost['finished'] = ListV(V.seq_append(I.ghost['finished']._c, p))
            return None
    I.contracts[Finish.qual] = Finish()
    content = z3.Function('content', cur_str().sort, VOC)
    I.natives['builtins.open'] = lambda I, a, k: CellV('file', path=a[0]) if (a[1] if len(a) > 1 else k.get('mode', 'r')) == 'rb' else I.raise_('ValueError')
    I.natives['$enter:file'] = lambda I, a, k: a[0]
    I.natives['$exit:file'] = I.natives['$method:file.close'] = lambda I, a, k: None
    I.natives['dill.load'] = lambda I, a, k: content(to_z3(a[0].d['path']))
    I.natives['$isinstance'] = lambda I, a, k: True if is_term(a[0]) and a[0].sort() == VOC else None

    def cands(v):
        r = []
        for nm, c, _ in v.seqs():
            for i, (f, cond) in enumerate((('done', is_triple), ('load', is_single))):
                if len(listings) > i and f in folds:
                    img = (lambda x: fs.pjoin(path, x)) if i == 0 else (lambda x: content(fs.pjoin(path, x)))
                    try:
                        r += [('%s %s %s' % (nm, f, a), q) for a, q in chosen(c, listings[i], cond, folds[f], img, v.k)]
                    except (Unsupported, z3.Z3Exception, TypeError):
                        r += [('%s %s %s' % (nm, f, a), True) for a in ('so many', 'each of them')] if c.items == [] else []
                    r.append(('%s rank' % nm, to_z3(folds[f].at(v.k)) >= 0))
        return r
    I.loop_cands.append(cands)
    out = I.outcome(I.fn(P + ':load_partial_vocabs'), [path], {})
    I.ensure('no error', out[0] == 'ok')
    if out[0] != 'ok':
        return
    I.ensure('the directory is read again once no interrupted merge is left', len(listings) == 2)
    if len(listings) == 2:
        for nm, c in chosen(as_seq(out[1]), listings[1], is_single, folds['load'], lambda x: content(fs.pjoin(path, x)), listings[1].n):
            I.ensure('every partial vocabulary is loaded once: ' + nm, c)


def t_initial(I):
    """a partial vocabulary is in the file of its identifier, complete, once it is counted as there"""
    I.contracts[NewId.qual] = NewId()
    d = I.fresh(SDict(SStr, SInt), 'words')
    d.default, d.pycls = NativeFn('zero', lambda I2, b, k: 0), 'Counter'

    class GetVocab(Contract):
        qual = P + ':get_vocab'

        def apply(self, I, b):
            files.append(b['file_paths'])
            return d
    files = []
    I.contracts[GetVocab.qual] = GetVocab()
    G = gfs.GFS(I)
    I.natives['dill.dump'] = I.natives['pickle.dump']
    dump, group, chunk = I.fresh(SStr, 'path_to_dump'), fresh_list(I, SStr, 'files'), I.fresh(SInt, 'chunk')
    out = I.outcome(I.fn(P + ':create_and_dump_partial_vocab'), [(group, dump, chunk)], {})
    if out[0] != 'ok':
        return
    v = out[1]
    I.ensure('the words of the group are counted', len(files) == 1 and files[0] is group and v.fields['merged_word_counts'] is d)
    I.ensure('in its chunk', eqv(v.fields['chunk'], chunk))
    nd = G.node(fs.pjoin(dump, I.cat(v.fields['id'], EXT)))
    I.ensure('it is on disk', nd is not None and nd.d['closed'] is True and len(nd.d['objs']) == 1)
    if nd is not None and len(nd.d['objs']) == 1:
        o = nd.d['objs'][0]
        I.ensure('with these words', o.fields['merged_word_counts']._c is d._c and gfs.same(o.fields['id'], v.fields['id']))
        I.ensure('its chunk', eqv(o.fields['chunk'], chunk))


def t_ready(I):
    """the partial vocabularies are declared ready only once all of them are there"""
    dump = I.fresh(SStr, 'path_to_dump')
    made = []
    READY = fs.pjoin(dump, 'ready')

    def after(G, kind, paths):
        I.ensure('not ready before all are there', z_or(z_not(z_bool(G.present(READY))), len(made) == 1))
        for p in paths:
            I.ensure('only the directory of the partial vocabularies is touched', gfs.same(p, dump) or gfs.same(p, READY))
    G = gfs.GFS(I, after)
    there = I.fresh(SBool, 'left from before')
    G.add(dump, there, None)
    G.add(READY, False, None)

    def rmtree(I, a, k):
        G.fault('rmtree')
        G.put(a[0], False, None)
        G.step('rmtree', a[0])
    I.natives['shutil.rmtree'] = rmtree

    def makedirs(I, a, k):
        I.guard(z_not(z_bool(G.present(a[0]))), 'FileExistsError', a[0])
        G.put(a[0], True, None)
        G.step('makedirs', a[0])
    I.natives['os.makedirs'] = makedirs

    class Initial(Contract):
        """create_initial_partial_vocabs: one partial vocabulary per group of files (C13), or a failure"""
        qual = P + ':create_initial_partial_vocabs'

        def apply(self, I, b):
            I.require('in a directory of their own', z_and(gfs.same(b['path_to_dump'], dump), z_bool(G.present(dump))))
            I.require('nothing is left from before', fresh_dir())
            G.fault('initial', 'RuntimeError')
            made.append(b['all_files'])
            return tasks
    tasks = fresh_list(I, SOpaque(VOC), 'tasks')
    I.contracts[Initial.qual] = Initial()
    files = fresh_list(I, SStr, 'files')

    def fresh_dir():
        ks = [k for k, p in G.trace if k in ('rmtree', 'makedirs')]
        return z_or(ks == ['rmtree', 'makedirs'], z_and(ks == ['makedirs'], z_not(there)))

    def end(I, a, k):
        I.raise_('SystemExit', *a)
    I.natives['builtins.exit'] = I.natives['sys.exit'] = end
    out = I.outcome(I.fn(P + ':create_partial_vocabs'), [CellV('seqview', seq=files._c), dump], {})
    if out[0] != 'ok':
        I.ensure('when it fails, ready only if all are there', z_or(z_not(z_bool(G.present(READY))), len(made) == 1))
        return
    I.ensure('all files are counted', len(made) == 1 and z_bool(eq_all(made[0], files._c)))
    I.ensure('ready', z_bool(G.present(READY)))
    I.ensure('the partial vocabularies are given back', out[1] is tasks)
    I.ensure('ready is what readiness is judged by', z_bool(I.call(I.fn(P + ':partial_vocabs_ready'), [dump], {})))


TARGETS = [
    Target('merge', 'C24', ['pipeline.vocab.VocabMerger._merge', 'pipeline.vocab.finish_file_dumping', 'pipeline.vocab.PartialVocab.renew_id'], t_merge, str_mode='atom'),
    Target('finish', 'C24', ['pipeline.vocab.finish_file_dumping'], t_finish, str_mode='atom'),
    Target('id', 'C24', ['pipeline.vocab.PartialVocab._generate_id'], t_id, str_mode='atom'),
    Target('load', 'C24', ['pipeline.vocab.load_partial_vocabs'], t_load, str_mode='atom'),
    Target('initial', 'C24', ['pipeline.vocab.create_and_dump_partial_vocab', 'pipeline.vocab.PartialVocab.__init__'], t_initial, str_mode='atom'),
    Target('ready', 'C24', ['pipeline.vocab.create_partial_vocabs', 'pipeline.vocab.partial_vocabs_ready'], t_ready, str_mode='atom'),
]

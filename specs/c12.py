"""C12 Saved BPE files and vocabularies read back unchanged.

Each writer is verified to write exactly one line per entry, and each reader to give back the entries of a file of such lines; the
line formats are written down once (below), so the two contracts compose to the round trip."""
from specs.lib import *
from specs.c11 import merge_list, at, all_pos, content, MERGE
from pyvc import fs

MG, CA, VO = 'codeprep.bpepkg.merge', 'codeprep.bpepkg.cache', 'codeprep.pipeline.vocab'


def lit(I, x):
    return I.escape(I, x)


def num(I, n):
    return I.natives['builtins.str'](I, [n], {})


def cats(I, *xs):
    r = ''
    for x in xs:
        r = I.cat(r, x)
    return r


# ---- the line formats
def merge_line(I, pair, freq):
    head = cats(I, lit(I, pair[0]), ' ', lit(I, pair[1]))
    return head if freq is None else cats(I, head, ' ', num(I, freq))


def cache_line(I, word, joined):
    return cats(I, lit(I, word), '\t', lit(I, joined))


def count_line(I, word, freq):
    return cats(I, lit(I, word), '\t', num(I, freq))


# ---- common parts
def path(I):
    return I.fresh(SStr, 'file')


def lines_cands(line):
    """the lines written so far are those of the first entries"""
    def cands(v):
        r = []
        for nm, c, e in v.seqs():
            try:
                if not is_str(c.get(z3.IntVal(0)) if c.items is None else ''):
                    continue
                r.append(('%s so many' % nm, to_z3(c.n) == v.k))
                r.append(('%s the lines' % nm, forall_int(lambda j: eqv(c.get(j), line(j)), 0, v.k)))
            except Unsupported:
                pass
        return r
    return cands


def written(I, p, n, line):
    w = I.written.get(to_z3(p).get_id())
    I.ensure('the file is written', w is not None)
    if w is None:
        return
    I.ensure('it is one file', len(I.written) == 1)
    c = w[1].d['lines']._c
    I.ensure('every line is complete', w[1].d['pend'] == '')
    I.ensure('as many lines as entries', to_z3(c.n) == to_z3(n))
    I.ensure('line by line the entries', forall_int(lambda j: eqv(c.get(j), line(j)), 0, n))


def serve(I, p, n, line):
    I.files.append((to_z3(p), Seq(n=n, get=line)))


def no_spaces(I, get, n):
    """the strings get(j) for each j have no space"""
    j = z3.Int('jn!%d' % next(V._fc))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < to_z3(n)), z3.And(*[z_bool(loops_no_sep(I, x)) for x in get(j)]))))


def loops_no_sep(I, x):
    from pyvc import loops
    return loops.no_sep(I, x, ' ')


# ---- merge lists
def merges(I, with_freq):
    fs.text_files(I)
    ml, m = merge_list(I, 'L')
    f = lambda j: at(m, j).fields['freq']      # noqa
    no_spaces(I, lambda j: m.keys.get(j), m.size)
    if with_freq is None:
        def rstrip(I, a, kw):
            """a line of either form: one case each"""
            o, g, x = a
            ps = cur_str().parts(to_z3(o))
            if ps and z3.is_app_of(ps[0], z3.Z3_OP_ITE):
                o = cats(I, ps[0].arg(1) if I.branch(ps[0].arg(0)) else ps[0].arg(2), *ps[1:])
            return g(I, o, [x], kw)
        I.natives['$override:rstrip'] = rstrip
        return ml, m, lambda j: z3.If(f(j).isnone, merge_line(I, m.keys.get(j), None), merge_line(I, m.keys.get(j), f(j).val))
    if with_freq:
        I.assume(forall_int(lambda j: z3.Not(f(j).isnone), 0, m.size))
        g = lambda j: f(j).val                 # noqa
    else:
        I.assume(forall_int(lambda j: f(j).isnone, 0, m.size))
        g = lambda j: None                     # noqa
    return ml, m, lambda j: merge_line(I, m.keys.get(j), g(j))


def t_dump_merges(with_freq):
    def run(I):
        ml, m, line = merges(I, with_freq)
        I.loop_cands.append(lines_cands(line))
        p = path(I)
        I.call(I.fn(MG + ':dump_merges'), [ml, p], {})
        written(I, p, m.size, line)
    return run


def t_read_merges(with_freq, limited):
    def run(I):
        ml, m, line = merges(I, with_freq)
        n = to_z3(m.size)
        p = path(I)
        serve(I, p, n, line)
        if limited:
            lim = fresh_int(I, 'n_merges', 1)
            want = z3.If(lim < n, lim, n)
            args = [p, lim]
        else:
            want = n
            args = [p] + ([None] if I.branch(I.fresh(SBool, 'None')) else [0] if I.branch(I.fresh(SBool, '0')) else [])

        def cands(v):
            r = []
            for nm, c, _ in v.maps():
                if c.items is not None and c.items:
                    continue
                try:
                    if c.items == {}:
                        r += [('%s size' % nm, True), ('%s first' % nm, True), ('%s domain' % nm, True)]
                        continue
                    r.append(('%s size' % nm, to_z3(c.size) == v.k))
                    r.append(('%s first' % nm, same_first(c, m, v.k)))
                    q = (z3.Const('qx', cur_str().sort), z3.Const('qy', cur_str().sort))
                    r.append(('%s domain' % nm, z3.ForAll(list(q), to_z3(c.has(q)) == z3.And(to_z3(m.has(q)), to_z3(m.idx(q)) < v.k))))
                except (Unsupported, AttributeError, KeyError, TypeError):
                    pass
            if limited:
                r.append(('within the limit', v.k <= lim))
            return r
        I.loop_cands.append(cands)
        r = I.call(I.fn(MG + ':read_merges'), args, {})
        c = content(I, r)
        if c.items == {}:
            I.ensure('nothing to read', want == 0)
            return
        I.ensure('so many merges', to_z3(c.size) == want)
        I.ensure('the merges written, in order', same_first(c, m, want))
        q = (I.fresh(SStr, 'qa'), I.fresh(SStr, 'qb'))
        I.ensure('found under their pairs', to_z3(c.has(q)) == z3.And(to_z3(m.has(q)), to_z3(m.idx(q)) < want))
    return run


def same_first(c, m, k):
    def f(j):
        x, y = at(c, j), at(m, j)
        return z_and(eqv(c.keys.get(j), m.keys.get(j)), eqv(x.fields['pair'], m.keys.get(j)), eqv(x.fields['freq'], y.fields['freq']), eqv(x.fields['priority'], j))
    return all_pos(m, f, 0, k)


# ---- dictionaries of counts
def map_cands(m, get=None, n=None):
    """the map read so far holds the first entries"""
    def cands(v):
        r = []
        for nm, c, _ in v.maps():
            try:
                if c.items == {}:
                    r += [('%s domain' % nm, True), ('%s values' % nm, True)]
                    continue
                q = z3.Const('q', cur_str().sort)
                r.append(('%s domain' % nm, z3.ForAll([q], to_z3(c.has(q)) == z3.And(to_z3(m.has(q)), to_z3(m.idx(q)) < v.k))))
                if get is not None:
                    r.append(('%s values' % nm, z3.ForAll([q], z3.Implies(z3.And(to_z3(m.has(q)), to_z3(m.idx(q)) < v.k), z_bool_t(eqv(c.get(q), get(q)))))))
            except (Unsupported, AttributeError, KeyError, TypeError):
                pass
        return r
    return cands


def z_bool_t(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def same_map(I, c, m, get=None):
    q = I.fresh(SStr, 'word')
    if c.items == {}:
        I.ensure('nothing to read', to_z3(m.size) == 0)
        return
    I.ensure('exactly the words written', to_z3(c.has(q)) == to_z3(m.has(q)))
    if get is not None:
        I.ensure('with the values written', z3.Implies(to_z3(m.has(q)), z_bool_t(eqv(c.get(q), get(q)))))


def pairs_list(I, m, raw=False):
    """the entries of the dictionary, in some order: its own"""
    f = (lambda j: lit(I, m.keys.get(j))) if raw else (lambda j: m.keys.get(j))
    return ListV(Seq(n=m.size, get=lambda j: (f(j), m.get(m.keys.get(j)))))


def counts(I):
    fs.text_files(I)
    d = I.fresh(SDict(SStr, SInt), 'counts')
    m = d._c
    return d, m, lambda j: count_line(I, m.keys.get(j), m.get(m.keys.get(j)))


def t_dump_counts(I):
    d, m, line = counts(I)
    I.loop_cands.append(lines_cands(line))
    p = path(I)
    if I.branch(I.fresh(SBool, 'already escaped')):
        I.call(I.fn(VO + ':_dump_vocab_dict'), [pairs_list(I, m, raw=True), p], {'to_literal': False})
    else:
        I.call(I.fn(VO + ':_dump_vocab_dict'), [pairs_list(I, m), p], {'to_literal': True} if I.branch(I.fresh(SBool, 'explicit')) else {})
    written(I, p, m.size, line)


def t_load_counts(I):
    d, m, line = counts(I)
    p = path(I)
    serve(I, p, m.size, line)
    I.loop_cands.append(map_cands(m, m.get))
    r = I.call(I.fn(VO + ':_load_vocab_dict'), [p], {})
    same_map(I, r._c, m, m.get)


class DumpCounts(Contract):
    """_dump_vocab_dict (proved by target dump-counts): one line per entry"""
    qual = VO + ':_dump_vocab_dict'

    def __init__(self):
        self.calls = []

    def apply(self, I, b):
        self.calls.append((as_seq(b['lst']), b['file'], b['to_literal']))


def t_write_vocab(I):
    """PartialVocab.write_vocab: the counts of preprocessed (escaped) words, in some order"""
    fs.text_files(I)
    k = DumpCounts()
    I.contracts[k.qual] = k
    d = DictV(I.fresh(SDict(SStr, SInt), 'counts')._c)
    d.pycls = 'Counter'
    m = d._c
    pv = ObjV(I.fn(VO + ':PartialVocab'), {'merged_word_counts': d, 'stats': fresh_list(I, SInt, 'stats'), 'n_files': fresh_int(I, 'n_files', 1),
                                           'chunk': fresh_int(I, 'chunk'), 'id': I.fresh(SStr, 'id')})
    p = path(I)
    I.method(pv, 'write_vocab', p)
    I.ensure('dumped once, to that file, unescaped', len(k.calls) == 1 and k.calls[0][1] is p and k.calls[0][2] is False)
    s = k.calls[0][0]
    I.ensure('as many entries as words', to_z3(s.n) == to_z3(m.size))
    j = fresh_int(I, 'j', 0)
    I.assume(j < to_z3(s.n))
    w, f = s.get(j)
    I.ensure('each entry is a word with its count', z3.And(to_z3(m.has(w)), z_bool_t(eqv(f, m.get(w)))))
    q = I.fresh(SStr, 'q')
    I.ensure('each word has an entry', z3.Implies(to_z3(m.has(q)), exists_int(lambda i: eqv(s.get(i)[0], q), 0, s.n)))


# ---- caches of segmentations
def cache(I):
    fs.text_files(I)
    d = I.fresh(SDict(SStr, SList(SStr)), 'cache')
    m = d._c
    srt = cur_str().sort
    J = z3.Function('joined', srt, srt)
    one = lambda k: to_z3(as_seq(m.get(k)).n)      # noqa
    k = z3.Const('kc', srt)
    I.assume(z3.ForAll([k], z3.Implies(to_z3(m.has(k)), one(k) >= 1)))
    i = z3.Int('ic')
    I.assume(z3.ForAll([k, i], z3.Implies(z3.And(to_z3(m.has(k)), 0 <= i, i < one(k)), z_bool_t(z_bool(loops_no_sep(I, as_seq(m.get(k)).get(i)))))))

    def join(I, a, kw):
        o, f, x = a
        s = I.to_seq(x)
        if s.items is None and is_term(s.n) and z3.is_app(s.n) and s.n.num_args() == 1 and s.n.arg(0).sort() == srt and o == ' ':
            key = s.n.arg(0)
            if eqv(s.n, one(key)) is True or z3.simplify(s.n == one(key)).eq(z3.BoolVal(True)):
                t = J(key)
                I.join_of.setdefault(t.get_id(), []).append((t, ' ', s))
                return t
        return f(I, o, [x], kw)
    I.natives['$override:join'] = join
    key = lambda j: m.keys.get(j)      # noqa

    def split(I, o, sep, maxsplit):
        """' '.join(L).split(' ') == L for non-empty L without spaces (proved for each key above)"""
        zo = to_z3(o)
        if sep == ' ' and maxsplit is None and z3.is_app(zo) and zo.decl().eq(J):
            if I.entails(to_z3(m.has(zo.arg(0)))):
                I.trusted.add('lemma: sep.join(L).split(sep) == L for non-empty L whose elements do not contain sep')
                return ListV(as_seq(m.get(zo.arg(0))))
        return None
    I.natives['$split'] = split
    return d, m, lambda j: cache_line(I, key(j), J(key(j)))


def t_dump_cache(I):
    d, m, line = cache(I)
    I.loop_cands.append(lines_cands(line))
    p = path(I)
    I.call(I.fn(CA + ':dump_bpe_cache'), [d, p], {})
    written(I, p, m.size, line)


def t_read_cache(I):
    d, m, line = cache(I)
    p = path(I)
    serve(I, p, m.size, line)
    I.loop_cands.append(map_cands(m, m.get))
    r = I.call(I.fn(CA + ':read_bpe_cache'), [p], {})
    same_map(I, r._c, m, m.get)


# ---- sets of tokens
def tokens(I):
    fs.text_files(I)
    s = I.fresh(SSet(SStr), 'tokens')
    return s, s._c, lambda j: lit(I, s._c.keys.get(j))


def t_save_metadata(I):
    s, m, line = tokens(I)
    I.loop_cands.append(lines_cands(line))
    p = path(I)
    md = ObjV(I.fn('codeprep.preprocess.metadata:PreprocessingMetadata'), {'nonprocessable_tokens': s, 'word_boundaries': fresh_list(I, SInt, 'wb'),
                                                                        'token_types': fresh_list(I, SInt, 'tt')})
    I.call(I.fn('codeprep.preprocess.metadata:save_metadata'), [md, p], {})
    written(I, p, m.size, line)


def t_load_set(I):
    s, m, line = tokens(I)
    p = path(I)
    serve(I, p, m.size, line)
    I.loop_cands.append(map_cands(m))
    r = I.call(I.fn(VO + ':_load_vocab_set'), [p], {})
    same_map(I, r._c, m)


def t_load_nonbpe(I):
    s, m, line = tokens(I)
    p = path(I)
    serve(I, p, m.size, line)
    I.loop_cands.append(map_cands(m))
    ds = I.fn('codeprep.pipeline.dataset:Dataset')
    o = ObjV(ds, {})
    I.natives['$getattr:path_to_nonbpe_vocab_file'] = lambda I, a, k: p

    class Path(Contract):
        qual = 'codeprep.pipeline.dataset:Dataset.path_to_nonbpe_vocab_file'

        def apply(self, I, b):
            return p
    I.contracts[Path.qual] = Path()
    r = I.call(I.fn('codeprep.pipeline.bpelearner:load_nonbpe_vocab'), [o], {})
    same_map(I, r._c, m)


U = ['util.to_literal_str']
D = ['util.to_non_literal_str']
TARGETS = [
    Target('dump-merges', 'C12', ['bpepkg.merge.dump_merges'] + U, t_dump_merges(None), str_mode='atom'),
    Target('read-merges', 'C12', ['bpepkg.merge.read_merges', 'bpepkg.merge.Merge.parse_file_entry', 'bpepkg.merge.MergeList.append'] + D, t_read_merges(None, False), str_mode='atom'),
    Target('read-first-merges', 'C12', ['bpepkg.merge.read_merges', 'bpepkg.merge.Merge.parse_file_entry'] + D, t_read_merges(None, True), str_mode='atom'),
    Target('dump-counts', 'C12', ['pipeline.vocab._dump_vocab_dict'] + U, t_dump_counts, str_mode='atom'),
    Target('load-counts', 'C12', ['pipeline.vocab._load_vocab_dict'] + D, t_load_counts, str_mode='atom'),
    Target('write-vocab', 'C12', ['pipeline.vocab.PartialVocab.write_vocab'], t_write_vocab, str_mode='atom'),
    Target('dump-cache', 'C12', ['bpepkg.cache.dump_bpe_cache'] + U, t_dump_cache, str_mode='atom'),
    Target('read-cache', 'C12', ['bpepkg.cache.read_bpe_cache'] + D, t_read_cache, str_mode='atom'),
    Target('save-metadata', 'C12', ['preprocess.metadata.save_metadata'] + U, t_save_metadata, str_mode='atom'),
    Target('load-set', 'C12', ['pipeline.vocab._load_vocab_set'] + D, t_load_set, str_mode='atom'),
    Target('load-nonbpe', 'C12', ['pipeline.bpelearner.load_nonbpe_vocab'] + D, t_load_nonbpe, str_mode='atom'),
]

ASSUMPTIONS = [
    'the codec unicode-escape encodes character by character into printable ASCII without line breaks and tabs, keeps spaces and printable ASCII other than the backslash, and decoding inverts it',
    'a text file read back gives the lines written; the file encoding of the platform covers ASCII',
    'int(str(n)) == n',
]

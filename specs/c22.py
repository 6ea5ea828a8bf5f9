"""C22 An output file appears only once it is complete, C23 (the written text): the two preprocess_and_write functions, every crash point and fault."""
from specs.lib import *
from specs.toks import *
from pyvc import fs, gfs

PP, TR = 'codeprep.pipeline.parse_projects', 'codeprep.pipeline.to_repr'
EXC = ['OSError', 'RuntimeError', 'MemoryError', 'FileNotFoundError', 'EOFError']


def world(I, complete):
    """source and result files; the result may be there already"""
    fs.bytes_as_text(I)
    fs.escapes(I)
    src, dest = I.fresh(SStr, 'src'), I.fresh(SStr, 'dest')
    I.assume(to_z3(src) != to_z3(dest))
    there = I.fresh(SBool, 'already there')
    old = CellV('node', old=True)

    def after(G, kind, paths):
        nd = G.node(dest)
        p = G.present(dest)
        if nd is old:
            I.ensure('a result that was there is neither removed nor touched', eqv(p, there))
        else:
            I.ensure('a result that was there is not rewritten', z3.Not(there))
            if p is not False:
                I.ensure('under the final name there is only a complete result', complete(nd))
        I.ensure('the source is left alone', eqv(G.present(src), src_there) and G.node(src) is snode)
    G = gfs.GFS(I, after)
    src_there = I.fresh(SBool, 'source there')
    snode = CellV('node', source=True)
    G.add(src, src_there, snode)
    G.add(dest, there, old)
    # a file of an earlier, interrupted run may be left under the temporary name
    return G, src, dest, there, src_there, old


def finish(I, G, dest, there, old, out, complete):
    nd, p = G.node(dest), G.present(dest)
    if nd is old:
        I.ensure('a result that was there is still there', eqv(p, there))
        if out[0] == 'ok':
            return there
        return None
    I.ensure('a result that was there is not rewritten', z3.Not(there))
    I.ensure('the result is complete', complete(nd) if p is True else False)
    return True


def file_with(check):
    def complete(nd):
        if nd is None or 'closed' not in nd.d or nd.d['closed'] is not True:
            return False
        return check(*gfs.content(nd)[:3])
    return complete


def t_parse(I, lang=False):
    k = []

    class Convert(Contract):
        """convert_text: yields some tokens, or fails on the way"""
        qual = 'codeprep.parse.core:convert_text'

        def apply(self, I, b):
            G.fault('convert', EXC[1])
            G.fault('convert', EXC[3])
            r = fresh_list(I, STok, 'parsed')
            k.append((r._c, b['text'], b['extension']))
            return r

    lines = []

    class Read(Contract):
        """read_file_contents: the lines of the source; fails when it is not there"""
        qual = 'codeprep.fileutils:read_file_contents'

        def apply(self, I, b):
            G.need(b['file_path'])
            G.fault('read')
            r = fresh_list(I, SStr, 'lines')
            lines.append((r._c, b['file_path']))
            return (r, b['file_path'])
    for c in (Convert, Read):
        I.contracts[c.qual] = c()

    def check(ls, pend, objs):
        if len(objs) != 1 or len(k) != 1 or pend != '' or ls.items != []:
            return False
        return eq_all(objs[0], k[0][0]) if isinstance(objs[0], ListV) else False
    complete = file_with(check)
    G, src, dest, there, src_there, old = world(I, complete)
    base = I.fresh(SStr, 'base')
    ext = I.fresh(SStr, 'ext')
    I.natives['os.path.splitext'] = lambda I, a, kw: (base, I.cat('.', ext)) if gfs.same(a[0], src) else (I.fresh(SStr, 'b'), I.fresh(SStr, 'e'))
    out = I.outcome(I.fn(PP + ':preprocess_and_write'), [(src, dest)], {})
    done = finish(I, G, dest, there, old, out, complete)
    if done is True:
        t = k[0][1]
        I.ensure('the text of the source is parsed', gfs.same(lines[0][1], src) and eqv(t, join_term(I, '\n', lines[0][0])))
        if lang:
            I.ensure('in the language of its extension', eqv(k[0][2], ext))
    elif out[0] == 'ok':
        I.ensure('a result is missing only when the source has gone', z3.Or(there, z3.Not(src_there)))


def t_prep(I):
    k = []
    meta = []
    part = []

    class ToReprC(Contract):
        """to_repr (C05): the tokens and their metadata, or an error"""
        qual = TR + ':to_repr'

        def apply(self, I, b):
            G.fault('to_repr', EXC[1])
            r = fresh_list(I, SStr, 'repr')
            no = z3.Int('nos')
            I.assume(z3.ForAll([no], z3.Implies(z3.And(0 <= no, no < to_z3(r._c.n)), z_bool(loops_no_sep(I, r._c.get(no))))))
            k.append((r._c, b['prep_config'], b['token_list'], b['bpe_data']))
            meta.append(meta_obj(I, 'meta'))
            return (r, meta[0])

    saved = []

    class Save(Contract):
        """save_metadata (C12)"""
        qual = 'codeprep.preprocess.metadata:save_metadata'

        def apply(self, I, b):
            G.fault('save_metadata')
            saved.append((b['metadata'], b['save_to']))
            I.ensure('non-BPE tokens are saved elsewhere', not gfs.same(b['save_to'], dest))
    for c in (ToReprC, Save):
        I.contracts[c.qual] = c()

    def line():
        return I.escape(I, join_term(I, ' ', k[0][0]))

    def check(ls, pend, objs):
        if objs or len(k) != 1 or pend != '' or ls.items is None or len(ls.items) != 1:
            return False
        if part and (len(saved) != 1 or saved[0][0] is not meta[0]):
            return False        # its non-BPE tokens would be lost
        return eqv(ls.items[0], line())
    complete = file_with(check)
    G, src, dest, there, src_there, old = world(I, complete)
    toks = fresh_list(I, STok, 'tokens')
    G.loaded = lambda f: toks if gfs.same(f.d['path'], src) else I.raise_('EOFError')
    cfg = I.fresh(SOpaque(z3.DeclareSort('PrepConfig')), 'config')
    folder = I.fresh(SStr, 'folder') if I.branch(I.fresh(SBool, 'part folder')) else None
    if folder is not None:
        part.append(folder)
        I.assume(to_z3(cur_str().length(to_z3(folder))) > 0)
    given = I.branch(I.fresh(SBool, 'bpe data given'))
    bd = I.fresh(SOpaque(BPE), 'bpe_data') if given else None
    glob = I.fresh(SOpaque(BPE), 'global_bpe_data')

    class Glob(Contract):
        qual = TR + ':get_global_bpe_data_if_available'

        def apply(self, I, b):
            return glob
    I.contracts[Glob.qual] = Glob()
    out = I.outcome(I.fn(TR + ':preprocess_and_write'), [(src, dest, cfg, folder), bd], {})
    done = finish(I, G, dest, there, old, out, complete)
    if done is True:
        r, c, tl, b = k[0]
        I.ensure('under the given configuration', c is cfg)
        I.ensure('with the given merges, else those of the process', eqv(b, bd if given else glob))
        tl = as_seq(tl)
        I.ensure('the parsed tokens and the end of file', z3.And(to_z3(tl.n) == to_z3(toks._c.n) + 1,
                                                             forall_int(lambda j: eqv(tl.get(j), toks._c.get(j)), 0, toks._c.n)))
        last = tl.get(toks._c.n)
        I.ensure('the last one is the end of file', isinstance(last, (ObjV, V.FrozenObj)) and
                 eqv(I.natives['builtins.str'](I, [ObjV(last.cls, dict(last.fields))], {}), '<EOF>'))
        I.ensure('the non-BPE tokens are saved before', (folder is None and not saved) or (len(saved) == 1 and saved[0][0] is meta[0]))
    elif out[0] == 'ok':
        I.ensure('a result is missing only when it was there', there)


def loops_no_sep(I, x):
    from pyvc import loops
    return loops.no_sep(I, x, ' ')


TARGETS = [
    Target('parse', 'C22', ['pipeline.parse_projects.preprocess_and_write'], t_parse, str_mode='atom'),
    Target('prep', 'C22', ['pipeline.to_repr.preprocess_and_write', 'pipeline.to_repr.to_token_str', 'util.to_literal_str'], t_prep, str_mode='atom'),
]

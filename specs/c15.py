"""C15 BPE codes are selected by id and number of merges exactly."""
from specs.lib import *
from pyvc import fs, rx

M = 'codeprep.pipeline.bperegistry'
MAXINT = 2 ** 63 - 1
ISINT = lambda s: z3.Function('isint', cur_str().sort, BOOL)(to_z3(s))       # noqa
NUM = lambda s: z3.Function('intval', cur_str().sort, INT)(to_z3(s))         # noqa


def learned(nm, lo=None, hi=None):
    """a directory named by a number of merges (within the limits)"""
    c = [ISINT(nm), NUM(nm) >= 1, NUM(nm) < MAXINT]
    if lo is not None:
        c.append(NUM(nm) >= lo)
    if hi is not None:
        c.append(NUM(nm) <= hi)
    return z3.And(*c)


def numbers_ok(subs):
    """directories of merge lists are named by the number of merges, 1 .. sys.maxsize - 1"""
    return forall_int(lambda j: z3.Implies(ISINT(subs.get(j)), z3.And(NUM(subs.get(j)) >= 1, NUM(subs.get(j)) < MAXINT)), 0, subs.n)


def cands_for(I, subs, lo, hi, best):
    """best so far: min (best=-1) or max (best=1) of the numbers within the limits, or the initial value"""
    def cands(v):
        r = []
        for nm, c, _ in v.ints():
            c = to_z3(c)
            for init in (MAXINT, 0):
                none = forall_int(lambda j: z3.Not(learned(subs.get(j), lo, hi)), 0, v.k)
                some = exists_int(lambda j: z3.And(learned(subs.get(j), lo, hi), NUM(subs.get(j)) == c), 0, v.k)
                r.append(('%s %d or found' % (nm, init), z3.If(c == init, none, some)))
            r.append(('%s best' % nm, forall_int(lambda j: z3.Implies(learned(subs.get(j), lo, hi), (NUM(subs.get(j)) >= c) if best < 0 else (NUM(subs.get(j)) <= c)), 0, v.k)))
        return r
    I.loop_cands.append(cands)


def t_extreme(which):
    def run(I):
        fs.static(I)
        d = I.fresh(SStr, 'dir')
        I.assume(fs.exists(d))
        subs = as_seq(fs.subdirs(I, d))
        I.assume(numbers_ok(subs))
        lim = fresh_int(I, 'limit', 0)
        lo, hi = (lim, None) if which == 'min' else (None, lim)
        cands_for(I, subs, lo, hi, -1 if which == 'min' else 1)
        given = I.branch(I.fresh(SBool, 'limit given'))
        if not given:
            I.assume(lim == (0 if which == 'min' else MAXINT))
        r = I.call(I.fn('%s:get_%s_merges' % (M, which)), [d] + ([lim] if given else []), {})
        r = I.force(r) if not isinstance(r, OptV) else (None if I.branch(r.isnone) else r.val)
        if r is None:
            I.ensure('nothing within the limit', forall_int(lambda j: z3.Not(learned(subs.get(j), lo, hi)), 0, subs.n))
        else:
            r = to_z3(r)
            I.ensure('it is one of the learned numbers, within the limit', z3.Not(forall_int(lambda j: z3.Not(z3.And(learned(subs.get(j), lo, hi), NUM(subs.get(j)) == r)), 0, subs.n)))
            I.ensure('it is the %s' % ('smallest' if which == 'min' else 'largest'),
                     forall_int(lambda j: z3.Implies(learned(subs.get(j), lo, hi), (NUM(subs.get(j)) >= r) if which == 'min' else (NUM(subs.get(j)) <= r)), 0, subs.n))
    return run


class DirOf(Contract):
    """get_dataset_bpe_dir: the directory with the id (proved by target dir-by-id)"""
    qual = M + ':get_dataset_bpe_dir'

    def apply(self, I, b):
        return fs.uf('dir_of', cur_str().sort, cur_str().sort)(to_z3(b['bpe_list_id']))


class Extreme(Contract):
    """get_min_merges / get_max_merges as proved by targets min / max: nothing, or the best number within the limit"""

    def __init__(self, which):
        self.which, self.qual = which, '%s:get_%s_merges' % (M, which)

    def none(self, d, lim):
        return fs.uf('no_%s' % self.which, cur_str().sort, INT, BOOL)(to_z3(d), to_z3(lim))

    def val(self, d, lim):
        return fs.uf('the_%s' % self.which, cur_str().sort, INT, INT)(to_z3(d), to_z3(lim))

    def apply(self, I, b):
        d = to_z3(b[[k for k in b if k != 'limit'][0]])
        lim = b['limit']
        if I.branch(self.none(d, lim)):
            return None
        v = self.val(d, lim)
        I.assume(v >= 1, v < MAXINT)
        if self.which == 'min':
            I.assume(v >= to_z3(lim))
        else:
            I.assume(v <= to_z3(lim))
        return v


def install(I):
    fs.static(I)
    ks = {w: Extreme(w) for w in ('min', 'max')}
    for k in list(ks.values()) + [DirOf()]:
        I.contracts[k.qual] = k
    return ks


def t_create(I):
    ks = install(I)
    name = I.fresh(SStr, 'name')
    n = fresh_int(I, 'n_merges', 1)
    d = fs.uf('dir_of', cur_str().sort, cur_str().sort)(name)
    cls = I.fn(M + ':CustomBpeConfig')
    via_id = I.branch(I.fresh(SBool, 'from_id'))
    if via_id:
        class Parse(Contract):
            """parse_merge_list_id (proved by target parse)"""
            qual = M + ':parse_merge_list_id'

            def apply(self, I, b):
                return (name, n)
        I.contracts[Parse.qual] = Parse()
        out = I.outcome(I.getattr(cls, 'from_id'), [I.fresh(SStr, 'id')])
    else:
        out = I.outcome(I.getattr(cls, 'create'), [name, n])
    if out[0] == 'exc':
        I.ensure('refused only if there is no list with that many merges', z3.And(z_bool(out[1].cls.name == 'InvalidBpeCodesIdError'), ks['min'].none(d, n)))
        return
    c = out[1]
    I.ensure('there is such a list', z3.Not(ks['min'].none(d, n)))
    num = I.natives['builtins.str'](I, [ks['min'].val(d, n)], {})
    I.ensure('the file is that of the smallest list with enough merges', eqv(c.fields['codes_file'], fs.pjoin(fs.pjoin(d, num), 'merges.txt')))
    I.ensure('the requested number is kept', eqv(c.fields['n_merges'], n))
    I.ensure('the id is kept', eqv(c.fields['merge_list_id'], name))
    I.ensure('a cache made with more merges is not used', z_not(z_bool(I.truth(I.method(c, 'can_use_cache_file')))))


def t_parse(I):
    rx.install(I)
    name = I.fresh(SStr, 'name')
    n = fresh_int(I, 'n', 1)
    I.assume(rx.in_class('.*')(name))
    s = I.cat(I.cat(name, '-'), I.natives['builtins.str'](I, [n], {}))
    a, b = I.unpack(I.call(I.fn(M + ':parse_merge_list_id'), [s], {}), 2, [False, False])
    I.ensure('the name it was composed of', eqv(a, name))
    I.ensure('the number it was composed of', eqv(b, n))


def t_parse_any(I):
    """whatever is accepted is a composition"""
    rx.install(I)
    s = I.fresh(SStr, 'id')
    out = I.outcome(I.fn(M + ':parse_merge_list_id'), [s])
    if out[0] == 'exc':
        I.ensure('refused as an invalid id', out[1].cls.name == 'InvalidBpeCodesIdError')
        return
    a, b = I.unpack(out[1], 2, [False, False])
    c = I.cat(I.cat(a, '-'), I.natives['builtins.str'](I, [b], {}))
    I.ensure('an accepted id is composed of the name and number (a final line break is ignored)', z_or(eqv(s, c), eqv(s, I.cat(c, '\n'))))
    I.ensure('the number is positive', to_z3(b) >= 1)


class IdOf(Contract):
    """get_codes_id_by_bpe_path: the id recorded in a directory, if any"""
    qual = M + ':get_codes_id_by_bpe_path'

    def apply(self, I, b):
        p = to_z3(b['dataset_bpe_dir'])
        v = _fresh_opt(p)
        return v


def _fresh_opt(p):
    s = cur_str().sort
    return OptV(fs.uf('id.none', s, BOOL)(p), fs.uf('id.of', s, s)(p))


def t_dir(I):
    fs.static(I)
    I.contracts[IdOf.qual] = IdOf()
    root = I.fresh(SStr, 'user bpe dir')
    I.goverlay[(M, 'USER_BPE_DIR')] = root
    subs = as_seq(fs.subdirs(I, root))
    name = I.fresh(SStr, 'id')
    I.assume(cur_str().length(name) > 0)

    def has(j):
        p = fs.pjoin(root, subs.get(j))
        o = _fresh_opt(p)
        return z3.And(z3.Not(o.isnone), o.val == name)
    I.loop_cands.append(lambda v: [('not among the first', forall_int(lambda j: z3.Not(has(j)), 0, v.k))])
    I.contracts[M + ':format_available_merge_list_ids'] = Msg()
    out = I.outcome(I.fn(M + ':get_dataset_bpe_dir'), [name])
    if out[0] == 'exc':
        I.ensure('refused only as invalid', out[1].cls.name == 'InvalidBpeCodesIdError')
        I.ensure('refused only if no directory has the id', z3.Or(z3.Not(fs.exists(root)), forall_int(lambda j: z3.Not(has(j)), 0, subs.n)))
        return
    r = to_z3(out[1])
    I.ensure('a directory with exactly that id', z3.Not(forall_int(lambda j: z3.Not(z3.And(has(j), r == fs.pjoin(root, subs.get(j)))), 0, subs.n)))


class Msg(Contract):
    """text of an error message"""
    qual = M + ':format_available_merge_list_ids'

    def apply(self, I, b):
        return I.fresh(SStr, 'message')


def t_resume(I):
    ks = install(I)
    d = I.fresh(SStr, 'dataset_bpe_path')
    n = fresh_int(I, 'n_merges', 1)
    r = I.call(I.fn('codeprep.pipeline.bpelearner:get_dir_with_most_merges'), [d, n], {})
    none = ks['max'].none(d, n)
    if r is None:
        I.ensure('from scratch only if no list is within the target', none)
    else:
        I.ensure('the largest list not exceeding the target', z3.And(z3.Not(none), z_bool(
            eqv(r, fs.pjoin(d, I.natives['builtins.str'](I, [ks['max'].val(d, n)], {}))))))


T = ['pipeline.bperegistry.']
TARGETS = [
    Target('min', 'C15', ['pipeline.bperegistry.get_min_merges', 'pipeline.bperegistry._get_extreme_n_merges'], t_extreme('min'), str_mode='atom'),
    Target('max', 'C15', ['pipeline.bperegistry.get_max_merges', 'pipeline.bperegistry._get_extreme_n_merges'], t_extreme('max'), str_mode='atom'),
    Target('create', 'C15', ['pipeline.bperegistry.CustomBpeConfig.create', 'pipeline.bperegistry.CustomBpeConfig.from_id'], t_create, str_mode='atom'),
    Target('parse', 'C15', ['pipeline.bperegistry.parse_merge_list_id'], t_parse, str_mode='atom'),
    Target('parse-any', 'C15', ['pipeline.bperegistry.parse_merge_list_id'], t_parse_any, str_mode='atom'),
    Target('dir-by-id', 'C15', ['pipeline.bperegistry.get_dataset_bpe_dir'], t_dir, str_mode='atom'),
    Target('resume', 'C15', ['pipeline.bpelearner.get_dir_with_most_merges'], t_resume, str_mode='atom'),
]

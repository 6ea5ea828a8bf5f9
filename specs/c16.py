"""C16 Automatically assigned BPE codes ids are always new."""
from specs.lib import *
from pyvc import rx

M = 'codeprep.pipeline.bperegistry'
B = 'codeprep.bpepkg.bpe_config'
CHOICES = {'CASE': ['yes'], 'WORD_END': [True, False], 'BASE': ['all', 'code', 'java'], 'UNICODE': ['yes', 'no', 'bytes']}


class Ids(Contract):
    """the ids in use (with their largest numbers of merges)"""
    qual = M + ':_get_all_custom_bpe_codes_and_max_merges'

    def __init__(self, d):
        self.d = d

    def apply(self, I, b):
        return DictV(self.d)


def t_new(given):
    def run(I):
        rx.install(I)
        ids = I.fresh(SDict(SStr, SInt), 'ids')._c
        I.contracts[Ids.qual] = Ids(ids)
        BP = I.fn(B + ':BpeParam')
        word_end = I.branch(I.fresh(SBool, 'word_end'))
        uni = next((u for u in ('yes', 'no') if I.branch(I.fresh(SBool, u))), 'bytes')
        vals = {'CASE': 'yes', 'WORD_END': word_end, 'BASE': 'code', 'UNICODE': uni}
        cfg = I.call(I.fn(B + ':BpeConfig'), [DictV(Map(items={I.getattr(BP, k): v for k, v in vals.items()}))], {})
        name = I.fresh(SStr, 'dataset_name')
        path = I.fresh(SStr, 'path')
        bn = z3.Function('basename', cur_str().sort, cur_str().sort)
        I.natives['os.path.basename'] = lambda I, a, k: bn(to_z3(a[0]))
        I.assume(bn(path) == name)
        f = I.fn(M + ':create_new_id_from')
        if given:
            own = I.fresh(SStr, 'given')
            I.assume(z3.Not(to_z3(eqv(own, ''))), to_z3(cur_str().length(own)) > 0)
            I.ensure('an id given by the user is used as it is', eqv(I.call(f, [path, cfg, own], {}), own))
            return
        kw = {'predefined_bpe_codes_id': I.branch(I.fresh(SBool, 'empty id')) and '' or None} if I.branch(I.fresh(SBool, 'explicitly none')) else {}
        r = to_z3(I.call(f, [path, cfg], kw))
        suffix = '_'.join((['we'] if word_end else []) + {'yes': [], 'no': ['nounicode'], 'bytes': ['bytes']}[uni])
        base = to_z3(I.cat(name, '_' + suffix)) if suffix else name
        taken = to_z3(ids.has(base))
        I.ensure('the id differs from every id in use', z3.Not(to_z3(ids.has(r))))
        I.ensure('the id is the dataset name with the configuration suffix when that is free', z3.Implies(z3.Not(taken), r == base))
        k = z3.Function('intval', cur_str().sort, INT)
        tails = [p for p in cur_str().parts(r)]
        I.ensure('otherwise it is extended by a number', z3.Implies(taken, z_or(*[
            z_and(r == to_z3(I.cat(base, I.cat('_', t))), rx.in_class(rx.POSITIVE)(t)) for t in tails[-1:] if is_term(t)])))
    return run


TARGETS = [
    Target('new-id', 'C16', ['pipeline.bperegistry.create_new_id_from', 'bpepkg.bpe_config.BpeConfig.to_suffix'], t_new(False), str_mode='atom'),
    Target('given-id', 'C16', ['pipeline.bperegistry.create_new_id_from'], t_new(True), str_mode='atom'),
]

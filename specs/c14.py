"""C14 Limiting a vocabulary keeps exactly the most frequent words."""
from specs.lib import *

M = 'codeprep.pipeline.vocab'
ORDER = '''
def client(d):
    return sorted(d.values(), reverse=True)
'''


def t_limit(I):
    d = DictV(I.fresh(SDict(SStr, SInt), 'counts')._c)
    d.pycls = 'Counter'
    d0 = d._c
    n = fresh_int(I, 'n', 0)
    size = to_z3(d0.size if d0.size is not None else d0.keys.n)
    pv = ObjV(I.fn(M + ':PartialVocab'), {'merged_word_counts': d, 'stats': fresh_list(I, SInt, 'stats'), 'n_files': fresh_int(I, 'n_files', 1),
                                          'chunk': fresh_int(I, 'chunk'), 'id': I.fresh(SStr, 'id')})
    # the specification's own ordering of the counts, most frequent first
    freq = as_seq(I.call(client(I, ORDER), [DictV(d0)], {}))

    def cands(v):
        r = []
        for nm, c, _ in v.ints():
            r.append(('%s < n' % nm, c < n))
            r.append(('%s >= -1' % nm, c >= -1))
            r.append(('equally frequent above %s' % nm, forall_int(lambda j: to_z3(freq.get(j)) == to_z3(freq.get(n)), simp(c + 1), n)))
        return r
    I.loop_cands.append(cands)
    I.method(pv, 'limit_max_vocab', n)
    r = pv.fields['merged_word_counts']._c
    w = I.fresh(SStr, 'w')
    has, get = to_z3(r.has(w)), to_z3(r.get(w))
    has0, get0 = to_z3(d0.has(w)), to_z3(d0.get(w))
    f = to_z3(freq.get(n))
    I.ensure('words that are kept were there, with their counts', z3.Implies(has, z3.And(has0, get == get0)))
    I.ensure('with at most n words all are kept', z3.Implies(z3.And(size <= n, has0), has))
    I.ensure('otherwise exactly the words more frequent than the (n+1)-th are kept', z3.Implies(z3.And(size > n, has0), has == (get0 > f)))
    rs = to_z3(r.size if r.size is not None else r.keys.n)
    I.ensure('at most n words remain', rs <= n)


TARGETS = [Target('limit_max_vocab', 'C14', ['pipeline.vocab.PartialVocab.limit_max_vocab'], t_limit, str_mode='atom')]

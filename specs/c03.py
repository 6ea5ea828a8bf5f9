"""C03 Splitting with BPE leaves the BPE data unchanged.

The state of BPE data: which words the cache has, the pieces of each, which merges there are and the place of each.  Every call of get_bpe_subwords
leaves it as it was and returns a function of word and state, so (by induction on the calls) the same word always gives the same subtokens."""
import copy
from specs.lib import *
from specs import c01, c02
from specs.c01 import M, merge_list, natives, no_space, no_sep
from specs.c02 import Segment, CharList, cached


def snapshot(cache, merges):
    m = merges.fields['merges']
    return {'cache': cache, 'cache content': cache and copy_map(cache._c), 'merges content': copy_map(m._c)}


def copy_map(m):
    r = copy.copy(m)
    if m.items is not None:
        r.items = dict(m.items)
    return r


def unchanged(I, s, cache, merges, data=None):
    S = cur_str().sort
    x, y = z3.Consts('sx sy', S)
    if data is not None:
        I.ensure('still a cache and a merge list', isinstance(data.fields['merges_cache'], DictV) and isinstance(data.fields['merges'], ObjV))
        for c, m in [(data.fields['merges_cache'], data.fields['merges'])]:
            if c is not cache or m is not merges:          # replaced by another object: it must hold the same
                unchanged(I, s, c, m)
    if cache is not None:
        a, b = s['cache content'], cache._c
        I.ensure('the cache has the same words', z3.ForAll([x], z_bool(a.has(x)) == z_bool(b.has(x))))
        I.ensure('and as many', to_z3(a.size) == to_z3(b.size))
        v, w = as_seq(a.get(x)), as_seq(b.get(x))
        j = z3.Int('sj')
        I.ensure('as many pieces of each word', z3.ForAll([x], z3.Implies(z_bool(a.has(x)), to_z3(v.n) == to_z3(w.n))))
        I.ensure('the same pieces of each word', z3.ForAll([x, j], z3.Implies(z3.And(z_bool(a.has(x)), 0 <= j, j < to_z3(v.n)), to_z3(v.get(j)) == to_z3(w.get(j)))))
    a, b = s['merges content'], merges.fields['merges']._c
    I.ensure('the same merges', z3.ForAll([x, y], z_bool(a.has((x, y))) == z_bool(b.has((x, y)))))
    I.ensure('and as many of them', to_z3(a.size) == to_z3(b.size))
    p, q = a.get((x, y)).fields, b.get((x, y)).fields
    I.ensure('the same priorities', z3.ForAll([x, y], z3.Implies(z_bool(a.has((x, y))), to_z3(p['priority']) == to_z3(q['priority']))))


def t_subwords(I):
    esc = c01.escaping(I)
    c01.ends(I)
    k = Segment()
    I.contracts[k.qual] = k
    cache, merges, data = cached(I)
    words = [I.fresh(SStr, 'word%d' % i) for i in range(2)]
    for w in words:
        I.assume(z_bool(no_sep(I, w, ' ')))
    s = snapshot(cache, merges)
    outs = []
    for n, w in enumerate(words + words[:1]):
        out = I.outcome(I.fn(M + ':get_bpe_subwords'), [w, data], {})
        I.ensure('no error (call %d)' % n, out[0] == 'ok')
        if out[0] != 'ok':
            return
        r = as_seq(out[1])
        outs.append(Seq(n=r.n, get=r.get))
        unchanged(I, s, cache, merges, data)
    a, b = outs[0], outs[2]
    I.ensure('as many subtokens the second time', to_z3(a.n) == to_z3(b.n))
    I.ensure('the same subtokens the second time', forall_int(lambda j: to_z3(a.get(j)) == to_z3(b.get(j)), 0, a.n))


def t_encode(I):
    """the merge list given is the one it was (what the pieces are is C02: a function of the word and the merges)"""
    snap = {}

    def before(merges):
        snap['s'] = snapshot(None, merges)
    k, merges, R, out = c02.split_word(I, before)
    I.ensure('no error', out[0] == 'ok')
    unchanged(I, snap['s'], None, merges)


TARGETS = [
    Target('subwords', 'C03', ['bpepkg.bpe_encode.get_bpe_subwords', 'bpepkg.bpe_encode.unescape', 'bpepkg.bpe_encode.escape'], t_subwords, str_mode='atom', timeout=300),
    Target('encode', 'C03', ['bpepkg.bpe_encode.encode_word', 'bpepkg.bpe_encode.encode', 'bpepkg.merge.MergeList.__contains__', 'bpepkg.merge.MergeList.get_priority'],
           t_encode, str_mode='atom', timeout=600),
]

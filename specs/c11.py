"""C11 Merge lists keep priorities equal to positions."""
from specs.lib import *

M = 'codeprep.bpepkg.merge'
MERGE, LIST = M + ':Merge', M + ':MergeList'


def setup(I):
    return SObj(I.fn(MERGE), {'pair': STuple(SStr, SStr), 'freq': SOpt(SInt), 'priority': SInt})


def merge_list(I, name, kind=None):
    """a list built by appends and concatenations: the i-th merge has priority i and is found under its pair"""
    d = I.fresh(SDict(STuple(SStr, SStr), setup(I)), name)
    m = d._c
    I.assume(valid(m))
    return ObjV(I.fn(LIST), {'merges': d}), m


def fields(o):
    return o.fields


def at(m, j):
    return m.get(m.keys.get(j))


def same_pair(a, b):
    return z_bool(eqv(a, b))


def valid(m, n=None):
    """representation invariant, for each position"""
    def f(j):
        o = at(m, j)
        return z_and(eqv(fields(o)['pair'], m.keys.get(j)), to_z3(fields(o)['priority']) == j)
    return all_pos(m, f)


def all_pos(m, f, lo=0, hi=None):
    if m.items is not None:
        ks = list(m.items)
        return z_and(*[f2 for j, k in enumerate(ks) for f2 in [f(j)]])
    j = z3.Int('jp!%d' % next(V._fc))
    body = z3.Implies(z3.And(lo <= j, j < (to_z3(m.size) if hi is None else hi)), to_z3(z_bool(f(j))))
    return z3.ForAll([j], body)


def keep(m, j, o):
    """merge j is o (pair and frequency)"""
    x = at(m, j)
    return z_and(eqv(fields(x)['pair'], fields(o)['pair']), eqv(fields(x)['freq'], fields(o)['freq']))


def content(I, ml):
    return ml.fields['merges']._c


def unchanged(I, ml, m0):
    m = content(I, ml)
    if m is m0:
        return True
    return z_and(to_z3(m.size) == to_z3(m0.size), all_pos(m0, lambda j: z_and(eqv(m.keys.get(j), m0.keys.get(j)), keep(m, j, at(m0, j)),
                 to_z3(fields(at(m, j))['priority']) == to_z3(fields(at(m0, j))['priority']))))


def t_new(I):
    ml = I.call(I.fn(LIST), [], {})
    I.ensure('a new list is empty', to_z3(I.natives['builtins.len'](I, [ml], {})) == 0)
    I.ensure('a new list is valid', content(I, ml).items == {})


def t_append(I):
    ml, m0 = merge_list(I, 'L')
    pair = (I.fresh(SStr, 'a'), I.fresh(SStr, 'b'))
    I.assume(z3.Not(to_z3(m0.has(pair))))
    n = m0.size
    given = I.branch(I.fresh(SBool, 'priority given'))
    f = I.fresh(SOpt(SInt), 'freq')
    deflt = I.branch(I.fresh(SBool, 'frequency left out'))
    if deflt:
        f = None
    p = I.fresh(SInt, 'p')
    mg = I.call(I.fn(MERGE), [pair], dict({} if deflt else {'freq': f}, **({'priority': p} if given else {})))
    out = I.outcome(I.getattr(ml, 'append'), [mg])
    m = content(I, ml)
    if out[0] == 'exc':
        I.ensure('rejected with an error about the priority', exc_is(out, 'ValueError'))
        I.ensure('rejected only if another priority is given', z3.And(z_bool(given), p != n))
        I.ensure('a rejected merge leaves the list unchanged', unchanged(I, ml, m0))
        return
    I.ensure('a merge with another priority is rejected', z_or(not given, p == n))
    I.ensure('the list itself is returned', out[1] is ml)
    I.ensure('one more merge', to_z3(m.size) == n + 1)
    I.ensure('the merges so far are unchanged', all_pos(m0, lambda j: keep(m, j, at(m0, j))))
    I.ensure('the last merge is the one appended', z_and(eqv(fields(at(m, n))['pair'], pair), eqv(fields(at(m, n))['freq'], f)))
    I.ensure('every merge has its position as priority', valid(m))


def t_add(I):
    a, m1 = merge_list(I, 'A')
    b, m2 = merge_list(I, 'B')
    x = (z3.Const('px', cur_str().sort), z3.Const('py', cur_str().sort))
    I.assume(z3.ForAll(list(x), z3.Not(z3.And(to_z3(m1.has(x)), to_z3(m2.has(x))))))

    def cands(v):
        r = []
        n1 = to_z3(m1.size)
        for nm, m, _ in v.maps():
            if m.items is not None or m.keys is None or 'merges' not in nm and False:
                continue
            try:
                r.append(('%s size' % nm, to_z3(m.size) == n1 + v.k))
                r.append(('%s first' % nm, all_pos(m1, lambda j: z_and(eqv(m.keys.get(j), m1.keys.get(j)), keep(m, j, at(m1, j)), to_z3(fields(at(m, j))['priority']) == j))))
                r.append(('%s second' % nm, all_pos(m2, lambda j: z_and(eqv(m.keys.get(n1 + j), m2.keys.get(j)), keep(m, n1 + j, at(m2, j)), to_z3(fields(at(m, n1 + j))['priority']) == n1 + j), 0, v.k)))
                q = (z3.Const('qx', cur_str().sort), z3.Const('qy', cur_str().sort))
                r.append(('%s domain' % nm, z3.ForAll(list(q), to_z3(m.has(q)) == z3.Or(to_z3(m1.has(q)), z3.And(to_z3(m2.has(q)), to_z3(m2.idx(q)) < v.k)))))
            except (Unsupported, AttributeError, KeyError, TypeError):
                pass
        return r
    I.loop_cands.append(cands)
    out = I.outcome(I.getattr(a, '__add__'), [b])
    I.ensure('concatenation succeeds', out[0] == 'ok')
    if out[0] != 'ok':
        return
    r = out[1]
    m = content(I, r)
    I.ensure('a new list', r is not a and r is not b)
    n1, n2 = to_z3(m1.size), to_z3(m2.size)
    I.ensure('as many merges as both lists', to_z3(m.size) == n1 + n2)
    I.ensure('first the merges of the first list', all_pos(m1, lambda j: keep(m, j, at(m1, j))))
    I.ensure('then the merges of the second list', all_pos(m2, lambda j: keep(m, n1 + j, at(m2, j))))
    I.ensure('every merge has its position as priority', valid(m))
    I.ensure('the first list is not modified', unchanged(I, a, m1))
    I.ensure('the second list is not modified', unchanged(I, b, m2))


def t_read(I):
    ml, m = merge_list(I, 'L')
    n = to_z3(m.size)
    I.ensure('length', eqv(I.natives['builtins.len'](I, [ml], {}), n))
    i = fresh_int(I, 'i', 0)
    I.assume(i < n)
    pair = at(m, i).fields['pair']
    I.ensure('looking a pair up gives its position', eqv(I.call(I.getattr(ml, 'get_priority'), [pair], {}), i))
    x = I.call(I.getattr(ml, '__getitem__'), [i], {})
    I.ensure('the i-th merge', z_and(eqv(x.fields['pair'], pair), eqv(x.fields['priority'], i)))
    q = (I.fresh(SStr, 'qa'), I.fresh(SStr, 'qb'))
    I.ensure('membership', z_iff(z_bool(I.truth(I.call(I.getattr(ml, '__contains__'), [q], {}))), to_z3(m.has(q))))
    lst = client(I, 'def client(ml):\n    return [x for x in ml]\n', ml=ml)
    r = as_seq(I.call(lst, [ml], {}))
    I.ensure('iteration yields them all', to_z3(r.n) == n)
    I.ensure('iteration is in order', forall_int(lambda j: z_and(eqv(r.get(j).fields['pair'], at(m, j).fields['pair']), eqv(r.get(j).fields['priority'], j)), 0, n))


T = 'bpepkg.merge.MergeList.'
TARGETS = [
    Target('new', 'C11', [T + '__init__', T + '__len__'], t_new, str_mode='atom'),
    Target('append', 'C11', [T + 'append', 'bpepkg.merge.Merge.__init__'], t_append, str_mode='atom'),
    Target('add', 'C11', [T + '__add__', T + '__iter__'], t_add, str_mode='atom'),
    Target('read', 'C11', [T + 'get_priority', T + '__contains__', T + '__getitem__', T + '__iter__', T + '__len__'], t_read, str_mode='atom'),
]

"""sequences of up to 40 appends (with no, the right or a wrong priority) and concatenations over several merge lists of distinct pairs, every
list compared with a list of pairs after every operation; non-trivial: at least one concatenation"""
from codeprep.bpepkg.merge import Merge, MergeList


def corner():
    yield []
    yield [('app', 0, 5, None), ('app', 0, 6, 1), ('app', 0, 7, 1), ('app', 0, 8, 3), ('app', 0, 9, 0), ('app', 0, None, 0), ('app', 0, 0, 0), ('cat', 0, 1, 2)]
    for n in range(4):
        for m in range(4):
            for p in (None, 'ok'):
                yield [('app', 0, 1, p)] * n + [('app', 1, 1, p)] * m + [('cat', 0, 1, 2), ('app', 0, 3, p), ('app', 1, 3, p), ('app', 2, 3, p), ('cat', 2, 3, 4), ('cat', 3, 2, 5)]
    yield [('app', 0, 1, 'ok')] * 30 + [('app', 1, 1, None)] * 25 + [('cat', 0, 1, 2), ('cat', 1, 0, 3)]


def gen(rng):
    ops = []
    for _ in range(rng.randint(1, 40)):
        if rng.random() < 0.75:
            ops.append(('app', rng.randrange(3), rng.choice([None, 0, rng.randint(1, 9)]), rng.choice([None, 'ok', 'ok', 'ok', -1, 0, 1, 3, 100])))
        else:
            ops.append(('cat', rng.randrange(4), rng.randrange(4), rng.randrange(4)))
    return ops


def nontrivial(i):
    return any(o[0] == 'cat' for o in i)


def same(ml, want, what):
    got = [(m.pair, m.freq, m.priority) for m in ml]
    exp = [(p, f, k) for k, (p, f) in enumerate(want)]
    assert got == exp, '%s: %r instead of %r' % (what, got, exp)
    assert len(ml) == len(want), '%s: length' % what
    for k, (p, f) in enumerate(want):
        assert ml.get_priority(p) == k and p in ml and ml[k].pair == p and ml[k].priority == k, '%s: %r looked up' % (what, p)
    assert [m.pair for m in ml[:]] == [p for p, _ in want], '%s: slice' % what
    if want:
        assert ml[-1].pair == want[-1][0]
    assert ('no', 'such') not in ml


def check(ops):
    ls = [MergeList() for _ in range(6)]
    ref = [[] for _ in range(6)]
    n = 0
    for op in ops:
        if op[0] == 'app':
            _, k, f, p = op
            pair = ('a%d' % n, 'b')
            n += 1
            pr = len(ref[k]) if p == 'ok' else p
            try:
                r = ls[k].append(Merge(pair, f, pr))
                assert pr is None or pr == len(ref[k]), 'priority %r accepted at position %d' % (pr, len(ref[k]))
                assert r is ls[k]
                ref[k] = ref[k] + [(pair, f)]
            except ValueError:
                assert pr is not None and pr != len(ref[k]), 'priority %r rejected at position %d' % (pr, len(ref[k]))
        else:
            _, a, b, c = op
            if {p for p, _ in ref[a]} & {p for p, _ in ref[b]}:
                continue
            r = ls[a] + ls[b]
            same(r, ref[a] + ref[b], 'concatenation')
            same(ls[a], ref[a], 'first operand')
            same(ls[b], ref[b], 'second operand')
            ls[c], ref[c] = r, ref[a] + ref[b]
        for k in range(6):
            if op[0] == 'cat' or k == op[1]:
                same(ls[k], ref[k], 'list %d after %r' % (k, op))


def shrink(i):
    for k in range(len(i)):
        yield i[:k] + i[k + 1:]

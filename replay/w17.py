"""vocabularies of words split into symbols (few letters, so that pairs repeat and overlap; regex characters, line breaks; some merges done
before), every number of merges: each step against a recount of the whole vocabulary; the counter against a plain table; non-trivial: a merge that
changes counts of other pairs"""
import itertools
from codeprep.bpepkg.bpe_learn import get_stats, merge_vocab, do_merges
from codeprep.util import PriorityCounter

ALPHA = ['a', 'b', 'c', '@', '\n', '.', '*', '\\', '(', '\xe9', '\t', '$', '^', 'A', '+', '|', ')', '[', '\r', '\x85', '\xa0']


def corner():
    for v in (["a a a a a @"], ["l a l a l a @"], ["b i r d @", "w o r d @", "w o g @"], ["a b a b", "b a b a"], ["a a a", "b a a a b", "a a a a"],
              ["a b \n", "x a b \n", "x a b"], ["x b \n", "y b \n", "x x y b", "a b \n", "c a b"], ["a b c d", "b c"], ["a b c a b c", "a b c"], ["a"], [], ["a a"],
              ["a . b", "a x b"], ["a b", "c d"], ["A b", "a b x"], ["b \n", "a b", "c b \n", "a b \n"], ["a b \n", "d b \n", "a b", "a b c", "a b d"]):
        for fs in ([1] * 9, [3, 7, 13, 2, 5], [2, 1, 1, 1]):
            for n in (0, 1, 2, 3, 20):
                for n0 in (0, 1, 2):
                    yield ('learn', list(zip(v, fs)), n, n0)
    for n in range(1, 6):
        for w in itertools.product('ab', repeat=n + 1):
            yield ('learn', [(' '.join(w), 1)], 9, 0)
            yield ('learn', [(' '.join(w), 2), (' '.join(w) + ' @', 1)], 9, n % 3)
    yield ('count', [], [])
    yield ('count', [(1, 5), (2, 5)], [('pop',), ('add', 2, -2), ('add', 1, 5), ('add', 1, -5), ('pop',), ('pop',), ('pop',)])


def gen(rng):
    if rng.random() < 0.3:
        d = [(k, rng.randint(1, 4)) for k in rng.sample(range(6), rng.randint(0, 5))]
        return ('count', d, [rng.choice([('pop',), ('add', rng.randrange(6), rng.choice([-3, -2, -1, 1, 2, 3, 4]))]) for _ in range(rng.randint(0, 14))])
    al = rng.choice([ALPHA[:2], ALPHA[:3], ALPHA, ALPHA[:6]])
    v, seen = [], set()
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        w = [rng.choice(al) for _ in range(rng.choice([1, 2, 3, 4, 6, 9]))]
        if ''.join(w) not in seen:
            seen.add(''.join(w))
            v.append((' '.join(w), rng.randint(1, 5)))
    return ('learn', v, rng.choice([1, 2, 3, 5, 30]), rng.choice([0, 0, 1, 2, 5]))


def nontrivial(i):
    return i[0] == 'count' and len(i[2]) > 2 or i[0] == 'learn' and i[2] > 0 and any(w.count(' ') > 1 for w, _ in i[1])


def counts(vocab):
    """the frequency of each pair of adjacent symbols"""
    r = {}
    for w, f in vocab.items():
        s = w.split(' ')
        for p in zip(s, s[1:]):
            r[p] = r.get(p, 0) + f
    return r


def merged(w, pair):
    s, r, i = w.split(' '), [], 0
    while i < len(s):
        if i + 1 < len(s) and (s[i], s[i + 1]) == pair:
            r.append(s[i] + s[i + 1])
            i += 2
        else:
            r.append(s[i])
            i += 1
    return ' '.join(r)


def check(i):
    if i[0] == 'count':
        c = PriorityCounter(dict((('p', k), v) for k, v in i[1]))
        t = {('p', k): (v, n) for n, (k, v) in enumerate(i[1])}
        n = len(t)
        for op in i[2]:
            if op[0] == 'add':
                k = ('p', op[1])
                v = t.pop(k, (0, 0))[0] + op[2]
                c.add(k, op[2])
                if v:
                    t[k] = (v, n)
                n += 1
                continue
            try:
                got = c.pop_pair()
            except KeyError:
                got = None
            want = min(t, key=lambda k: (-t[k][0], t[k][1])) if t else None
            assert got == (want and (want, t[want][0])), 'after %r of %r: popped %r, expected %r' % (i[2], i[1], got, want and (want, t[want][0]))
            if want:
                del t[want]
        return
    _, v, n, n0 = i
    vocab = dict(v)
    if len({w.replace(' ', '') for w in vocab}) < len(v):
        return                   # a word is split in one way
    if n0:
        vocab = do_merges(vocab, n0)[0]
    got = get_stats(vocab)
    table = {e[1]: -e[0][0] for e in got.pq}
    assert table == counts(vocab), 'pairs of %r are counted as %r' % (vocab, table)
    out, merges = do_merges(dict(vocab), n)
    cur = vocab
    # when the count of a pair was last set: by the first count of all pairs, or in a merge that changed it
    last = {p: (0, k) for k, p in enumerate(counts(vocab))}
    step = 0
    for m in merges:
        c = counts(cur)
        assert c, 'a merge %r though %r has no pairs' % (m, cur)
        best = max(c.values())
        assert c.get(m.pair) == best == m.freq, 'step %d of %r: %r of frequency %r is recorded with %r, the most frequent has %r' % (step, v, m.pair, c.get(m.pair), m.freq, best)
        assert m.priority == step, 'step %d has priority %r' % (step, m.priority)
        tie = min(last[p][0] for p in c if c[p] == best)
        assert last[m.pair][0] == tie, 'step %d of %r: %r, last counted in step %d, comes before one of step %d' % (step, v, m.pair, last[m.pair][0], tie)
        if tie == 0:
            first = min((last[p], p) for p in c if c[p] == best and last[p][0] == 0)[1]
            assert m.pair == first, 'step %d of %r: %r comes before %r, counted first' % (step, v, m.pair, first)
        nxt = {merged(w, m.pair): f for w, f in cur.items()}
        step += 1
        real, added = merge_vocab(m.pair, cur)
        assert real == nxt, 'merging %r in %r gives %r' % (m.pair, cur, real)
        delta = {}
        for p, d in added:
            delta[p] = delta.get(p, 0) + d
        new = counts(nxt)
        for p in set(c) | set(new) | set(delta):
            if p != m.pair:
                assert new.get(p, 0) - c.get(p, 0) == delta.get(p, 0), 'merging %r in %r changes the count of %r by %d, recorded as %d' % (m.pair, cur, p, new.get(p, 0) - c.get(p, 0), delta.get(p, 0))
        assert m.pair not in delta and m.pair not in new
        for p, d in added:
            last[p] = (step, 0)
        cur = nxt
    assert out == cur, 'after the merges %r of %r the vocabulary is %r' % (list(merges), v, out)
    assert [''.join(w.split(' ')) for w in out] == [''.join(w.split(' ')) for w in vocab] and list(out.values()) == list(vocab.values()), 'words or counts changed: %r' % out
    assert len(merges) == n or not counts(cur), 'stopped after %d of %d merges of %r' % (len(merges), n, v)


def shrink(i):
    if i[0] == 'learn':
        for k in range(len(i[1])):
            yield ('learn', i[1][:k] + i[1][k + 1:]) + i[2:]
            s = i[1][k][0].split(' ')
            for j in range(len(s)):
                if len(s) > 1:
                    yield ('learn', i[1][:k] + [(' '.join(s[:j] + s[j + 1:]), i[1][k][1])] + i[1][k + 1:]) + i[2:]
        if i[2] > 1:
            yield ('learn', i[1], i[2] - 1, i[3])
    else:
        for k in range(len(i[2])):
            yield ('count', i[1], i[2][:k] + i[2][k + 1:])

"""merges of several partial vocabularies in arbitrary order and grouping (with empty ones and shared words) and splittings of up to 6000 files
into groups and chunks; non-trivial: two vocabularies share a word, or more files than groups"""
from collections import Counter
from codeprep.pipeline.vocab import PartialVocab
from codeprep.preprocess.placeholders import placeholders
from codeprep.util import merge_dicts_, groupify, create_chunk_generator

W = ['a', 'b', 'c', 'foo', '', placeholders['non_eng'], '\\n', '0', 'caf\xe9']


def corner():
    yield ('v', [{}, {}], [(0, 1)])
    yield ('v', [{'a': 3, 'b': 4}, {'b': 5, 'c': 6}], [(0, 1)])
    yield ('v', [{'a': 3}, {'a': 5, placeholders['non_eng']: 6}, {'a': 1, placeholders['non_eng']: 2}], [(0, 1), (0, 2)])
    yield ('v', [{'a': 1}, {'a': 1}, {'a': 1}, {'a': 1}], [(0, 1), (2, 3), (0, 2)])
    yield ('v', [{'a': 0, 'b': 1}, {'a': 0, 'b': 0, 'c': 0}], [(0, 1)])
    yield ('v', [{}, {'x%d' % k: k for k in range(50)}, {'x%d' % k: 1 for k in range(25, 90)}], [(0, 1), (0, 2)])
    for n in (1, 2, 3, 7, 20):
        for t in sorted({0, 1, 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n + n // 2}):
            yield ('g', t, n)
    for t in (5119, 5120, 5121, 10239, 10241):
        yield ('g', t, 5120)


def gen(rng):
    if rng.random() < 0.6:
        k = rng.randint(2, 6)
        vs = [{w: rng.randint(0, 9) for w in rng.sample(W, rng.randint(0, len(W)))} for _ in range(k)]
        left = list(range(k))
        ms = []
        while len(left) > 1:
            a, b = rng.sample(left, 2)
            ms.append((a, b))
            left.remove(b)
        return ('v', vs, ms)
    return ('g', rng.choice([rng.randint(0, 60), rng.randint(0, 3000)]), rng.choice([1, 2, 3, 5, 20, 64, 700]))


def nontrivial(i):
    return (len(set(i[1][0]) & set(i[1][1])) > 0) if i[0] == 'v' else i[1] > i[2]


def check(i):
    if i[0] == 'g':
        _, t, n = i
        files = ['f%d' % k for k in range(t)]
        orig = list(files)
        labels = list(create_chunk_generator(t, n))
        assert len(labels) == t and all(0 <= x < n for x in labels), '%d labels for %d files' % (len(labels), t)
        sizes = [labels.count(k) for k in range(n)] if t < 4000 else None
        assert sizes is None or max(sizes) - min(sizes) <= 1, 'chunk sizes %r' % sizes
        gs = groupify(files, n)
        assert files == orig
        assert len(gs) == min(t, n), '%d groups of %d files for %d' % (len(gs), t, n)
        assert sorted(x for g in gs for x in g) == sorted(files), 'the groups do not hold every file exactly once (%d files, %d groups)' % (t, n)
        if gs:
            assert max(map(len, gs)) - min(map(len, gs)) <= 1, 'group sizes %r' % [len(g) for g in gs]
        pos = {f: k for k, f in enumerate(files)}
        assert all(pos[a] < pos[b] for g in gs for a, b in zip(g, g[1:])), 'files of a group out of order'
        return
    _, vs, ms = i
    pv = [PartialVocab(Counter(v), 0) for v in vs]
    ref = [dict(v) for v in vs]
    nf = [1] * len(vs)
    for a, b in ms:
        before = dict(pv[b].merged_word_counts)
        new = pv[a].add_vocab(pv[b])
        want_new = [w for w in ref[b] if w not in ref[a]]
        assert sorted(new) == sorted(want_new), 'new words %r, expected %r' % (new, want_new)
        for w, c in ref[b].items():
            ref[a][w] = ref[a].get(w, 0) + c
        nf[a] += nf[b]
        got = dict(pv[a].merged_word_counts)
        assert got == ref[a], 'merging %r into it gave %r, expected %r' % (before, got, ref[a])
        assert pv[a].n_files == nf[a], '%d files counted, expected %d' % (pv[a].n_files, nf[a])
        assert dict(pv[b].merged_word_counts) == before, 'the merged-in vocabulary changed'
        s = pv[a].stats[-1]
        assert tuple(s) == (nf[a], len(ref[a]), ref[a].get(placeholders['non_eng'], 0)), 'statistics %r' % (s,)
    d1, d2 = dict(vs[0]), dict(vs[1])
    r, new = merge_dicts_(d1, d2)
    want = dict(vs[0])
    for w, c in vs[1].items():
        want[w] = want.get(w, 0) + c
    assert r == want and r is d1 and d2 == vs[1], 'merge_dicts_(%r, %r) = %r' % (vs[0], vs[1], r)


def shrink(i):
    if i[0] == 'v':
        for k in range(len(i[1])):
            for w in list(i[1][k]):
                yield ('v', i[1][:k] + [{x: c for x, c in i[1][k].items() if x != w}] + i[1][k + 1:], i[2])
        for k in range(1, len(i[2])):
            yield ('v', i[1], i[2][:-k])
    else:
        for t in (i[1] // 2, i[1] - 1):
            if t >= 0:
                yield ('g', t, i[2])

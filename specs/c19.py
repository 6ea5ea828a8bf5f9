"""C19 Non-ASCII replacement keeps all ASCII text."""
from specs.lib import *

M = 'codeprep.noneng'
ASCII = z3.Star(z3.Range(chr(0), chr(127)))


def ascii_at(w, i):
    return z3.StrToCode(z3.SubString(w, i, 1)) < 128


def t_replace(I):
    w = I.fresh(SStr, 'word')
    ph = I.fresh(SStr, 'placeholder')
    I.assume(z3.Length(ph) == 1)

    def step(acc, t):
        t = to_z3(t)
        c = z3.SubString(w, t, 1)
        start = z3.Or(t == 0, ascii_at(w, t - 1))
        return z3.If(ascii_at(w, t), z3.Concat(to_z3(acc), c), z3.If(start, z3.Concat(to_z3(acc), ph), to_z3(acc)))
    E = Fold(I, 'replaced', SStr, '', step)

    def cands(v):
        r = []
        ek = to_z3(E.at(v.k))
        run = z3.And(v.k > 0, z3.Not(ascii_at(w, v.k - 1)))
        for n, c, _ in v.bools():
            r.append(('%s is in-run' % n, z_iff(c, run)))
            r.append(('%s is not in-run' % n, z_iff(z_not(c), run)))
        for n, c, _ in v.strs():
            c = to_z3(c)
            r.append(('%s is the replaced prefix' % n, c == ek))
            r.append(('%s is the replaced prefix, pending run' % n, ek == z3.If(run, z3.Concat(c, ph), c)))
        return r
    I.loop_cands.append(cands)
    kind, res = I.outcome(I.fn(M + ':replace_non_ascii_seqs'), [w, ph])
    if kind == 'exc':
        I.ensure('accepts every one-character placeholder', False)
        return
    I.assume(z_bool(E.base_axiom()))
    I.ensure('every maximal non-ASCII run becomes one placeholder, ASCII is copied in order',
             to_z3(res) == to_z3(E.at(z3.Length(w))))


def t_placeholder(I):
    w, ph = I.fresh(SStr, 'word'), I.fresh(SStr, 'placeholder')
    I.assume(z3.Length(ph) != 1)
    kind, res = I.outcome(I.fn(M + ':replace_non_ascii_seqs'), [w, ph])
    I.ensure('a placeholder that is not one character is rejected with ValueError',
             kind == 'exc' and exc_name(res.cls).endswith('ValueError'))


def t_noneng(I):
    w = I.fresh(SStr, 'word')
    r = I.call(I.fn(M + ':is_non_eng'), [w], {})
    I.ensure('non-English iff some character is not ASCII', z_iff(r, z3.Not(z3.InRe(w, ASCII))))


TARGETS = [
    Target('replace_non_ascii_seqs', 'C19', ['noneng.replace_non_ascii_seqs'], t_replace),
    Target('placeholder-check', 'C19', ['noneng.replace_non_ascii_seqs'], t_placeholder),
    Target('is_non_eng', 'C19', ['noneng.is_non_eng'], t_noneng),
]

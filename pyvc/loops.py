"""Loops and comprehensions without a concrete bound.

A loop is cut at its head: the places its body may change are found by running the body, havocked, and
constrained by an inductive invariant.  The invariant is the largest subset of a candidate set that is
established on entry and preserved by an arbitrary iteration (Houdini); every candidate that is used has been
proved on this run, so a wrong candidate can never make an obligation pass.
"""
import ast
import z3
from . import values as V
from .values import *          # noqa
from .values import _uid
from .interp import (Path, PyExc, BreakEx, ContinueEx, ReturnEx, NeedBranch, UNDEF, has_quantifier, BytesT)


# ---------------------------------------------------------------- state: slots
class Slot:
    """a place the loop may change: ('var', env, name) | ('c', obj) | ('f', obj, field) | ('glob', key) | ('ghost', key)"""

    def __init__(self, kind, holder, key):
        self.kind, self.holder, self.key = kind, holder, key
        self.shape = None
        self.ordinal = 0
        self.poison = False

    def id(self):
        return (self.kind, id(self.holder) if self.kind in ('var', 'c', 'f') else None, self.key)

    def label(self):
        if self.kind == 'var':
            return self.key
        if self.kind == 'c':
            return 'heap%s' % self.ordinal
        return str(self.key)


MISSING = object()


def read_slot(I, s, memo=None):
    """value of the slot in the original state (memo None) or in its clone"""
    h = s.holder
    if memo is not None and s.kind in ('var', 'c', 'f'):
        if id(h) not in memo:
            return MISSING
        h = memo[id(h)][0]
    if s.kind == 'var':
        return h.vars.get(s.key, MISSING)
    if s.kind == 'c':
        return h._c
    if s.kind == 'f':
        d = h.fields if isinstance(h, ObjV) else h.d
        return d.get(s.key, MISSING)
    if s.kind == 'glob':
        return I.goverlay.get(s.key, MISSING)
    return I.ghost.get(s.key, MISSING)


def write_slot(I, s, v, memo=None):
    h = s.holder
    if memo is not None and s.kind in ('var', 'c', 'f'):
        h = memo[id(h)][0]
    if s.kind == 'var':
        h.vars[s.key] = v
    elif s.kind == 'c':
        h._c = v
    elif s.kind == 'f':
        d = h.fields if isinstance(h, ObjV) else h.d
        d[s.key] = v
    elif s.kind == 'glob':
        I.goverlay[s.key] = v
    else:
        I.ghost[s.key] = v


def clone_state(I, env):
    memo = {}
    e = V.clone(env, memo)
    I.goverlay = {k: V.clone(v, memo) for k, v in I.goverlay.items()}
    I.ghost = {k: V.clone(v, memo) for k, v in I.ghost.items()}
    I.roots = [V.clone(r, memo) for r in I.roots]
    return e, memo


def same_val(a, b, memo):
    """is b (in the cloned state) the unchanged counterpart of a"""
    if a is b:
        return True
    if a is MISSING or b is MISSING:
        return False
    if isinstance(a, HeapV) or isinstance(a, Env):
        return id(a) in memo and memo[id(a)][0] is b
    if isinstance(a, (Seq, Map)) and type(a) is type(b):
        if a.id == b.id:
            return True
        return False
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_val(x, y, memo) for x, y in zip(a, b))
    if isinstance(a, OptV) and isinstance(b, OptV):
        return V.same(a.isnone, b.isnone) and same_val(a.val, b.val, memo)
    if id(a) in memo and memo[id(a)][0] is b:
        return True
    return V.same(a, b)


def content_same(a, b, memo):
    if a is b or a.id == b.id:
        if isinstance(a, Seq) and a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and all(same_val(x, y, memo) for x, y in zip(a.items, b.items))
        return True
    return False


def diff_state(I, memo, gl0, gh0):
    """slots changed in the cloned state reached through memo"""
    out = []
    for oid, (c, o) in list(memo.items()):
        if isinstance(o, Env):
            if o.parent is None and o.fn is None:
                continue
            for k in sorted(set(o.vars) | set(c.vars)):
                if not same_val(o.vars.get(k, MISSING), c.vars.get(k, MISSING), memo):
                    out.append((Slot('var', o, k), c.vars.get(k, MISSING)))
            if o.yields is not None and c.yields is not None and not same_val(o.yields, c.yields, memo):
                raise Unsupported('generator state replaced')
        elif isinstance(o, (ListV, DictV, SetV)):
            if not content_same(o._c, c._c, memo):
                out.append((Slot('c', o, o.uid), c._c))
        elif isinstance(o, ObjV):
            for k in sorted(set(o.fields) | set(c.fields)):
                if not same_val(o.fields.get(k, MISSING), c.fields.get(k, MISSING), memo):
                    out.append((Slot('f', o, k), c.fields.get(k, MISSING)))
        elif isinstance(o, CellV):
            for k in sorted(set(o.d) | set(c.d)):
                if not same_val(o.d.get(k, MISSING), c.d.get(k, MISSING), memo):
                    out.append((Slot('f', o, k), c.d.get(k, MISSING)))
    for k in set(gl0) | set(I.goverlay):
        if not same_val(gl0.get(k, MISSING), I.goverlay.get(k, MISSING), memo):
            out.append((Slot('glob', None, k), I.goverlay.get(k, MISSING)))
    for k in set(gh0) | set(I.ghost):
        if not same_val(gh0.get(k, MISSING), I.ghost.get(k, MISSING), memo):
            out.append((Slot('ghost', None, k), I.ghost.get(k, MISSING)))
    return out


def heap_in(v, acc):
    if isinstance(v, HeapV):
        acc.append(v)
        c = getattr(v, '_c', None)
        if isinstance(c, Seq) and c.items is not None:
            for x in c.items:
                heap_in(x, acc)
        elif isinstance(c, Map) and c.items is not None:
            for x in c.items.values():
                heap_in(x, acc)
        elif isinstance(v, ObjV):
            for x in v.fields.values():
                heap_in(x, acc)
    elif isinstance(v, tuple):
        for x in v:
            heap_in(x, acc)
    elif isinstance(v, Seq) and v.items is not None:
        for x in v.items:
            heap_in(x, acc)
    elif isinstance(v, Map) and v.items is not None:
        for x in v.items.values():
            heap_in(x, acc)


def vshape(v):
    if v is MISSING or v is UNDEF:
        return None
    if isinstance(v, UnsupV):
        return None
    if isinstance(v, CellV):
        raise Unsupported('native object %s created in a loop and kept' % v.kind)
    if isinstance(v, BytesT):
        raise Unsupported('bytes variable in a loop')
    return shape_of(v)


def havoc_value(I, s, shape, name):
    if shape is None:
        return UNDEF
    v = I.fresh(shape, name)
    if s.kind == 'c':
        v = v._c if isinstance(v, (ListV, DictV, SetV)) else v
        if isinstance(v, (Seq, Map)) and s.holder is not None:
            pass
    return v


def slot_shape(s, v, holder=None):
    """shape for a slot value; contents keep their container kind"""
    if s.kind == 'c':
        sh = shape_of(v)
        if isinstance(s.holder, SetV):
            return SSet(sh.key if isinstance(sh, SDict) else sh.elem)
        return sh
    return vshape(v)


# ---------------------------------------------------------------- candidates
class LoopView:
    """What an invariant candidate may talk about: current and entry values of the loop's slots."""

    def __init__(self, I, slots, cur, entry, k, seq, env, node):
        self.I, self.slots, self.cur, self.entry, self.k, self.seq, self.env, self.node = I, slots, cur, entry, k, seq, env, node

    def pairs(self):
        for i, s in enumerate(self.slots):
            yield s.label(), self.cur[i], self.entry[i]

    def named(self, pred):
        return [(n, c, e) for n, c, e in self.pairs() if c is not MISSING and c is not UNDEF and pred(c)]

    def ints(self):
        return self.named(is_int)

    def bools(self):
        return self.named(is_bool)

    def strs(self):
        return self.named(is_str)

    def seqs(self):
        """[(name, Seq, entry Seq or None)] for every list-valued slot (variables and heap contents)"""
        out = []
        for n, c, e in self.pairs():
            if isinstance(c, ListV):
                out.append((n, c._c, e._c if isinstance(e, ListV) else None))
            elif isinstance(c, Seq):
                out.append((n, c, e if isinstance(e, Seq) else None))
        return out

    def maps(self):
        out = []
        for n, c, e in self.pairs():
            if isinstance(c, (DictV, SetV)):
                out.append((n, c._c, e._c if isinstance(e, (DictV, SetV)) else None))
            elif isinstance(c, Map):
                out.append((n, c, e if isinstance(e, Map) else None))
        return out

    def var(self, name):
        """any visible local by name (changed or not)"""
        for i, s in enumerate(self.slots):
            if s.kind == 'var' and s.key == name:
                return self.cur[i]
        return self.env.vars.get(name, MISSING)

    def env_seqs(self):
        """all list-valued locals visible in the loop's function: (name, Seq) with current values"""
        out = {}
        for n, c, _ in self.seqs():
            out[n] = c
        e = self.env
        slotobjs = {id(s.holder): i for i, s in enumerate(self.slots) if s.kind == 'c'}
        for name, v in e.vars.items():
            if any(s.kind == 'var' and s.key == name and s.holder is e for s in self.slots):
                continue
            if isinstance(v, ListV):
                c = self.cur[slotobjs[id(v)]] if id(v) in slotobjs else v._c
                out[name] = c
        return list(out.items())

    def env_ints(self):
        out = {}
        for n, c, _ in self.ints():
            out[n] = c
        for name, v in self.env.vars.items():
            if name not in out and is_int(v) and not any(
                    s.kind == 'var' and s.key == name for s in self.slots):
                out[name] = v
        return list(out.items())


def leaf_prefix_eq(a, b, lo, hi):
    return forall_int(lambda j: eqv(a.get(j), b.get(j)), lo, hi)


def default_cands(v):
    out = []
    for n, c, e in v.ints():
        out.append(('%s>=0' % n, to_z3(c) >= 0))
        if is_int(e):
            out.append(('%s==e+k' % n, to_z3(c) == to_z3(e) + v.k))
            out.append(('%s==e-k' % n, to_z3(c) == to_z3(e) - v.k))
            out.append(('%s>=e' % n, to_z3(c) >= to_z3(e)))
            out.append(('%s<=e' % n, to_z3(c) <= to_z3(e)))
            out.append(('%s<=e+k' % n, to_z3(c) <= to_z3(e) + v.k))
    for n, c, e in v.seqs():
        if e is None:
            continue
        out.append(('len %s==e+k' % n, to_z3(c.n) == to_z3(e.n) + v.k))
        out.append(('len %s>=e' % n, to_z3(c.n) >= to_z3(e.n)))
        out.append(('len %s<=e+k' % n, to_z3(c.n) <= to_z3(e.n) + v.k))
        if hint(e.n) != 0:
            try:
                out.append(('prefix %s' % n, z_and(to_z3(c.n) >= to_z3(e.n), leaf_prefix_eq(c, e, 0, e.n))))
                out.append(('len %s==e' % n, to_z3(c.n) == to_z3(e.n)))
            except Unsupported:
                pass
    return out


class Cand:
    def __init__(self, name, strong=False):
        self.name, self.strong = name, strong


def all_cands(I, view):
    """{name: (term, strong)}"""
    out = {}
    try:
        for n, t in default_cands(view):
            out['d:' + n] = (t, False)
    except Unsupported:
        pass
    for src in I.loop_cands:
        try:
            r = src(view)
        except Unsupported as e:
            if I.debug:
                import traceback
                I.log('candidates of loop line %d: unsupported: %s %s' % (view.node.lineno, e, traceback.format_exc().splitlines()[-9:]))
            r = None
        for item in (r or []):
            n, t = item[0], item[1]
            out['s:' + n] = (t, True)
    return out


# ---------------------------------------------------------------- loops
def literal_items(I, it):
    its = I.concrete(it)
    return its


def bind_elem(I, container, x, i, act=None):
    if isinstance(x, FrozenObj) and x.priv is not None:
        return I.borrow(x, act)
    if isinstance(container, ListV):
        return I.elem_view(container, i, x)
    return I.borrow(x) if isinstance(x, (Seq, Map, FrozenObj, tuple)) else x


def run_for(I, st, env):
    it = I.ev(st.iter, env)
    it = I.force(it)
    lz = None
    if isinstance(it, CellV) and it.kind in I.lazy_kinds:
        return run_lazy(I, st, env, it)
    seq = I.to_seq(it, True)
    # the kind's hook is told that an iteration came to its end
    done = (lambda: it.d['exhausted']()) if isinstance(it, CellV) and 'exhausted' in it.d else None
    its = I.concrete(seq)
    if its is not None:
        broke = False
        for i, x in enumerate(its):
            I.assign(st.target, x if not isinstance(x, (FrozenObj, Seq, Map)) else bind_elem(I, it, x, i), env)
            try:
                I.exec_block(st.body, env)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if not broke:
            if done:
                done()
            I.exec_block(st.orelse, env)
        return
    cont = it if isinstance(it, ListV) else None

    def setup(e, k, memo):
        c = cont
        if memo is not None and c is not None:
            c = memo[id(c)][0] if id(c) in memo else c
        x = seq.get(k)
        I.assign(st.target, bind_elem(I, c, x, k, act), e)
    act = object()
    cut_loop(I, st, env, seq, setup, None, cont, done)


def run_lazy(I, st, env, it):
    """for over a stateful native iterator: the kind's $next hook advances it; StopIteration ends the loop"""
    nxt = I.natives['$next:' + it.kind]
    # bounded unrolling is handled by the hook raising StopIteration on concrete iterators
    for _ in range(64):
        try:
            v = nxt(I, it)
        except PyExc as e:
            if I.exc_matches(e.exc, NativeV('builtins.StopIteration')):
                I.exec_block(st.orelse, env)
                return
            raise
        I.assign(st.target, v, env)
        try:
            I.exec_block(st.body, env)
        except BreakEx:
            return
        except ContinueEx:
            continue
    raise Unsupported('unbounded lazy iteration')


def run_while(I, st, env):
    # concrete execution while the condition stays literal
    for it in range(300):
        c = None
        try:
            I.spec += 1
            sp = (dict(env.vars))
            try:
                c = I.test(I.ev(st.test, env))
            finally:
                I.spec -= 1
        except (NeedBranch, Unsupported):
            c = None
            env.vars.clear()
            env.vars.update(sp)
        except PyExc:
            c = None
            env.vars.clear()
            env.vars.update(sp)
        if c is None or it >= I.while_unroll:
            break
        if not c:
            I.exec_block(st.orelse, env)
            return
        if not literal_body_ok(I, st, env):
            break
        try:
            I.exec_block(st.body, env)
        except BreakEx:
            return
        except ContinueEx:
            continue

    def setup(e, k, memo):
        pass
    cut_loop(I, st, env, None, setup, st.test, None)


def literal_body_ok(I, st, env):
    """only unroll when the condition is decided by literals of the program, not by a one-off entailment:
    approximated by a flag that specs can raise for loops known to be bounded"""
    return I.unroll_while


def loop_key(I, st):
    return (st.lineno, st.col_offset, tuple(I.cur_fn[-3:]))


def cut_loop(I, st, env, seq, setup, test, cont, done=None):
    if I.spec:
        raise NeedBranch()
    I.flush_axioms()
    n = seq.n if seq is not None else None
    key = loop_key(I, st)
    slots = []
    known = I.loop_slots.get(key, {})

    head = [None]
    # one run of the body from a havocked head state; returns outcome list
    def body_run(k, assume_inv, collect):
        def run():
            saved_roots = I.roots
            gl0, gh0 = I.goverlay, I.ghost
            e, memo = clone_state(I, env)
            try:
                for s in slots:
                    hv = havoc_value(I, s, s.shape, 'L%d_%s' % (st.lineno, s.label()))
                    write_slot(I, s, hv, memo)
                I.assume(k >= 0)
                if n is not None:
                    I.assume(k < to_z3(n))
                cur = [read_slot(I, s, memo) for s in slots]
                head[0] = cur
                entry = [read_slot(I, s, None) if s.kind not in ('glob', 'ghost') else
                         (gl0 if s.kind == 'glob' else gh0).get(s.key, MISSING) for s in slots]
                if assume_inv is not None:
                    view = LoopView(I, slots, cur, entry, k, seq, e, st)
                    cs = all_cands(I, view)
                    for nm in assume_inv:
                        if nm in cs:
                            I.assume(z_bool(cs[nm][0]))
                    I.flush_axioms()
                out = 'end'
                exited = False
                if test is not None:
                    if not I.test(I.ev(test, e)):
                        out, exited = 'exit', True
                if not exited:
                    setup(e, k, memo)
                    try:
                        I.exec_block(st.body, e)
                    except ContinueEx:
                        pass
                    except BreakEx:
                        out = 'break'
                    except ReturnEx as r:
                        out = 'return'
                    except PyExc as x:
                        out = 'exc'
                I.flush_axioms()
                collect(out, memo, gl0, gh0, e, entry)
                return out
            finally:
                I.roots = saved_roots
        return run

    # a variable that holds values of unrelated shapes is not known at the head of the loop (reading it there is unsupported)
    def join(s, a, b):
        try:
            return join_shape(a, b)
        except Unsupported:
            if s.kind != 'var':
                raise
            s.poison = True
            return None

    # ---- discovery of slots and shapes
    def note(changed, strict):
        new = False
        for s, v in changed:
            if s.kind == 'var' and s.key == '$':
                continue
            old = [q for q in slots if q.id() == s.id()]
            ent = read_slot(I, s, None)
            try:
                sh = slot_shape(s, v)
            except Unsupported:
                raise
            if old:
                q = old[0]
                if ent is MISSING or ent is UNDEF:
                    continue      # undefined on entry: stays undefined
                j = join(q, q.shape, sh) if sh is not None and not q.poison else None
                if j != q.shape:
                    q.shape = j
                    new = True
            else:
                if ent is MISSING or ent is UNDEF or isinstance(ent, UnsupV):
                    if s.kind in ('f', 'ghost', 'glob'):
                        raise Unsupported('loop creates field %s' % s.key)
                    s.shape = None
                else:
                    s.shape = join(s, slot_shape(s, ent), sh) if sh is not None else None
                s.ordinal = len(slots)
                slots.append(s)
                new = True
        return new

    aliased = []

    def check_alias(memo, changed):
        clones = {id(c): o for c, o in memo.values() if isinstance(o, HeapV)}
        seen = {}
        for s, v in changed:
            acc = []
            if s.kind == 'c':
                continue
            heap_in(v, acc)
            for h in acc:
                if id(h) in clones or id(h) in seen:
                    aliased.append((s, clones.get(id(h))))
                seen[id(h)] = s

    stable = False
    rounds = 0
    I.disc += 1
    I.quiet += 1
    try:
        for s0 in known.values():
            # remembered from an earlier run of the same loop: only a hint, same holder required
            pass
        while not stable:
            rounds += 1
            if rounds > 8:
                raise Unsupported('loop state does not stabilise')
            found = []

            def collect(out, memo, gl0, gh0, e, entry):
                if out in ('end',):
                    ch = diff_state(I, memo, gl0, gh0)
                    # contents of fresh objects havocked into slots: report as changes of the slot itself
                    found.append(ch)
                    check_alias(memo, ch)
            k = z3.Int('k!%d' % next(_uid))
            I.explore(body_run(k, None, collect))
            ch_any = False
            for ch in found:
                ch_any = note(ch, True) or ch_any
            stable = not ch_any
    finally:
        I.disc -= 1
        I.quiet -= 1

    # slots that were rebound to heap objects reachable elsewhere: neither side may be mutated afterwards
    for s, o in aliased:
        if o is not None:
            o.frozen = True
    if cont is not None and any(s.kind == 'c' and s.holder is cont for s in slots):
        if not I.allow_iter_mutation:
            raise Unsupported('iterated list changes during the loop')

    gl, gh = I.goverlay, I.ghost
    entry = [read_slot(I, s, None) for s in slots]
    frozen_alias = {s.id() for s, _ in aliased}

    if I.disc:
        retained = []
        escapes = True
    else:
        retained, escapes = houdini(I, st, env, seq, slots, entry, body_run, key, n)

    if test is not None and not I.disc and not I.quiet and I.check_termination:
        k = z3.Int('k!%d' % next(_uid))
        good = [None]

        def measure(out, memo, gl0, gh0, e, ent):
            if out != 'end' or good[0] == set():
                return
            v1 = LoopView(I, slots, head[0], ent, k, seq, e, st)
            v2 = LoopView(I, slots, [read_slot(I, s, memo) for s in slots], ent, simp_k(k + 1), seq, e, st)
            m1, m2 = measures(I, v1), measures(I, v2)
            names = [nm for nm in m1 if nm in m2 and (good[0] is None or nm in good[0])]
            from .interp import has_quantifier
            ground = [c for c in I.path.pc if not has_quantifier(c)]
            first = [nm for nm in names if quick_valid(ground, m2[nm] < m1[nm])]
            good[0] = {nm for nm in first if quick_valid(ground, m1[nm] >= 0)} or \
                {nm for nm in first if I.prover.valid(I.path.pc, m1[nm] >= 0, True)}
        I.quiet += 1
        try:
            I.explore(body_run(k, list(retained), measure))
        finally:
            I.quiet -= 1
        I.ensure('the loop at line %d ends' % st.lineno, good[0] is None or bool(good[0]))

    # ---- main pass: havoc in place, assume the invariant
    k = z3.Int('k!%d' % next(_uid))
    do_body = escapes and I.branch(z3.Bool('iter!%d_%d' % (st.lineno, len(I.path.trail))))
    if not do_body and n is not None:
        k = to_z3(n)
    for s in slots:
        hv = havoc_value(I, s, s.shape, 'L%d_%s' % (st.lineno, s.label()))
        if s.id() in frozen_alias and isinstance(hv, HeapV):
            hv.frozen = True
        write_slot(I, s, hv)
    cur = [read_slot(I, s, None) for s in slots]
    if do_body:
        I.assume(k >= 0)
        if n is not None:
            I.assume(k < to_z3(n))
    else:
        I.assume(k >= 0)
    view = LoopView(I, slots, cur, entry, k, seq, env, st)
    if retained:
        cs = all_cands(I, view)
        for nm in retained:
            if nm in cs:
                I.assume(z_bool(cs[nm][0]))
    I.flush_axioms()
    if do_body:
        if test is not None:
            if not I.test(I.ev(test, env)):
                raise PathPruned()
        setup(env, k, None)
        try:
            I.exec_block(st.body, env)
        except ContinueEx:
            raise PathPruned()
        except BreakEx:
            return
        raise PathPruned()
    if test is not None:
        if I.test(I.ev(test, env)):
            raise PathPruned()
    else:
        # loop target after the loop: last element if any
        for nm in ast.walk(st.target):
            if isinstance(nm, ast.Name) and not any(s.kind == 'var' and s.key == nm.id for s in slots):
                env.vars[nm.id] = UNDEF
    if done:
        done()
    I.exec_block(st.orelse, env)


def houdini(I, st, env, seq, slots, entry, body_run, key, n):
    """names of the candidates that hold on entry and are preserved; whether paths leave the loop early"""
    view0 = LoopView(I, slots, entry, entry, z3.IntVal(0), seq, env, st)
    c0 = all_cands(I, view0)
    start = []
    pc = list(I.path.pc)
    nth = I.path.n_houdini = getattr(I.path, 'n_houdini', 0) + 1
    full = (I.ctx, key, tuple(I.path.trail), nth)
    if full in I.houdini_cache:
        return I.houdini_cache[full]
    hk = (tuple(c[:1] for c in I.ctx), key, tuple(I.path.trail), nth)
    prev = I.houdini_hint.get(hk)
    names = [nm for nm in c0 if prev is None or nm in prev]
    for nm in names:
        t, strong = c0[nm]
        if I.prover.valid(pc, t, strong):
            start.append(nm)
        elif strong and I.debug:
            I.log('candidate %s of loop line %d does not hold on entry' % (nm, st.lineno))
    retained = start
    escapes = [False]
    rounds = 0
    I.quiet += 1
    try:
        while True:
            rounds += 1
            dropped = set()
            escapes[0] = False
            k = z3.Int('k!%d' % next(_uid))
            nobl = I.n_obl

            def collect(out, memo, gl0, gh0, e, ent):
                if out != 'end':
                    if out != 'exit':
                        escapes[0] = True
                    return
                ch = diff_state(I, memo, gl0, gh0)
                for s, v in ch:
                    old = [q for q in slots if q.id() == s.id()]
                    if not old:
                        raise Unsupported('loop changes %s, not seen in discovery' % s.label())
                    if old[0].shape is not None:
                        sh = slot_shape(s, v)
                        if join_shape(old[0].shape, sh) != old[0].shape:
                            raise Unsupported('loop variable %s changes shape' % s.label())
                cur2 = [read_slot(I, s, memo) for s in slots]
                v2 = LoopView(I, slots, cur2, ent, simp_k(k + 1), seq, e, st)
                c2 = all_cands(I, v2)
                I.flush_axioms()
                todo = [nm for nm in retained if nm not in dropped]
                goals = []
                for nm in todo:
                    if nm not in c2:
                        dropped.add(nm)
                    else:
                        goals.append(nm)
                if not goals:
                    return
                hyp = I.path.pc
                for nm in goals:
                    t, strong = c2[nm]
                    if not I.prover.valid(hyp, t, strong):
                        dropped.add(nm)
                        if strong and I.debug:
                            I.prover.explain(nm, hyp, t)
                            I.log('candidate %s of loop line %d not preserved on %s' % (
                                nm, st.lineno, ''.join('TF'[not d] for d in I.path.trail)))
            saved_ctx = I.ctx
            I.ctx = I.ctx + ((key, tuple(I.path.trail), tuple(retained)),)
            try:
                I.explore(body_run(k, list(retained), collect))
            finally:
                I.ctx = saved_ctx
            if I.n_obl != nobl:
                escapes[0] = True
            if not dropped:
                break
            retained = [nm for nm in retained if nm not in dropped]
    finally:
        I.quiet -= 1
    I.houdini_hint[hk] = set(retained)
    I.houdini_cache[full] = (retained, escapes[0])
    if I.debug:
        I.log('loop line %d: invariant %s' % (st.lineno, retained))
    return retained, escapes[0]


def quick_valid(pc, g):
    s = z3.Solver()
    s.set('timeout', 400)
    s.add(*pc)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


def measures(I, v):
    """integer terms that may decrease with every iteration of a while loop"""
    out = {}
    moving = [(n, to_z3(c)) for n, c, _ in v.ints()] + [('len ' + n, to_z3(c.n)) for n, c, _ in v.seqs()] + \
        [('len ' + n, to_z3(c.size)) for n, c, _ in v.maps() if c.items is None and c.size is not None]
    fixed = [(n, to_z3(c)) for n, c in v.env_ints()] + [('len ' + n, to_z3(c.n)) for n, c in v.env_seqs()]
    fixed += [('len ' + n, to_z3(I.str_len(x))) for n, x in v.env.vars.items() if is_str(x)]
    for n, c in moving:
        out[n] = c
        out[n + ' + 1'] = c + 1
        for m, d in fixed:
            if m != n:
                out['%s - %s' % (m, n)] = d - c
    for h in I.loop_measures:
        out.update(h(v))
    return out


def simp_k(t):
    return t


# ---------------------------------------------------------------- comprehensions
def subst_val(v, i, j):
    """v[i := j] through the value structure"""
    if is_term(v):
        return simp(z3.substitute(v, (i, j)))
    if isinstance(v, tuple):
        return tuple(subst_val(x, i, j) for x in v)
    if isinstance(v, Seq):
        if v.items is not None:
            return Seq(items=[subst_val(freeze(x), i, j) for x in v.items], meta=subst_meta(v.meta, i, j))
        return Seq(n=subst_val(v.n, i, j), get=lambda q: subst_val(freeze(v.get(q)), i, j), meta=subst_meta(v.meta, i, j))
    if isinstance(v, Map):
        if v.items is not None:
            return Map(items={subst_val(k, i, j): subst_val(freeze(x), i, j) for k, x in v.items.items()})
        return Map(has=lambda q: subst_val(v.has(q), i, j),
                   get=(lambda q: subst_val(freeze(v.get(q)), i, j)) if v.get is not None else None,
                   keys=subst_val(v.keys, i, j) if v.keys is not None else None,
                   size=subst_val(v.size, i, j) if v.size is not None else None,
                   idx=(lambda q: subst_val(v.idx(q), i, j)) if v.idx is not None else None, kshape=v.kshape)
    if isinstance(v, FrozenObj):
        return FrozenObj(v.cls, {k: subst_val(x, i, j) for k, x in v.fields.items()})
    if isinstance(v, OptV):
        return OptV(subst_val(v.isnone, i, j), subst_val(v.val, i, j))
    if isinstance(v, UnionV):
        return UnionV([(c if c is True else subst_val(c, i, j), subst_val(x, i, j)) for c, x in v.alts])
    if isinstance(v, HeapV):
        return subst_val(freeze(v), i, j)
    if isinstance(v, BytesT):
        return BytesT(subst_val(v.t, i, j))
    return v


def subst_meta(m, i, j):
    return None


def pure_eval(I, i, n, f):
    """evaluate f at the generic index i; returns [(condition term, value)] for normal paths.
    Raises (on the outer path) the exceptions some index may raise."""
    if I.spec:
        raise NeedBranch()
    sc = {'id': next(_uid), 'idxs': (list(I.fresh_scope[-1]['idxs']) if I.fresh_scope else []) + [i], 'n': 0}
    I.fresh_scope.append(sc)
    mark = I.pure_mark
    I.pure_mark = next(_uid)

    def run():
        sc['n'] = 0
        I.assume(i >= 0, i < to_z3(n))
        r = f()
        I.flush_axioms()
        return freeze(r)
    try:
        outs = I.explore(run)
    finally:
        I.fresh_scope.pop()
        I.pure_mark = mark
    rng = z3.And(i >= 0, i < to_z3(n))
    norm = []
    excs = []
    for pc, (kind, v) in outs:
        c = z_and(*pc[2:]) if len(pc) >= 2 else True
        if kind == 'ok':
            norm.append((c, v))
        elif kind == 'exc':
            excs.append((c, v))
        else:
            raise Unsupported('control flow out of a comprehension')
    allc = z_or(*[c for c, _ in norm + excs])
    if not isinstance(allc, bool):
        I.assume(z3.ForAll([i], z3.Implies(rng, allc)))
    for c, x in excs:
        if c is True:
            no = to_z3(n) <= 0
        else:
            no = z3.ForAll([i], z3.Implies(rng, z3.Not(c)))
        j = z3.Int('x!%d' % next(_uid))
        if not I.entails(no):
            if I.branch(z3.Bool('raises!%d' % next(_uid)) if False else z3.Not(no)):
                raise PyExc(subst_exc(x, i, j))
        else:
            I.assume(no)
    return norm


def subst_exc(x, i, j):
    return ExcV(x.cls, tuple(subst_val(freeze(a), i, j) for a in x.args))


def combine(norm, i):
    """one value (ite over path conditions)"""
    if not norm:
        raise Unsupported('comprehension body never completes')
    v = freeze(norm[-1][1])
    for c, x in reversed(norm[:-1]):
        v = ite(z_bool(c), freeze(x), v)
    return v


def sym_map(I, src, body, has_filter, roots):
    i = z3.Int('i!%d' % next(_uid))
    n = src.n
    if not has_filter:
        norm = pure_eval(I, i, n, lambda: body(src.get(i), 'elt'))
        v = combine(norm, i)
        for i2, v2, old in I.map_memo.get(('map', src.id), []):
            if same_upto(v, v2, i, i2):
                return old
        r = Seq(n=n, get=lambda j: subst_val(v, i, to_z3(j)), meta=('map', src, i, v))
        I.map_memo.setdefault(('map', src.id), []).append((i, v, r))
        return r
    norm = pure_eval(I, i, n, lambda: body(src.get(i), 'cond'))
    c = combine(norm, i)
    c = z_bool(c) if not is_term(c) else c
    # element expression only evaluated where the filter holds
    norm = None
    if I.branch(to_z3(n) <= 0):
        return Seq(items=[])

    def elt():
        I.assume(c)
        return body(src.get(i), 'elt')
    sc_norm = pure_eval(I, i, n, elt)
    v = combine(sc_norm, i)
    return filtered(I, src, i, c, v)


def filtered(I, src, i, c, v):
    """subsequence of v(i) for the indices with c(i), through its index maps"""
    u = next(_uid)
    idxs = list(I.fresh_scope[-1]['idxs']) if I.fresh_scope else []
    if idxs:
        raise Unsupported('filter inside an unbounded comprehension')
    for i2, c2, v2, axs, old in I.map_memo.get(('filter', src.id), []):
        if same_upto(c, c2, i, i2) and same_upto(v, v2, i, i2):
            I.assume(*axs)
            return old
    axs = []

    def assume(*cs):
        axs.extend(cs)
        I.assume(*cs)
    sel = z3.Function('sel!%d' % u, INT, INT)
    pos = z3.Function('pos!%d' % u, INT, INT)
    m = z3.Int('cnt!%d' % u)
    n = to_z3(src.n)
    a, b = z3.Ints('a!%d b!%d' % (u, u))

    def C(j):
        return z3.substitute(c, (i, j))
    assume(m >= 0, m <= n)
    assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < m),
                                       z3.And(0 <= sel(a), sel(a) < n, C(sel(a)), pos(sel(a)) == a)), patterns=[sel(a)]))
    assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), sel(a) < sel(b)), patterns=[z3.MultiPattern(sel(a), sel(b))]))
    assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n, C(a)),
                                       z3.And(0 <= pos(a), pos(a) < m, sel(pos(a)) == a)), patterns=[pos(a)]))
    # pattern-free form over the source's own terms so that membership facts fire
    x = V.freeze(src.get(a)) if src.items is None else None
    lv = [t for t in (leaves_or_none(x) or []) if is_term(t) and not z3.is_var(t) and t.num_args() > 0]
    if lv and all(uses(t, a) for t in lv[:1]):
        try:
            assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n, C(a)),
                                               z3.And(0 <= pos(a), pos(a) < m, sel(pos(a)) == a)), patterns=[lv[0]]))
        except z3.Z3Exception:
            pass
    r = Seq(n=m, get=lambda j: subst_val(v, i, sel(to_z3(j))), meta=('filter', src, i, c, v, sel, pos))
    I.map_memo.setdefault(('filter', src.id), []).append((i, c, v, axs, r))
    return r


def same_upto(a, b, i, j):
    """a[i := j] is literally b"""
    if a is b and not is_term(a):
        return True
    if is_term(a) and is_term(b):
        return a.sort() == b.sort() and z3.substitute(a, (i, j)).eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_upto(x, y, i, j) for x, y in zip(a, b))
    if isinstance(a, (str, int, bool)) and isinstance(b, (str, int, bool)):
        return type(a) == type(b) and a == b
    return False


def leaves_or_none(x):
    try:
        return leaves(x)
    except Unsupported:
        return None


def uses(t, a):
    if t.eq(a):
        return True
    return any(uses(ch, a) for ch in t.children())


def flat_comp(I, elt, gens, env, src):
    """[elt for x in src for y in f(x)] with src unbounded"""
    g = gens[0]
    if g.ifs:
        raise Unsupported('filter on the outer generator of a nested comprehension')
    i = z3.Int('i!%d' % next(_uid))

    def inner():
        ce = Env(env, env.module)
        ce.comp = True
        I.assign(g.target, I.borrow(src.get(i)), ce)
        return ListV(I.comp(elt, gens[1:], ce))
    norm = pure_eval(I, i, src.n, inner)
    v = combine(norm, i)
    if not isinstance(v, Seq):
        raise Unsupported('nested comprehension')
    return flat_seq(I, src, i, v)


def flat_seq(I, src, i, v):
    u = next(_uid)
    off = z3.Function('off!%d' % u, INT, INT)
    outer = z3.Function('outer!%d' % u, INT, INT)
    n = to_z3(src.n)
    a = z3.Int('a!%d' % u)

    def L(j):
        return to_z3(subst_val(v.n, i, j))
    I.assume(off(0) == 0)
    I.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(off(a + 1) == off(a) + L(a), L(a) >= 0, off(a) >= 0)), patterns=[off(a)]))
    m = z3.Int('flat!%d' % u)
    I.assume(m == off(n), m >= 0)
    I.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < m), z3.And(
        0 <= outer(a), outer(a) < n, off(outer(a)) <= a, a < off(outer(a)) + L(outer(a)))), patterns=[outer(a)]))

    def get(j):
        o = outer(to_z3(j))
        s = subst_val(v, i, o)
        return s.get(simp(to_z3(j) - off(o)))
    return Seq(n=m, get=get, meta=('flat', src, i, v, off, outer))


def dict_of_pairs(I, s):
    if I.spec:
        raise NeedBranch()
    n = to_z3(s.n)
    u = next(_uid)
    p = s.get(z3.Int('probe!'))
    if not isinstance(p, tuple) or len(p) != 2:
        raise Unsupported('dict of non-pairs')
    ksh = shape_of(p[0])
    srt = leaf_sorts(ksh)
    hasf = z3.Function('dh!%d' % u, *(srt + [BOOL]))
    last = z3.Function('dl!%d' % u, *(srt + [INT]))
    j = z3.Int('j!%d' % u)
    key = lambda t: s.get(t)[0]       # noqa
    kl = leaves(key(j))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(hasf(*kl), last(*kl) >= j))))
    qs = [z3.Const('q!%d_%d' % (u, a), x) for a, x in enumerate(srt)]
    lq = last(*qs)
    I.assume(z3.ForAll(qs, z3.Implies(hasf(*qs), z3.And(0 <= lq, lq < n, *[x == y for x, y in zip(leaves(key(lq)), qs)]))))
    a, b = z3.Ints('a!%d b!%d' % (u, u))
    distinct = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), z3.Not(z3.And(*[x == y for x, y in zip(leaves(key(a)), leaves(key(b)))]))))
    m = Map(has=lambda q: hasf(*leaves(q)), get=lambda q: freeze(s.get(last(*leaves(q)))[1]), kshape=shape_of(key(j)))
    if I.entails(distinct):
        I.assume(distinct)
        I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), last(*kl) == j)))
        m.keys = Seq(n=s.n, get=lambda t: s.get(t)[0])
        m.size = s.n
        m.idx = lambda q: last(*leaves(q))
    else:
        sz = z3.Int('dsz!%d' % u)
        I.assume(sz >= 0, sz <= n, z3.Implies(n > 0, sz > 0))
        m.size = sz
    return DictV(m)


def map_union(I, c1, c2):
    """c1 updated with c2"""
    f1, f2 = map_fn(c1), map_fn(c2)
    u = next(_uid)
    sz = z3.Int('usz!%d' % u)
    s1, s2 = I.map_len(c1), I.map_len(c2)
    I.assume(sz >= to_z3(s1), sz >= to_z3(s2), sz <= to_z3(s1) + to_z3(s2))

    def get(k):
        if f2[1] is None:
            return f1[1](k)
        if f1[1] is None:
            return f2[1](k)
        return ite(z_bool(f2[0](k)), freeze(f2[1](k)), freeze(f1[1](k)))
    ks = None
    for c in (c1, c2):
        ks = join_shape(ks, V.key_shape(c))
    return Map(has=lambda k: z_or(f1[0](k), f2[0](k)), get=get if (f1[1] or f2[1]) else None, size=sz, kshape=ks)


# ---------------------------------------------------------------- folds
class Fold:
    """acc over a sequence: at(0)=init, at(t+1)=step(at(t), t); an uninterpreted function of t whose defining
    equations are supplied where a literal 0 or a term t+1 is mentioned."""

    def __init__(self, I, name, shape, init, step, params=()):
        self.I, self.name, self.shape, self.init, self.step = I, name, shape, init, step
        self.uid = next(_uid)
        self.memo = {}
        self.params = list(params)

    def raw(self, t):
        return V._fresh(self.shape, 'fold_%s!%d' % (self.name, self.uid), self.params + [to_z3(t)], True, axioms=False)

    def at(self, t):
        h = hint(t)
        if h == 0:
            return self.init
        if h is not None and 0 < h <= 40:
            return self.step(self.at(h - 1), h - 1)
        z = z3.simplify(to_z3(t))
        kk = z.get_id()
        if kk in self.memo:
            return self.memo[kk][1]
        r = self.raw(z)
        pred = minus_one(z)
        if pred is not None:
            r = self.step(self.at(pred), pred)
        self.memo[kk] = (z, r)
        return r

    def base_axiom(self):
        return eqv(self.raw(z3.IntVal(0)), self.init)


def minus_one(z):
    """u when z is syntactically u+1 (1+u), else None"""
    if z3.is_add(z):
        ch = z.children()
        for x in ch:
            if z3.is_int_value(x) and x.as_long() >= 1:
                return z3.simplify(z - 1)
    return None


class JoinFold:
    """sep.join of the first t elements"""
    memo = {}


def join_fold(I, sep, seq):
    key = (sep if isinstance(sep, str) else sep.get_id(), seq.id)
    if key not in I.join_folds:
        # sequences with the same elements have the same join
        try:
            e, n = z3.simplify(to_z3(seq.get(z3.Int('j!join')))), z3.simplify(to_z3(seq.n))
            sk = (key[0], n.get_id(), e.get_id())
        except (Unsupported, NeedBranch, PyExc):
            sk = None
        if sk is not None and sk in I.join_same:
            return I.join_same[sk][0]
        zsep = to_z3(sep)

        def step(acc, t):
            e = to_z3(seq.get(t))
            h = hint(t)
            if h == 0:
                return e
            if h is not None:
                return cur_str().cat(cur_str().cat(to_z3(acc), zsep), e) if sep != '' else cur_str().cat(to_z3(acc), e)
            body = cur_str().cat(to_z3(acc), e) if sep == '' else cur_str().cat(cur_str().cat(to_z3(acc), zsep), e)
            if sep == '':
                return body
            return z3.If(to_z3(t) == 0, e, body)
        I.join_folds[key] = (Fold(I, 'join', SStr, '', step), seq, sep)
        if sk is not None:
            I.join_same[sk] = (I.join_folds[key][0], e, n)
    return I.join_folds[key][0]


def join_term(I, sep, seq):
    if not is_str(sep):
        raise Unsupported('join with %r' % (sep,))
    its = I.concrete(seq)
    if its is not None:
        if all(isinstance(x, str) for x in its) and isinstance(sep, str):
            return sep.join(its)
        if not its:
            return ''
        acc = its[0]
        for x in its[1:]:
            if sep != '':
                acc = I.cat(acc, sep)
            acc = I.cat(acc, x)
        I.join_of.setdefault(to_z3(acc).get_id(), []).append((to_z3(acc), sep, seq))
        return acc
    m = seq.meta
    if m is not None and m[0] == 'append':
        pre = join_term(I, sep, m[1])
        if sep == '':
            t = I.cat(pre, m[2])
        else:
            t = z3.If(to_z3(m[1].n) == 0, to_z3(m[2]), cur_str().cat(cur_str().cat(to_z3(pre), to_z3(sep)), to_z3(m[2])))
    elif m is not None and m[0] == 'concat' and sep == '':
        t = I.cat(join_term(I, sep, m[1]), join_term(I, sep, m[2]))
    else:
        f = join_fold(I, sep, seq)
        t = f.at(seq.n)
        I.assume(z_bool(f.base_axiom()))
    t = to_z3(t)
    I.join_of.setdefault(t.get_id(), []).append((t, sep, seq))
    return t


def split_term(I, o, sep, maxsplit):
    """s.split(sep).  Known result for a term built by sep.join(L); otherwise an uninterpreted list."""
    if isinstance(o, str) and isinstance(sep, str) and (maxsplit is None or isinstance(maxsplit, int)):
        return ListV(Seq(items=o.split(sep) if maxsplit is None else o.split(sep, maxsplit)))
    zo = to_z3(o)
    if maxsplit is None:
        for t, s2, seq in I.join_of.get(zo.get_id(), []):
            if s2 == sep and not (isinstance(sep, str) and sep == ''):
                ok = z_and(to_z3(seq.n) >= 1, forall_int(lambda j: no_sep(I, seq.get(j), sep), 0, seq.n))
                if I.entails(z_bool(ok)):
                    I.trusted.add('lemma: sep.join(L).split(sep) == L for non-empty L whose elements do not contain sep')
                    return ListV(seq)
    h = I.natives.get('$split')
    if h is not None:
        r = h(I, o, sep, maxsplit)
        if r is not None:
            return r
    if cur_str().mode != 'z3' and isinstance(sep, str) and len(sep) == 1 and maxsplit is None:
        ps = cur_str().parts(zo)
        if any(isinstance(p, str) and sep in p for p in ps) or len(ps) > 1:
            if all(isinstance(p, str) or I.entails(z_bool(no_sep(I, p, sep))) for p in ps):
                out = ['']
                for p in ps:
                    if isinstance(p, str):
                        sp = p.split(sep)
                        out[-1] = I.cat(out[-1], sp[0])
                        out += sp[1:]
                    else:
                        out[-1] = I.cat(out[-1], p)
                return ListV(Seq(items=out))
    f = z3.Function('split.n', cur_str().sort, cur_str().sort, INT)
    g = z3.Function('split.e', cur_str().sort, cur_str().sort, INT, cur_str().sort)
    if maxsplit is not None:
        raise Unsupported('split with maxsplit')
    if sep is None:
        raise Unsupported('split on whitespace')
    zs = to_z3(sep)
    n = f(zo, zs)
    I.assume(n >= 1)
    key = ('split', zo.get_id(), zs.get_id())
    if key not in I.map_memo:
        I.map_memo[key] = (zo, zs, Seq(n=n, get=lambda j: g(zo, zs, to_z3(j)), meta=('split', zo, zs)))
    return ListV(I.map_memo[key][2])


def split_white(I, o):
    """s.split(): some pieces, none empty, none with whitespace"""
    if cur_str().mode == 'z3':
        raise Unsupported('split on whitespace')
    srt = cur_str().sort
    zo = to_z3(o)
    n = z3.Function('words.n', srt, INT)(zo)
    g = z3.Function('words.e', srt, INT, srt)
    j = z3.Int('jw')
    I.assume(n >= 0)
    key = ('words', zo.get_id())
    if key not in I.map_memo:
        I.map_memo[key] = (zo, Seq(n=n, get=lambda i: g(zo, to_z3(i)), meta=('words', zo)))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(cur_str().length(g(zo, j)) > 0, *[z_bool(no_sep(I, g(zo, j), c)) for c in ' \n\t\r'])),
                       patterns=[g(zo, j)]))
    return ListV(I.map_memo[key][1])


def no_sep(I, e, sep):
    if isinstance(e, str) and isinstance(sep, str):
        return sep not in e
    if cur_str().mode == 'z3':
        return z3.Not(z3.Contains(to_z3(e), to_z3(sep)))
    if isinstance(sep, str) and z3.is_app(e):
        nm = e.decl().name()
        if nm == 'if':
            return z3.If(e.arg(0), z_bool(no_sep(I, e.arg(1), sep)), z_bool(no_sep(I, e.arg(2), sep)))
        if nm == 'lit' and len(sep) == 1 and (sep < ' ' or sep > '~'):
            return True
        if nm == 'lit' and sep == ' ':
            return no_sep(I, e.arg(0), sep)
        if nm == 'int2str' and len(sep) == 1 and sep not in '-0123456789':
            return True
        if nm in ('str.lower', 'str.upper') and sep == ' ':
            return no_sep(I, e.arg(0), sep)         # no letter is mapped to or from a space
        if nm == 'strmul' and len(sep) == 1:
            return z_or(z_bool(no_sep(I, e.arg(0), sep)), e.arg(1) <= 0)
        for t, s2, seq in I.join_of.get(e.get_id(), []):
            if isinstance(s2, str) and len(sep) == 1 and sep not in s2 and I.concrete(seq) is None:
                I.trusted.add('lemma: a joined text holds a character iff a part (or the separator) does')
                return forall_int(lambda j: z_bool(no_sep(I, seq.get(j), sep)), 0, seq.n)
        ps = cur_str().parts(e)
        if len(ps) == 1 and isinstance(ps[0], str):
            return sep not in ps[0]
        if len(ps) > 1 and len(sep) == 1:
            return z_and(*[z_bool(no_sep(I, p, sep)) for p in ps])
    return z3.Not(z3.Function('acontains', cur_str().sort, cur_str().sort, BOOL)(to_z3(e), to_z3(sep)))

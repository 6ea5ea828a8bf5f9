"""Symbolic interpreter for the Python subset used by the verified code.

Executes the real source (ast of the files under /repo, read on every run).  Every path of a function is
explored by re-execution under a prefix of branch decisions; conditions are z3 terms collected in a path
condition.  Loops without a concrete bound are cut by inductive invariants (loops.py).
"""
import ast
import os
import z3

from . import values as V
from .values import *          # noqa
from .values import _uid

FEAS_TIMEOUT = 1500
ENTAIL_TIMEOUT = 2500
MAX_UNROLL = 400
MAX_DEPTH = 60


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class NeedBranch(Exception):
    pass


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


QMEMO = {}          # term id -> (term, does it hold a quantifier)


def has_quantifier(t, memo=None):
    if memo is None:
        if len(QMEMO) > 400000:
            QMEMO.clear()
        memo = QMEMO
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    if z3.is_quantifier(t):
        r = True
    else:
        r = any(has_quantifier(c, memo) for c in t.children())
    memo[i] = (t, r)
    return r


class Path:
    """One execution path.  `trail`: the decisions taken; `prefix`: those to be replayed.  `log`: results of solver queries that
    steer the execution without forking it (entailment tests, conditions met during speculative evaluation), replayed from `plog`
    so that a path is re-executed in exactly the same way up to its first new decision."""
    def __init__(self, prefix, base=(), plog=()):
        self.plog = list(plog)
        self.log = []
        self.prefix = list(prefix)
        self.trail = []
        self.alts = []
        self.pc = list(base)
        self.solver = None
        self.loaded = 0
        self.n_entail = 0
        self.n_loop = {}

    def add(self, c):
        if c is True or (is_term(c) and z3.is_true(c)):
            return
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append(c)

    def logged(self, f):
        if len(self.log) < len(self.plog):
            r = self.plog[len(self.log)]
        else:
            r = f()
        self.log.append(r)
        return r

    def feas_solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', FEAS_TIMEOUT)
            self.loaded = 0
            self.quantified = False
        while self.loaded < len(self.pc):
            c = self.pc[self.loaded]
            if not has_quantifier(c):
                self.solver.add(c)
            else:
                self.quantified = True
            self.loaded += 1
        return self.solver


def sub_parts(th, o, l, h):
    """o[l:h] when both ends lie at (or inside literal) parts of the concatenation o; None otherwise"""
    ps = th.parts(o)
    cum = [z3.IntVal(0)]
    for p in ps:
        cum.append(z3.simplify(cum[-1] + (len(p) if isinstance(p, str) else th.length(p))))

    def locate(t):
        for i in range(len(cum) - 1, -1, -1):
            d = z3.simplify(t - cum[i])
            if z3.is_int_value(d):
                d = d.as_long()
                if d == 0:
                    return i, 0
                if d > 0 and i < len(ps) and isinstance(ps[i], str) and d <= len(ps[i]):
                    return i, d
                if d < 0 and i > 0 and isinstance(ps[i - 1], str) and -d <= len(ps[i - 1]):
                    return i - 1, len(ps[i - 1]) + d
        return None
    a, b = locate(l), locate(h)
    if a is None or b is None:
        return None
    if a > b:
        return th.lit('')
    out = []
    for i, p in enumerate(ps):
        if i < a[0] or i > b[0] or (i == b[0] and b[1] == 0):
            continue
        if isinstance(p, str):
            p = p[a[1] if i == a[0] else 0:b[1] if i == b[0] else len(p)]
        elif i == b[0]:
            continue
        out.append(th.lit(p) if isinstance(p, str) else p)
    r = th.lit('')
    for x in out:
        r = th.cat(r, x)
    return r


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class BytesT:
    """symbolic bytes, as a term of the string sort (code points 0..255)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


UNDEF = UnsupV('possibly undefined variable')

BUILTIN_TYPES = {'str', 'int', 'bool', 'list', 'dict', 'set', 'tuple', 'bytes', 'float', 'object', 'type', 'range',
                 'frozenset'}
BUILTIN_EXC = {'Exception', 'BaseException', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AssertionError', 'StopIteration',
               'NotImplementedError', 'FileNotFoundError', 'EOFError', 'AttributeError', 'RuntimeError',
               'UnicodeDecodeError', 'UnicodeEncodeError', 'UnicodeError', 'OSError', 'IOError', 'LookupError', 'ArithmeticError',
               'ZeroDivisionError', 'NameError', 'KeyboardInterrupt', 'SystemExit', 'PermissionError', 'NotADirectoryError',
               'ImportError', 'MemoryError', 'OverflowError', 'IsADirectoryError', 'FileExistsError', 'UnboundLocalError',
               'InterruptedError'}
import builtins as _bi


def native_exc_sub(a, b):
    """is builtin/dotted exception a a subclass of b"""
    na, nb = a.split('.')[-1], b.split('.')[-1]
    if a == b or na == nb:
        return True
    if b in ('builtins.Exception', 'builtins.BaseException'):
        return not (na in ('KeyboardInterrupt', 'SystemExit') and nb == 'Exception')
    ca, cb = getattr(_bi, na, None), getattr(_bi, nb, None)
    if isinstance(ca, type) and isinstance(cb, type):
        return issubclass(ca, cb)
    return False


def BI(n):
    return NativeV('builtins.' + n)


class Interp:
    def __init__(self, repo='/repo', natives=None):
        self.repo = repo
        self.mods = {}
        self.src_errors = []
        self.natives = {}
        self.native_attrs = {}
        self.contracts = {}
        self.path = Path([])
        self.depth = 0
        self.spec = 0
        self.goverlay = {}
        self.ghost = {}
        self.facts = {}
        self.bytes_text = False     # bytes are modelled as the text they encode
        self.obligations = []      # recorded by the prover
        self.inlined = set()
        self.used_contracts = set()
        self.trusted = set()
        self.cur_fn = []
        self.fresh_scope = []
        self.map_memo = {}
        self.max_paths = 600
        self.join_of = {}
        self.loop_cands = []
        self.houdini_cache = {}
        self.prover = None
        self.root_key = ()
        self.int_nonneg = set()
        self.pure_mark = None
        self.modlevel = []
        self.check_termination = True
        self.loop_measures = []
        self.excl = set()       # uids of containers whose (unbounded) elements nothing else refers to
        self.leaked = set()     # uids of containers whose elements became reachable from elsewhere
        self.roots = []
        self.disc = 0
        self.quiet = 0
        self.n_obl = 0
        self.debug = False
        self.loop_slots = {}
        self.lazy_kinds = set()
        self.while_unroll = 300
        self.unroll_while = False
        self.allow_iter_mutation = False
        self.join_folds = {}
        self.join_same = {}
        self.ctx = ()
        self.houdini_hint = {}
        self.method_hooks = {}
        from . import natives as N
        N.install(self)

    # ------------------------------------------------------------ modules
    def mod_file(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        f = self.mod_file(name)
        if not os.path.exists(f):
            raise Unsupported('no module %s' % name)
        env = Env(None, name)
        self.mods[name] = env
        mark = next(_uid)
        env.vars['__name__'] = name
        env.vars['__file__'] = f
        src = open(f, encoding='utf-8').read()
        tree = ast.parse(src, f)
        for st in tree.body:
            if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) \
                    and st.test.left.id == '__name__':
                continue
            saved = self.path
            self.path = Path([])
            try:
                self.exec(st, env)
            except (Unsupported, PyExc, NeedBranch, KeyError, AttributeError) as e:
                for n in assigned_names(st):
                    if n not in env.vars:
                        env.vars[n] = UnsupV('module level of %s: %s' % (name, e))
            finally:
                self.path = saved
        self.modlevel.append((mark, next(_uid)))
        if '.' in name:
            par, ch = name.rsplit('.', 1)
            if par in self.mods:
                self.mods[par].vars.setdefault(ch, ModuleV(name))
        return env

    def fn(self, qual):
        """'module:Class.method' or 'module:func'"""
        m, q = qual.split(':')
        env = self.load(m)
        parts = q.split('.')
        v = env.vars.get(parts[0])
        for p in parts[1:]:
            if isinstance(v, ClassV):
                v, _ = v.lookup(p)
            else:
                v = None
        if v is None or isinstance(v, UnsupV):
            raise Unsupported('function %s not found' % qual)
        if isinstance(v, (StaticV, ClassMethodV)):
            return v
        return v

    # ------------------------------------------------------------ paths
    def assume(self, *cs):
        for c in cs:
            if isinstance(c, (list, tuple)):
                self.assume(*c)
            else:
                self.path.add(c)

    def flush_axioms(self):
        for a in take_axioms():
            self.path.add(a)

    def fresh(self, shape, name='v'):
        if self.fresh_scope:
            sc = self.fresh_scope[-1]
            sc['n'] += 1
            nm = '%s@%s.%s.%d' % (name, sc['id'], ''.join('TF'[not d] for d in self.path.trail), sc['n'])
            v = V._fresh(shape, nm, list(sc['idxs']), True)
            for a in take_axioms():
                self.path.add(a)
            return self.own(self.thaw(v))
        v = fresh(shape, name)
        self.flush_axioms()
        return self.own(v)

    def thaw(self, v, owner=None):
        """mutable view of an immutable snapshot (fresh identity)"""
        if isinstance(v, Seq):
            return ListV(v, owner=owner)
        if isinstance(v, FrozenObj):
            return ObjV(v.cls, {k: self.thaw(x) for k, x in v.fields.items()}, owner=owner)
        if isinstance(v, Map):
            d = DictV(v)
            d.owner = owner
            return d
        if isinstance(v, tuple):
            return tuple(self.thaw(x) for x in v)
        if isinstance(v, OptV) and isinstance(v.val, (Seq, Map, FrozenObj)):
            return OptV(v.isnone, self.thaw(v.val))
        return v

    def borrow(self, v, act=None):
        """read-only view of an immutable snapshot (writes to it would be lost)"""
        priv = v.priv if isinstance(v, FrozenObj) else None
        if priv is not None and priv.muts and act is not None and priv.muts <= {act}:
            v = FrozenObj(v.cls, v._fields)
        w = self.thaw(v)
        mark_borrowed(w)
        if priv is not None and isinstance(w, ObjV):
            w.priv, w.act = priv, act
        return w

    def own(self, v):
        """v (and its mutable parts) is reachable only through this reference: the elements of unbounded
        containers in it are distinct objects that nothing else refers to"""
        if isinstance(v, HeapV):
            self.excl.add(v.uid)
            if isinstance(v, ObjV):
                for x in v.fields.values():
                    self.own(x)
            elif isinstance(v, CellV):
                for x in v.d.values():
                    self.own(x)
            elif v._c.items is not None:
                for x in (v._c.items.values() if isinstance(v._c, Map) else v._c.items):
                    self.own(x)
        elif isinstance(v, tuple):
            for x in v:
                self.own(x)
        elif isinstance(v, OptV):
            self.own(v.val)
        return v

    def leak(self, v):
        """the elements of this container become reachable from elsewhere"""
        if isinstance(v, HeapV):
            self.leaked.add(v.uid)
        return v

    def branch(self, c):
        """decide a condition, forking the path when both outcomes are possible"""
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        p = self.path
        nq = not has_quantifier(c)

        def feasible():
            if not nq:
                return True, True
            s = p.feas_solver()
            t = s.check(c) != z3.unsat
            return t, (s.check(z3.Not(c)) != z3.unsat if t else True)
        if self.spec:
            # speculative evaluation takes no decisions: the condition must be decided already
            can_t, can_f = p.logged(feasible)
            if can_t and can_f:
                raise NeedBranch()
            p.add(c if can_t else z3.Not(c))
            return can_t
        pos = len(p.trail)
        if pos < len(p.prefix):
            d = p.prefix[pos]
            p.trail.append(d)
            p.add(c if d else z3.Not(c))
            return d
        can_t, can_f = feasible()
        if can_t and can_f:
            p.alts.append((list(p.trail) + [False], list(p.log)))
            p.trail.append(True)
            p.add(c)
            return True
        # forced outcome: keep replay deterministic
        d = can_t
        p.trail.append(d)
        p.add(c if d else z3.Not(c))
        return d

    def entails(self, c, timeout=ENTAIL_TIMEOUT):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.path.logged(lambda: self.entails_now(c, timeout))

    def entails_now(self, c, timeout):
        s = self.path.feas_solver()
        if not has_quantifier(c) and s.check(z3.Not(c)) == z3.unsat:
            return True
        if not self.path.quantified and not has_quantifier(c):
            if s.check(z3.Not(c)) == z3.sat:
                return False
        if self.disc:
            return False
        return self.prover.quick(self.path.pc, c, timeout)

    def guard(self, c, exc, msg=''):
        """implicit exception: raises exc on the paths where c does not hold"""
        if isinstance(c, bool):
            if not c:
                self.raise_(exc, msg)
            return
        p = self.path
        if self.spec:
            if not self.disc and self.entails(c):
                p.add(c)
                return
            raise NeedBranch()
        pos = len(p.trail)
        if pos < len(p.prefix):
            d = p.prefix[pos]
            p.trail.append(d)
            p.add(c if d else z3.Not(c))
            if not d:
                self.raise_(exc, msg)
            return
        if not self.disc and self.entails_now(c, ENTAIL_TIMEOUT):
            p.trail.append(True)
            p.add(c)
            return
        s = p.feas_solver()
        if not has_quantifier(c) and s.check(c) == z3.unsat:
            p.trail.append(False)
            p.add(z3.Not(c))
            self.raise_(exc, msg)
        p.alts.append((list(p.trail) + [False], list(p.log)))
        p.trail.append(True)
        p.add(c)

    def log(self, *a):
        import sys
        print(*a, file=sys.stderr, flush=True)

    def raise_(self, exc, *args):
        if self.spec:
            raise NeedBranch()
        cls = exc if not isinstance(exc, str) else BI(exc)
        raise PyExc(ExcV(cls, tuple(a for a in args)))

    def explore(self, run, base=None, on_path=None):
        """run() on every path from the current state; returns [(suffix of pc, outcome)]"""
        outer = self.path
        base = list(outer.pc) if base is None else list(base)
        work = [([], [])]
        out = []
        count = 0
        saved_spec = self.spec
        self.spec = 0
        try:
            while work:
                prefix, plog = work.pop()
                count += 1
                if count > self.max_paths:
                    raise Unsupported('too many paths')
                self.path = Path(prefix, base, plog)
                saved_ov, saved_gh = dict(self.goverlay), dict(self.ghost)
                try:
                    try:
                        r = ('ok', run())
                    except PathPruned:
                        r = None
                    except PyExc as e:
                        r = ('exc', e.exc)
                    except (BreakEx, ContinueEx, ReturnEx) as e:
                        r = ('flow', e)
                    if r is not None:
                        out.append((self.path.pc[len(base):], r))
                    if on_path is not None and r is not None:
                        on_path(r)
                finally:
                    self.goverlay, self.ghost = saved_ov, saved_gh
                    work += self.path.alts
        finally:
            self.path = outer
            self.spec = saved_spec
        return out

    # ------------------------------------------------------------ values
    def force(self, v):
        """resolve None-or-value and unions by branching"""
        while True:
            if isinstance(v, OptV):
                if self.branch(v.isnone):
                    return None
                v = self.borrow(v.val) if isinstance(v.val, (Seq, Map, FrozenObj, tuple)) else v.val
            elif isinstance(v, UnionV):
                for c, x in v.alts[:-1]:
                    if self.branch(c):
                        v = x
                        break
                else:
                    v = v.alts[-1][1]
                v = self.borrow(v) if isinstance(v, (Seq, Map, FrozenObj, tuple)) else v
            elif isinstance(v, UnsupV):
                raise Unsupported(v.why)
            else:
                return v

    def truth(self, v):
        if isinstance(v, OptV):
            if self.branch(v.isnone):
                return False
            v = v.val
        v = self.force(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, str, bytes, float)):
            return bool(v)
        if is_term(v):
            if v.sort() == BOOL:
                return v
            if v.sort() == INT:
                return v != 0
            if v.sort() == cur_str().sort:
                return to_z3(cur_str().length(v)) != 0
            return True
        if isinstance(v, BytesT):
            return z3.Length(v.t) != 0
        if isinstance(v, (ListV, Seq)):
            c = v._c if isinstance(v, ListV) else v
            return c.n != 0 if isinstance(c.n, int) else c.n != 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (DictV, SetV, Map)):
            c = v if isinstance(v, Map) else v._c
            return self.map_len(c) != 0
        if isinstance(v, ObjV):
            f, _ = v.cls.lookup('__bool__')
            if f is not None:
                return self.truth(self.call(BoundV(f, v), [], {}))
            f, _ = v.cls.lookup('__len__')
            if f is not None:
                return self.truth(self.call(BoundV(f, v), [], {}))
            return True
        return True

    def test(self, v):
        return self.branch(self.truth(v))

    def map_len(self, m):
        if m.items is not None:
            return len(m.items)
        if m.size is None:
            raise Unsupported('size of a mapping with unknown size')
        return m.size

    def fact(self, c):
        """something that always holds"""
        key = (id(self.path), c.get_id())
        if key not in self.facts:
            self.facts[key] = c
            self.path.add(c)

    def str_len(self, v):
        if isinstance(v, (str, bytes)):
            return len(v)
        if isinstance(v, BytesT):
            return z3.Length(v.t)
        if cur_str().mode != 'z3':
            ps = cur_str().parts(v)
            for p in ps:
                if not isinstance(p, str):
                    self.fact(cur_str().length(p) >= 0)
            if len(ps) > 1:
                r = 0
                for p in ps:
                    r = len(p) + r if isinstance(p, str) else cur_str().length(p) + r
                return simp(r)
        return simp(cur_str().length(v))

    def len_(self, v):
        v = self.force(v)
        if is_str(v) or is_bytes(v) or isinstance(v, BytesT):
            return self.str_len(v)
        if isinstance(v, ListV):
            return v._c.n
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, (DictV, SetV)):
            return self.map_len(v._c)
        if isinstance(v, RangeV):
            return self.to_seq(v).n
        if isinstance(v, ObjV):
            f, _ = v.cls.lookup('__len__')
            if f is not None:
                return self.call(BoundV(f, v), [], {})
            v2 = v.fields.get('$base')
            if v2 is not None:
                return self.len_(v2)
        if isinstance(v, CellV) and v.kind == 'seqview':
            return v.d['seq'].n
        raise Unsupported('len of %r' % (v,))

    def elem_view(self, container, key, val):
        """element read out of an unbounded container"""
        if isinstance(val, (Seq, Map, FrozenObj)):
            if isinstance(val, FrozenObj) and val.priv is not None:
                return self.borrow(val)
            w = self.thaw(val)
            if isinstance(w, ObjV):
                for x in w.fields.values():
                    mark_borrowed(x)
            w.owner = (container, key)
            w.seen = container._c
            container.views = [x for x in container.views or [] if x.owner is None or x.seen is container._c] + [w]
            return w
        if isinstance(val, tuple) and any(isinstance(x, (Seq, Map, FrozenObj)) for x in val):
            return self.borrow(val)
        if isinstance(val, OptV) and isinstance(val.val, (Seq, Map, FrozenObj)):
            return OptV(val.isnone, self.borrow(val.val))
        return val

    def mutate(self, obj):
        if self.spec:
            raise NeedBranch()
        if getattr(obj, 'frozen', False):
            raise Unsupported('mutation of an object that was stored in an unbounded container')
        if obj.borrowed:
            p = obj.priv
            if p is None or obj.act is None:
                raise Unsupported('mutation of an element of an unbounded container')
            if not p.shares <= {obj.act} or not p.muts <= {obj.act}:
                raise Unsupported('mutation of an element of an unbounded container that is in use elsewhere')
            p.muts.add(obj.act)
        if self.pure_mark is not None and obj.uid <= self.pure_mark:
            raise Unsupported('side effect inside a comprehension over an unbounded sequence')
        if self.modlevel and any(a <= obj.uid <= b for a, b in self.modlevel):
            raise Unsupported('mutation of a module-level object')

    def wrote(self, obj):
        """propagate a write to the container the object was read from"""
        if obj.owner is not None:
            cont, key = obj.owner
            self.mutate(cont)
            if cont.uid not in self.excl or cont.uid in self.leaked:
                raise Unsupported('write through an element of a container that may share its elements')
            if obj.seen is not cont._c:
                raise Unsupported('write through a view of an element of a container that has changed')
            for w in cont.views or []:
                if w is not obj:
                    if isinstance(w, ObjV):
                        w.fields = StaleFields()
                    else:
                        w._c = Stale()
            cont.views = [obj]
            val = obj._c if not isinstance(obj, ObjV) else FrozenObj(obj.cls, {k: freeze(x) for k, x in obj.fields.items()})
            for f in (obj,):
                f.frozen = False
            if isinstance(cont, ListV):
                cont._c = seq_set(cont._c, key, val)
            elif isinstance(cont, DictV):
                cont._c = self.map_set(cont._c, key, val, has=True)
            else:
                raise Unsupported('write-through into %r' % (cont,))
            obj.seen = cont._c
            self.wrote(cont)

    def set_content(self, obj, c):
        self.mutate(obj)
        if obj.uid not in self.excl and isinstance(obj, HeapV) and obj._c.items is not None:
            self.excl.add(obj.uid)      # concrete so far: its elements have an identity of their own
        obj._c = c
        if V.FROZEN:
            for v in V.FROZEN:
                if v.borrowed or v.owner is not None:
                    self.leak(obj)
                    if v.owner is not None:
                        self.leak(v.owner[0])
            if c.items is None:
                obj.views = (obj.views or []) + [v for v in V.FROZEN if v is not obj]
            del V.FROZEN[:]
        self.wrote(obj)

    # ------------------------------------------------------------ maps
    def map_has(self, m, k):
        if m.items is not None:
            if not has_term(k):
                try:
                    if k in m.items:
                        return True
                except TypeError:
                    self.raise_('TypeError', 'unhashable')
            return z_or(*[eqv(k, a) for a in m.items])
        return m.has(self.as_key(k))

    def as_key(self, k):
        if isinstance(k, tuple):
            return tuple(self.as_key(x) for x in k)
        if isinstance(k, (ListV, DictV, SetV)):
            self.raise_('TypeError', 'unhashable type')
        return k

    def map_get(self, m, k, container=None):
        """value for a key known to be present"""
        if m.items is not None:
            if not has_term(k) and k in m.items:
                return m.items[k]
            its = list(m.items.items())
            for i, (a, b) in enumerate(its):
                if i == len(its) - 1 or self.branch(eqv(k, a)):
                    return b
            raise Unsupported('lookup in an empty dict')
        return self.elem_view(container, k, m.get(self.as_key(k)))

    def map_set(self, m, k, v, has=None):
        k = self.as_key(k)
        if m.items is not None:
            if not has_term(k) and not any(has_term(a) for a in m.items):
                d = dict(m.items)
                d[k] = v
                return Map(items=d)
            for a in m.items:
                if self.branch(eqv(k, a)):
                    d = dict(m.items)
                    d[a] = v
                    return Map(items=d)
            d = dict(m.items)
            d[k] = v
            return Map(items=d)
        fv = freeze(v)
        if has is None:
            has = self.branch(m.has(k))
        oget = m.get
        nget = (lambda q: ite(eqv(q, k), fv, oget(q))) if fv is not None or oget is not None else None
        if has:
            return Map(has=m.has, get=nget, keys=m.keys, size=m.size, idx=m.idx, kshape=m.kshape)
        n = m.size
        nidx = None
        if m.idx is not None and n is not None:
            nidx = lambda q: ite(eqv(q, k), to_z3(n), m.idx(q))
        return Map(has=lambda q: z_or(eqv(q, k), m.has(q)), get=nget,
                   keys=seq_append(m.keys, k) if m.keys is not None else None,
                   size=simp(to_z3(n) + 1) if n is not None else None, idx=nidx, kshape=m.kshape)

    def map_del(self, m, k):
        if m.items is not None:
            for a in list(m.items):
                if self.branch(eqv(k, a)):
                    d = dict(m.items)
                    del d[a]
                    return Map(items=d)
            raise Unsupported('del of a missing key')
        return Map(has=lambda q: z_and(z_not(eqv(q, k)), m.has(q)), get=m.get, keys=None,
                   size=simp(to_z3(m.size) - 1) if m.size is not None else None, kshape=key_shape(m))

    # ------------------------------------------------------------ sequences
    def to_seq(self, v, iterate=False):
        """immutable sequence of the items an iteration over v yields"""
        v = self.force(v)
        if isinstance(v, HeapV) and not iterate:
            self.leak(v)
        if isinstance(v, ListV):
            return v._c
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return Seq(items=list(v))
        if isinstance(v, RangeV):
            st = v.step
            if not isinstance(st, int):
                raise Unsupported('symbolic range step')
            lo, hi = hint(v.lo), hint(v.hi)
            if lo is not None and hi is not None:
                r = range(lo, hi, st)
                if len(r) <= MAX_UNROLL:
                    return Seq(items=list(r))
            zl, zh = to_z3(v.lo), to_z3(v.hi)
            if st == 1:
                n = simp(z3.If(zh > zl, zh - zl, z3.IntVal(0)))
                return Seq(n=n, get=lambda i: simp(zl + to_z3(i)), meta=('range', zl, zh))
            if st == -1:
                n = simp(z3.If(zl > zh, zl - zh, z3.IntVal(0)))
                return Seq(n=n, get=lambda i: simp(zl - to_z3(i)), meta=('range-', zl, zh))
            raise Unsupported('range step %r' % st)
        if isinstance(v, str):
            return Seq(items=list(v))
        if is_str(v):
            return Seq(n=self.str_len(v), get=lambda i: self.char_at(v, i), meta=('chars', v))
        if isinstance(v, bytes):
            return Seq(items=list(v))
        if isinstance(v, (DictV, SetV)):
            ks = map_keys(v._c)
            if ks is None:
                # in some order
                if self.spec:
                    raise NeedBranch()
                c = v._c
                f = self.fresh(SSet(key_shape(c)), 'order')._c
                ls = [z3.Const('ord!%d!%d' % (next(V._uid), i), x) for i, x in enumerate(V.leaf_sorts(key_shape(c)))]
                q = V.build_from_leaves(key_shape(c), iter(ls))
                self.assume(z3.ForAll(ls, to_z3(f.has(q)) == to_z3(z_bool(c.has(q)))))
                if c.size is not None:
                    self.assume(to_z3(f.size) == to_z3(c.size))
                return f.keys
            return ks
        if isinstance(v, ClassV) and v.enum_members is not None:
            return Seq(items=list(v.enum_members))
        if isinstance(v, CellV):
            if v.kind == 'seqview':
                return v.d['seq']
            if v.kind == 'iter':
                s = v.d['seq']
                pos = v.d['pos']
                if self.spec:
                    raise NeedBranch()
                v.d['pos'] = s.n
                if hint(pos) == 0:
                    return s
                return seq_slice(s, pos, s.n)
            if v.kind == 'gen':
                if self.spec:
                    raise NeedBranch()
                return self.run_gen(v)
            if v.kind == 'file':
                return self.natives['$file.lines'](self, v)
        if isinstance(v, ObjV):
            f, _ = v.cls.lookup('__iter__')
            if f is not None:
                r = self.call(BoundV(f, v), [], {})
                if r is v:
                    raise Unsupported('iteration over a user iterator')
                return self.to_seq(r)
            if '$base' in v.fields:
                return self.to_seq(v.fields['$base'])
        if isinstance(v, NativeV):
            raise Unsupported('iteration over %r' % v)
        if v is None or is_int(v) or is_bool(v):
            self.raise_('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def char_at(self, s, i):
        if isinstance(s, str) and hint(i) is not None:
            return s[hint(i)]
        if cur_str().mode == 'z3':
            return z3.SubString(to_z3(s), to_z3(i), 1)
        return z3.Function('achar', cur_str().sort, INT, cur_str().sort)(to_z3(s), to_z3(i))

    def run_gen(self, g):
        if g.d.get('done') is not None:
            return g.d['done']
        fv, env = g.d['fv'], g.d['env']
        env.yields = ListV(Seq(items=[]))
        self.run_body(fv, env)
        c = env.yields._c
        g.d['done'] = Seq(items=[])
        return c

    def concrete(self, s, limit=MAX_UNROLL):
        """host list of the items when the length is a literal, else None"""
        if s.items is not None:
            return s.items
        h = hint(s.n)
        if h is not None and h <= limit:
            return [s.get(i) for i in range(h)]
        return None

    # ------------------------------------------------------------ function calls
    def call(self, f, args, kwargs):
        f = self.force(f)
        self.depth += 1
        if self.depth > MAX_DEPTH:
            self.depth -= 1
            raise Unsupported('call depth')
        try:
            return self._call(f, args, kwargs)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, BoundV):
            if isinstance(f.func, StaticV):
                return self._call(f.func.f, args, kwargs)
            return self._call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, NativeFn):
            return f.fn(self, args, kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, NativeV):
            fn = self.natives.get(f.name)
            if fn is None:
                if f.name.startswith('builtins.') and f.name[9:] in BUILTIN_EXC:
                    return ExcV(f, tuple(args))
                raise Unsupported('call of %s' % f.name)
            return fn(self, args, kwargs)
        if isinstance(f, StaticV):
            return self._call(f.f, args, kwargs)
        if isinstance(f, ObjV):
            c, _ = f.cls.lookup('__call__')
            if c is not None:
                return self._call(BoundV(c, f), args, kwargs)
        if isinstance(f, SuperV) or f is None:
            raise Unsupported('call of %r' % (f,))
        if is_term(f):
            fn = self.natives.get('$callterm')
            if fn is not None:
                return fn(self, [f] + list(args), kwargs)
        raise Unsupported('call of %r' % (f,))

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        for n in names:
            if args:
                out[n] = args.pop(0)
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args)
            args = []
        elif args:
            self.raise_('TypeError', 'too many arguments')
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in out:
                    self.raise_('TypeError', 'multiple values')
                out[n] = kw.pop(n)
        if a.kwarg is not None:
            out[a.kwarg.arg] = DictV(Map(items=kw))
            kw = {}
        if kw:
            self.raise_('TypeError', 'unexpected keyword %s' % list(kw))
        defs = dict(zip(names[len(names) - len(f.defaults):], f.defaults))
        for n in names:
            if n not in out:
                if n in defs:
                    out[n] = defs[n]
                else:
                    self.raise_('TypeError', 'missing argument %s' % n)
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in f.kwdefaults:
                    out[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.raise_('TypeError', 'missing argument %s' % x.arg)
        return out

    def call_func(self, f, args, kwargs):
        b = self.bind(f, args, kwargs)
        c = self.contracts.get(f.qual)
        if c is not None and c.applies(self, b):
            if self.spec:
                raise NeedBranch()
            self.used_contracts.add(f.qual)
            return c.apply(self, b)
        self.inlined.add(f.qual)
        env = Env(f.env, f.module, f)
        env.vars.update(b)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        scan_scope(f.node, env)
        if is_generator(f.node):
            return CellV('gen', fv=f, env=env)
        return self.run_body(f, env)

    def run_body(self, f, env):
        if self.cur_fn.count(f.qual) > 3:
            raise Unsupported('recursion in %s' % f.qual)
        self.cur_fn.append(f.qual)
        try:
            self.exec_block(f.node.body, env)
        except ReturnEx as r:
            return r.v
        finally:
            self.cur_fn.pop()
        return None

    def instantiate(self, cls, args, kwargs):
        nb = cls.native_bases()
        if cls.enum_members is not None:
            v = args[0]
            for m in cls.enum_members:
                if self.branch(eqv(v, m.value)):
                    return m
            self.raise_('ValueError', 'not an enum value')
        if any(isinstance(b, NativeV) and self.is_exc_class(b) for b in nb):
            o = ExcV(cls, tuple(args))
            init, _ = cls.lookup('__init__')
            return o
        hook = self.natives.get('new:' + cls.qualname)
        if hook:
            return hook(self, args, kwargs)
        o = ObjV(cls)
        init, _ = cls.lookup('__init__')
        if init is not None:
            self._call(BoundV(init, o), args, kwargs)
        elif args or kwargs:
            self.raise_('TypeError', 'no arguments expected')
        return o

    def is_exc_class(self, b):
        return isinstance(b, NativeV) and (b.name.split('.')[-1] in BUILTIN_EXC or b.name.endswith('Error'))

    def exc_matches(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(exc, c) for c in cls)
        c = exc.cls
        if isinstance(c, ClassV):
            if isinstance(cls, ClassV):
                return c.issub(cls)
            return any(native_exc_sub(b.name, cls.name) for b in c.native_bases() if isinstance(b, NativeV))
        if isinstance(cls, ClassV):
            return False
        if isinstance(cls, NativeV):
            return native_exc_sub(c.name, cls.name)
        raise Unsupported('except %r' % (cls,))

    # ------------------------------------------------------------ names and attributes
    def lookup(self, name, env):
        e = env
        while e is not None:
            if e.parent is None and e.fn is None:
                break
            if name in e.globals_decl:
                break
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, UnsupV):
                    if v is UNDEF:
                        raise Unsupported('possibly undefined variable %s' % name)
                    raise Unsupported(v.why)
                return v
            if e.fn is not None and name in getattr(e, 'locals_', ()):
                self.raise_('UnboundLocalError', name)
            e = e.parent
        m = env.module
        if (m, name) in self.goverlay:
            return self.goverlay[(m, name)]
        g = self.mods[m].vars if m in self.mods else {}
        if name in g:
            v = g[name]
            if isinstance(v, UnsupV):
                raise Unsupported(v.why)
            return v
        if name in BUILTIN_TYPES or name in BUILTIN_EXC or 'builtins.' + name in self.natives:
            return BI(name)
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        if self.spec:
            raise NeedBranch()
        raise PyExc(ExcV(BI('NameError'), (name,)))

    def store(self, name, v, env):
        if self.spec and env.fn is not None and not getattr(env, 'comp', False):
            raise NeedBranch()
        e = env
        if name in e.globals_decl:
            self.goverlay[(env.module, name)] = v
            return
        if name in e.nonlocals:
            e = e.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported('nonlocal %s' % name)
        e.vars[name] = v

    def getattr(self, o, name, env=None):
        o = self.force(o)
        if isinstance(o, ObjV):
            if name in o.fields:
                v = o.fields[name]
                if isinstance(v, UnsupV):
                    raise Unsupported(v.why)
                return v
            a, _ = o.cls.lookup(name)
            if a is not None:
                return self.bind_attr(a, o)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return DictV(Map(items=dict(o.fields)))
            if '$base' in o.fields:
                return self.getattr(o.fields['$base'], name)
            h = self.native_method(o, name)
            if h is not None:
                return h
            self.raise_('AttributeError', name)
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            if name == '__module__':
                return o.module
            if name == '__class__':
                return BI('type')
            a, c = o.lookup(name)
            if a is None:
                if o.enum_members is not None and name == '__members__':
                    return DictV(Map(items={m.name: m for m in o.enum_members}))
                if name == '__init__' and o.native_bases():
                    return NativeFn('object.__init__', lambda I, a, k: None)
                self.raise_('AttributeError', name)
            if isinstance(a, StaticV):
                return a.f
            if isinstance(a, ClassMethodV):
                return BoundV(a.f, o)
            return a
        if isinstance(o, ModuleV):
            env2 = self.load(o.name)
            if (o.name, name) in self.goverlay:
                return self.goverlay[(o.name, name)]
            if name in env2.vars:
                v = env2.vars[name]
                if isinstance(v, UnsupV):
                    raise Unsupported(v.why)
                return v
            sub = o.name + '.' + name
            if os.path.exists(self.mod_file(sub)):
                self.load(sub)
                return ModuleV(sub)
            raise Unsupported('module attribute %s.%s' % (o.name, name))
        if isinstance(o, SuperV):
            mro = o.self_.cls.mro() if isinstance(o.self_, ObjV) else o.self_.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind_attr(c.ns[name], o.self_)
            if name == '__init__':
                return NativeFn('object.__init__', lambda I, a, k: None)
            if name == '__eq__':
                s = o.self_
                return NativeFn('object.__eq__', lambda I, a, k: a[0] is s)
            if name == '__repr__':
                return NativeFn('object.__repr__', lambda I, a, k: I.fresh(SStr, 'repr'))
            raise Unsupported('super().%s' % name)
        if isinstance(o, EnumMember):
            if name == 'value':
                return o.value
            if name == 'name':
                return o.name
            a, _ = o.cls.lookup(name)
            if a is not None and not isinstance(a, EnumMember):
                return self.bind_attr(a, o)
            if isinstance(o.value, str):
                return self.getattr(o.value, name)
        if isinstance(o, NativeV):
            nm = o.name + '.' + name
            if nm in self.native_attrs:
                v = self.native_attrs[nm]
                return v(self) if callable(v) and not isinstance(v, (NativeFn,)) else v
            if name == '__name__':
                return o.name.split('.')[-1]
            return NativeV(nm)
        if isinstance(o, FuncV):
            if name == '__name__':
                return o.name
        if isinstance(o, ExcV):
            if name == 'args':
                return o.args
        if isinstance(o, PropertyV):
            if name == 'setter':
                return NativeFn('setter', lambda I, a, k: PropertyV(o.fget, a[0]))
        if name == '__class__':
            return self.natives['builtins.type'](self, [o], {})
        h = self.native_method(o, name)
        if h is not None:
            return h
        if o is None:
            self.raise_('AttributeError', name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def native_method(self, o, name):
        from . import natives as N
        return N.method(self, o, name)

    def bind_attr(self, a, o):
        if isinstance(a, FuncV):
            return BoundV(a, o)
        if isinstance(a, PropertyV):
            return self.call(BoundV(a.fget, o), [], {})
        if isinstance(a, StaticV):
            return a.f
        if isinstance(a, ClassMethodV):
            return BoundV(a.f, o.cls if isinstance(o, ObjV) else o)
        if isinstance(a, UnsupV):
            raise Unsupported(a.why)
        return a

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, ObjV):
            a, _ = o.cls.lookup(name)
            if isinstance(a, PropertyV):
                if a.fset is None:
                    self.raise_('AttributeError', name)
                self.call(BoundV(a.fset, o), [v], {})
                return
            self.mutate(o)
            o.fields[name] = v
            self.wrote(o)
            return
        if isinstance(o, ClassV):
            raise Unsupported('assignment to a class attribute')
        if isinstance(o, ModuleV):
            self.goverlay[(o.name, name)] = v
            return
        h = self.natives.get('$setattr')
        if h is not None and h(self, [o, name, v], {}):
            return
        raise Unsupported('attribute assignment on %r' % (o,))

    # ------------------------------------------------------------ subscripts
    def norm_index(self, i, n):
        i = self.force(i)
        if isinstance(i, bool):
            i = int(i)
        if not is_int(i):
            self.raise_('TypeError', 'indices must be integers')
        h = hint(i)
        if h is not None:
            if h < 0:
                i = simp(to_z3(n) + h)
            return i
        if self.entails(i >= 0):
            return i
        if self.branch(i >= 0):
            return i
        return simp(i + to_z3(n))

    def getitem(self, o, i):
        o = self.force(o)
        if isinstance(o, ListV) or isinstance(o, tuple) or isinstance(o, Seq):
            c = o._c if isinstance(o, ListV) else (Seq(items=list(o)) if isinstance(o, tuple) else o)
            i = self.norm_index(i, c.n)
            if hint(i) is not None and isinstance(c.n, int):
                if not 0 <= hint(i) < c.n:
                    self.raise_('IndexError', 'list index out of range')
            else:
                self.guard(z_and(to_z3(i) >= 0, to_z3(i) < to_z3(c.n)), 'IndexError', 'list index out of range')
            if c.items is not None and hint(i) is None:
                # symbolic index into a concrete list: split cases when elements are not scalar
                if any(not (is_term(x) or isinstance(x, (int, str, bool))) for x in c.items):
                    for j in range(len(c.items) - 1):
                        if self.branch(to_z3(i) == j):
                            return c.items[j]
                    return c.items[-1]
            v = c.get(hint(i) if hint(i) is not None else i)
            if c.items is None:
                return self.elem_view(o, i, v)
            return v
        if is_str(o) or isinstance(o, (bytes, BytesT)):
            n = self.str_len(o)
            i = self.norm_index(i, n)
            if isinstance(o, (str, bytes)) and hint(i) is not None:
                if not 0 <= hint(i) < len(o):
                    self.raise_('IndexError', 'string index out of range')
                return o[hint(i)]
            self.guard(z_and(to_z3(i) >= 0, to_z3(i) < to_z3(n)), 'IndexError', 'string index out of range')
            if isinstance(o, BytesT):
                raise Unsupported('byte index')
            return self.char_at(o, i)
        if isinstance(o, DictV):
            i = self.force(i) if isinstance(i, OptV) else i
            has = self.map_has(o._c, i)
            if o.default is not None:
                if not self.branch(has):
                    d = self.call(o.default, [], {})
                    if o.pycls == 'Counter':
                        return d
                    self.set_content(o, self.map_set(o._c, i, d, has=False))
                    return self.map_get(o._c, i, o) if o._c.items is not None else self.elem_view(o, i, o._c.get(i))
            else:
                self.guard(has, 'KeyError', i)
            return self.map_get(o._c, i, o)
        if isinstance(o, ObjV):
            f, _ = o.cls.lookup('__getitem__')
            if f is not None:
                return self.call(BoundV(f, o), [i], {})
            if '$base' in o.fields:
                return self.getitem(o.fields['$base'], i)
        if isinstance(o, (NativeV, ClassV)):
            return o     # typing subscripts
        if isinstance(o, CellV):
            h = self.natives.get('$getitem:' + o.kind)
            if h:
                return h(self, [o, i], {})
        if is_term(o):
            h = self.natives.get('$getitem:' + o.sort().name())
            if h:
                return h(self, [o, i], {})
        raise Unsupported('subscript of %r' % (o,))

    def slice_bounds(self, lo, hi, n):
        def norm(x, dflt):
            x = self.force(x)
            if x is None:
                return dflt
            h = hint(x)
            zn = to_z3(n)
            if h is not None:
                if h < 0:
                    if hint(n) is not None:
                        return max(0, hint(n) + h)
                    if self.entails(zn >= -h):
                        return simp(zn + h)
                    return simp(z3.If(zn + h < 0, z3.IntVal(0), zn + h))
                if hint(n) is not None:
                    return min(h, hint(n))
                if self.entails(zn >= h):
                    return h
                return simp(z3.If(zn < h, zn, z3.IntVal(h)))
            if x is dflt or (is_term(dflt) and x.eq(to_z3(dflt))):
                return x
            if self.entails(z3.And(x >= 0, x <= zn)):
                return x
            y = z3.If(x < 0, z3.If(x + zn < 0, z3.IntVal(0), x + zn), z3.If(x > zn, zn, x))
            return simp(y)
        l, h = norm(lo, 0), norm(hi, n)
        if hint(l) is not None and hint(h) is not None:
            h = max(hint(l), hint(h))
        elif not self.entails(to_z3(l) <= to_z3(h)):
            h = simp(z3.If(to_z3(h) < to_z3(l), to_z3(l), to_z3(h)))
        return l, h

    def getslice(self, o, lo, hi, step):
        o = self.force(o)
        step = self.force(step)
        if isinstance(o, ObjV):
            f, _ = o.cls.lookup('__getitem__')
            if f is not None:
                return self.call(BoundV(f, o), [CellV('slice', lo=lo, hi=hi, step=step)], {})
        if step not in (None, 1):
            if step == -1 and lo is None and hi is None:
                if isinstance(o, str):
                    return o[::-1]
                if isinstance(o, ListV):
                    c = o._c
                    if c.items is not None:
                        return ListV(Seq(items=c.items[::-1]))
                    self.leak(o)
                    n = to_z3(c.n)
                    return ListV(Seq(n=c.n, get=lambda i: freeze(c.get(simp(n - 1 - to_z3(i))))))
            raise Unsupported('slice step')
        if isinstance(o, (str, bytes)):
            l, h = self.slice_bounds(lo, hi, len(o))
            if hint(l) is not None and hint(h) is not None:
                return o[hint(l):hint(h)]
        if is_str(o):
            n = self.str_len(o)
            l, h = self.slice_bounds(lo, hi, n)
            if cur_str().mode != 'z3':
                r = sub_parts(cur_str(), to_z3(o), to_z3(l), to_z3(h))
                if r is not None:
                    return r
                return z3.Function('asub', cur_str().sort, INT, INT, cur_str().sort)(to_z3(o), to_z3(l), to_z3(h))
            return z3.SubString(to_z3(o), to_z3(l), simp_t(to_z3(h) - to_z3(l)))
        if isinstance(o, BytesT):
            l, h = self.slice_bounds(lo, hi, z3.Length(o.t))
            return BytesT(z3.SubString(o.t, to_z3(l), simp_t(to_z3(h) - to_z3(l))))
        if isinstance(o, tuple):
            l, h = self.slice_bounds(lo, hi, len(o))
            return o[hint(l):hint(h)]
        if isinstance(o, ListV):
            l, h = self.slice_bounds(lo, hi, o._c.n)
            if hint(l) == 0 and (h is o._c.n or (is_term(h) and is_term(o._c.n) and h.eq(o._c.n)) or
                                 (isinstance(h, int) and h == o._c.n)):
                return ListV(self.leak(o)._c)
            self.leak(o)
            return ListV(seq_slice(o._c, l, h))
        raise Unsupported('slice of %r' % (o,))

    def setitem(self, o, i, v):
        o = self.force(o)
        if isinstance(o, ListV):
            i = self.norm_index(i, o._c.n)
            if hint(i) is not None and isinstance(o._c.n, int):
                if not 0 <= hint(i) < o._c.n:
                    self.raise_('IndexError')
            else:
                self.guard(z_and(to_z3(i) >= 0, to_z3(i) < to_z3(o._c.n)), 'IndexError', 'list assignment index')
            if o._c.items is not None and hint(i) is None:
                for j in range(len(o._c.items)):
                    if self.branch(to_z3(i) == j):
                        i = j
                        break
                else:
                    raise PathPruned()
            self.set_content(o, seq_set(o._c, i, v))
            return
        if isinstance(o, DictV):
            self.set_content(o, self.map_set(o._c, self.force(i), v))
            return
        if isinstance(o, ObjV):
            f, _ = o.cls.lookup('__setitem__')
            if f is not None:
                self.call(BoundV(f, o), [i, v], {})
                return
        raise Unsupported('item assignment on %r' % (o,))

    def delitem(self, o, i):
        o = self.force(o)
        if isinstance(o, DictV):
            self.guard(self.map_has(o._c, i), 'KeyError', i)
            self.set_content(o, self.map_del(o._c, i))
            return
        raise Unsupported('del on %r' % (o,))

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %d)' % (type(st).__name__, st.lineno))
        self.cur_line = getattr(st, 'lineno', 0)
        m(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield,)):
            v = self.ev(st.value.value, env) if st.value.value is not None else None
            self.do_yield(v, env)
            return
        if isinstance(st.value, ast.YieldFrom):
            s = self.to_seq(self.ev(st.value.value, env))
            e = self.gen_env(env)
            self.leak(e.yields)
            self.set_content(e.yields, seq_concat(e.yields._c, s))
            return
        self.ev(st.value, env)

    def gen_env(self, env):
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        if e is None:
            raise Unsupported('yield outside a generator')
        return e

    def do_yield(self, v, env):
        e = self.gen_env(env)
        self.set_content(e.yields, seq_append(e.yields._c, v))

    def x_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            self.setitem(o, self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, starred):
        v = self.force(v)
        if isinstance(v, tuple):
            its = list(v)
        else:
            s = self.to_seq(v)
            its = self.concrete(s)
            if its is None:
                if any(starred):
                    raise Unsupported('starred unpacking of unbounded sequence')
                self.guard(to_z3(s.n) == n, 'ValueError', 'unpack')
                its = [self.elem_view(v, i, s.get(i)) for i in range(n)]
        if any(starred):
            k = starred.index(True)
            if len(its) < n - 1:
                self.raise_('ValueError', 'unpack')
            tail = n - 1 - k
            mid = its[k:len(its) - tail]
            return its[:k] + [ListV(Seq(items=mid))] + its[len(its) - tail:]
        if len(its) != n:
            self.raise_('ValueError', 'unpack')
        return its

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            nv = self.aug(st.op, cur, self.ev(st.value, env))
            self.store(t.id, nv, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            nv = self.aug(st.op, self.getattr(o, t.attr), self.ev(st.value, env))
            self.setattr(o, t.attr, nv)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            nv = self.aug(st.op, self.getitem(o, i), self.ev(st.value, env))
            self.setitem(o, i, nv)
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, cur, v):
        cur = self.force(cur)
        if isinstance(op, ast.Add) and isinstance(cur, ListV):
            s = self.to_seq(v)
            if self.concrete(s) is None or cur._c.items is None:
                self.leak(cur)
            self.set_content(cur, seq_concat(cur._c, s))
            return cur
        return self.binop(op, cur, v)

    def x_If(self, st, env):
        if self.test(self.ev(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_Pass(self, st, env):
        pass

    def x_Return(self, st, env):
        raise ReturnEx(self.ev(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise BreakEx()

    def x_Continue(self, st, env):
        raise ContinueEx()

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(env, 'handling', None) or self.goverlay.get('$exc')
            if cur is None:
                raise Unsupported('bare raise')
            raise PyExc(cur)
        e = self.ev(st.exc, env)
        if isinstance(e, (ClassV, NativeV)):
            if isinstance(e, NativeV) and e.name == 'builtins.NotImplemented':
                self.raise_('TypeError')
            e = ExcV(e, ())
        if not isinstance(e, ExcV):
            raise Unsupported('raise of %r' % (e,))
        if self.spec:
            raise NeedBranch()
        raise PyExc(e)

    def x_Assert(self, st, env):
        c = self.truth(self.ev(st.test, env))
        if isinstance(c, bool):
            if not c:
                self.raise_('AssertionError')
        else:
            self.guard(c, 'AssertionError')

    def x_Global(self, st, env):
        env.globals_decl |= set(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.force(self.ev(t.value, env))
                if isinstance(o, ObjV):
                    self.mutate(o)
                    o.fields.pop(t.attr, None)
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del')

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None:
                        match = True
                    else:
                        match = self.exc_matches(e.exc, self.ev(h.type, env))
                    if match:
                        if h.name:
                            self.store(h.name, e.exc, env)
                        saved = self.goverlay.get('$exc')
                        self.goverlay['$exc'] = e.exc
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            if saved is None:
                                self.goverlay.pop('$exc', None)
                            else:
                                self.goverlay['$exc'] = saved
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(st.finalbody, env)
            raise
        else:
            self.exec_block(st.finalbody, env)

    def x_With(self, st, env):
        self.with_items(st.items, st.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.exec_block(body, env)
            return
        it = items[0]
        cm = self.force(self.ev(it.context_expr, env))
        v = self.cm_enter(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except (PyExc, ReturnEx, BreakEx, ContinueEx) as e:
            self.cm_exit(cm, e if isinstance(e, PyExc) else None)
            raise
        else:
            self.cm_exit(cm, None)

    def cm_enter(self, cm):
        if isinstance(cm, ObjV):
            f, _ = cm.cls.lookup('__enter__')
            if f is not None:
                return self.call(BoundV(f, cm), [], {})
        if isinstance(cm, CellV):
            h = self.natives.get('$enter:' + cm.kind)
            if h:
                return h(self, [cm], {})
        raise Unsupported('with %r' % (cm,))

    def cm_exit(self, cm, exc):
        if isinstance(cm, CellV):
            h = self.natives.get('$exit:' + cm.kind)
            if h:
                h(self, [cm, exc], {})
                return
        if isinstance(cm, ObjV):
            f, _ = cm.cls.lookup('__exit__')
            if f is not None:
                self.call(BoundV(f, cm), [None, None, None], {})
                return
        raise Unsupported('with %r' % (cm,))

    def x_FunctionDef(self, st, env):
        f = self.make_func(st, env, st.name)
        for d in reversed(st.decorator_list):
            f = self.decorate(d, f, env)
        self.store(st.name, f, env)

    def decorate(self, d, f, env):
        if isinstance(d, ast.Name):
            if d.id == 'staticmethod':
                return StaticV(f)
            if d.id == 'classmethod':
                return ClassMethodV(f)
            if d.id == 'property':
                return PropertyV(f)
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            p = self.lookup(d.value.id, env)
            return PropertyV(p.fget, f)
        return UnsupV('decorator')

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {x.arg: self.ev(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        prefix = getattr(env, 'qualprefix', None)
        qual = '%s:%s' % (env.module, (prefix + '.' if prefix else '') + name)
        parent = env
        if env.parent is None and env.fn is None:
            parent = None
        cls = getattr(env, 'cls', None)
        if cls is not None:
            parent = env.parent if env.parent is not None and (env.parent.fn is not None) else None
        else:
            e = env
            while e is not None and not hasattr(e, 'cls'):
                if e.fn is not None and not isinstance(e.fn, bool):
                    cls = getattr(e.fn, 'cls', None)
                    break
                e = e.parent
        return FuncV(name, node, env.module, parent, defaults, kwd, qual, cls)

    def x_ClassDef(self, st, env):
        bases = []
        for b in st.bases:
            try:
                bases.append(self.ev(b, env))
            except (Unsupported, PyExc):
                bases.append(NativeV('unknown.' + ast.dump(b)[:20]))
        ns = {}
        prefix = getattr(env, 'qualprefix', None)
        name = (prefix + '.' if prefix else '') + st.name
        c = ClassV(st.name, env.module, bases, ns, st)
        cenv = Env(env, env.module)
        cenv.fn = True
        cenv.cls = c
        cenv.qualprefix = name
        cenv.vars = ns
        c.qual = name
        is_enum = any(isinstance(b, NativeV) and b.name in ('enum.Enum', 'enum.IntEnum') for b in c.native_bases())
        for s in st.body:
            try:
                self.exec(s, cenv)
            except (Unsupported, PyExc) as e:
                for n in assigned_names(s):
                    ns[n] = UnsupV('class body %s: %s' % (st.name, e))
        if is_enum:
            c.enum_members = []
            for k, v in list(ns.items()):
                if isinstance(v, (str, int, tuple)) and not k.startswith('__'):
                    m = EnumMember(c, k, v)
                    ns[k] = m
                    c.enum_members.append(m)
        self.store(st.name, c, env)

    def x_Import(self, st, env):
        for a in st.names:
            if a.name.split('.')[0] == 'codeprep':
                self.load(a.name)
                parts = a.name.split('.')
                for i in range(1, len(parts)):
                    self.load('.'.join(parts[:i]))
                    self.mods['.'.join(parts[:i])].vars.setdefault(parts[i], ModuleV('.'.join(parts[:i + 1])))
                self.store(a.asname or 'codeprep', ModuleV(a.name if a.asname else 'codeprep'), env)
            else:
                self.store(a.asname or a.name.split('.')[0], NativeV(a.name if a.asname else a.name.split('.')[0]), env)

    def x_ImportFrom(self, st, env):
        for a in st.names:
            if st.module and st.module.split('.')[0] == 'codeprep':
                m = self.load(st.module)
                if a.name in m.vars:
                    v = m.vars[a.name]
                else:
                    sub = st.module + '.' + a.name
                    if os.path.exists(self.mod_file(sub)):
                        self.load(sub)
                        v = ModuleV(sub)
                    else:
                        v = UnsupV('import %s from %s' % (a.name, st.module))
            else:
                nm = '%s.%s' % (st.module, a.name)
                v = self.native_attrs.get(nm)
                if v is None:
                    v = NativeV(nm)
                elif callable(v):
                    v = v(self)
            self.store(a.asname or a.name, v, env)

    def x_For(self, st, env):
        from . import loops
        loops.run_for(self, st, env)

    def x_While(self, st, env):
        from . import loops
        loops.run_while(self, st, env)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        if self.bytes_text and isinstance(e.value, bytes):
            return e.value.decode('latin-1')
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr, env)

    def e_Tuple(self, e, env):
        return tuple(self.ev_items(e.elts, env))

    def e_List(self, e, env):
        return ListV(Seq(items=self.ev_items(e.elts, env)))

    def ev_items(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                its = self.concrete(self.to_seq(self.ev(x.value, env)))
                if its is None:
                    raise Unsupported('starred element')
                out += its
            else:
                out.append(self.ev(x, env))
        return out

    def e_Set(self, e, env):
        m = Map(items={})
        for x in e.elts:
            m = self.map_set(m, self.force(self.ev(x, env)), None)
        return SetV(m)

    def e_Dict(self, e, env):
        m = Map(items={})
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.force(self.ev(v, env))
                if src._c.items is None:
                    raise Unsupported('** of unbounded dict')
                for a, b in src._c.items.items():
                    m = self.map_set(m, a, b)
            else:
                kk = self.force(self.ev(k, env))
                m = self.map_set(m, kk, self.ev(v, env))
        return DictV(m)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            return self.getslice(o, self.ev(s.lower, env) if s.lower else None, self.ev(s.upper, env) if s.upper else None,
                                 self.ev(s.step, env) if s.step else None)
        return self.getitem(o, self.ev(e.slice, env))

    def e_Slice(self, e, env):
        return CellV('slice', lo=self.ev(e.lower, env) if e.lower else None, hi=self.ev(e.upper, env) if e.upper else None,
                     step=self.ev(e.step, env) if e.step else None)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.store(e.target.id, v, env)
        return v

    def e_IfExp(self, e, env):
        c = self.truth(self.ev(e.test, env))
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c) or z3.is_false(c):
                c = z3.is_true(c)
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, env)
        m = self.try_merge([(c, lambda: self.ev(e.body, env)), (z_not(c), lambda: self.ev(e.orelse, env))])
        if m is not None:
            return ite(c, m[0], m[1])
        return self.ev(e.body if self.branch(c) else e.orelse, env)

    def try_merge(self, alts):
        """evaluate alternatives speculatively (no forks, exceptions or mutations); None if not possible"""
        out = []
        self.spec += 1
        saved = self.path
        try:
            for cond, f in alts:
                p = Path([], saved.pc, saved.plog)
                p.log = saved.log
                p.add(cond)
                self.path = p
                v = f()
                if not (is_term(v) or isinstance(v, (int, str, bool))):
                    return None
                for c in p.pc[len(saved.pc) + 1:]:
                    pass
                out.append(v)
            srt = {to_z3(v).sort() for v in out}
            if len(srt) > 1:
                return None
            return out
        except (NeedBranch, Unsupported):
            return None
        finally:
            self.spec -= 1
            self.path = saved

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], env)
        for i, x in enumerate(e.values[1:]):
            c = self.truth(v)
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c) or z3.is_false(c):
                    c = z3.is_true(c)
            if isinstance(c, bool):
                if c != is_and:
                    return v
                v = self.ev(x, env)
                continue
            if is_term(v) and v.sort() == BOOL:
                m = self.try_merge([(c if is_and else z_not(c), lambda: self.ev(x, env))])
                if m is not None and is_bool(m[0]):
                    v = z_and(c, m[0]) if is_and else z_or(c, m[0])
                    continue
            if self.branch(c) != is_and:
                return self.force(v) if isinstance(v, (OptV, UnionV)) else v
            v = self.ev(x, env)
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return z_not(self.truth(v))
        v = self.force(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if is_int(v):
                return simp(-v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env):
        l = self.ev(e.left, env)
        return self.binop(e.op, l, self.ev(e.right, env))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        t = type(op).__name__
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b,
                        'FloorDiv': lambda: a // b, 'Mod': lambda: a % b, 'BitAnd': lambda: a & b, 'Pow': lambda: a ** b,
                        'BitOr': lambda: a | b}[t]()
            except ZeroDivisionError:
                self.raise_('ZeroDivisionError')
            except KeyError:
                raise Unsupported('operator ' + t)
        if isinstance(a, bool) and is_term(b):
            a = int(a)
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            za, zb = [z3.If(x, 1, 0) if x.sort() == BOOL else x for x in (to_z3(a), to_z3(b))]
            if t == 'Add':
                return simp(za + zb)
            if t == 'Sub':
                return simp(za - zb)
            if t == 'Mult':
                return simp(za * zb)
            if t in ('FloorDiv', 'Mod'):
                self.guard(zb != 0, 'ZeroDivisionError')
                # z3 div rounds so that the remainder is non-negative; Python floors: equal for positive divisors
                self.require_pos(zb)
                return za / zb if t == 'FloorDiv' else za % zb
            if t in ('BitAnd', 'BitOr', 'Div'):
                return z3.Function('int' + t, INT, INT, INT)(za, zb) if t != 'Div' else self.fresh_float()
        if t == 'Add':
            if isinstance(a, EnumMember) and isinstance(a.value, str):
                a = a.value
            if isinstance(b, EnumMember) and isinstance(b.value, str):
                b = b.value
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if is_str(a) and is_str(b):
                return self.cat(a, b)
            if isinstance(a, bytes) and isinstance(b, bytes):
                return a + b
            if isinstance(a, (bytes, BytesT)) and isinstance(b, (bytes, BytesT)):
                return BytesT(z3.Concat(self.bt(a), self.bt(b)))
            if isinstance(a, ListV) and isinstance(b, ListV):
                self.leak(a)
                self.leak(b)
                return ListV(seq_concat(a._c, b._c))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, ObjV):
                f, _ = a.cls.lookup('__add__')
                if f is not None:
                    return self.call(BoundV(f, a), [b], {})
            if isinstance(b, ObjV) or isinstance(a, (ObjV, ListV, tuple)) or a is None or b is None or is_str(a) or is_str(b):
                self.raise_('TypeError', 'unsupported operands')
        if t == 'Sub' and isinstance(a, SetV) and isinstance(b, SetV):
            return self.set_diff(a, b)
        if t == 'BitOr' and isinstance(a, SetV) and isinstance(b, SetV):
            r = SetV(a._c)
            self.call(self.getattr(r, 'update'), [b], {})
            return r
        if t == 'Mult':
            if isinstance(b, (str, ListV)) and is_int(a):
                a, b = b, a
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if is_str(a) and is_int(b):
                if isinstance(b, int):
                    r = ''
                    for _ in range(max(0, b)):
                        r = self.cat(r, a)
                    return r
                return z3.Function('strmul', cur_str().sort, INT, cur_str().sort)(to_z3(a), to_z3(b))
            if isinstance(a, ListV) and is_int(b):
                its = self.concrete(a._c)
                if its is not None and isinstance(b, int):
                    return ListV(Seq(items=list(its) * b))
                if its is not None and len(its) == 1:
                    x = freeze(its[0])
                    n = simp(z3.If(to_z3(b) > 0, to_z3(b), z3.IntVal(0)))
                    return ListV(Seq(n=n, get=lambda i: x))
        if t == 'Mod' and isinstance(a, str):
            return self.fresh(SStr, 'fmt')
        raise Unsupported('%s on %r and %r' % (t, a, b))

    def fresh_float(self):
        raise Unsupported('division')

    def require_pos(self, zb):
        if hint(zb) is not None and hint(zb) > 0:
            return
        if self.entails(zb > 0):
            return
        if not self.branch(zb > 0):
            raise Unsupported('division by a possibly negative number')

    def set_diff(self, a, b):
        ca, cb = a._c, b._c
        if ca.items is not None:
            m = Map(items={})
            for k in ca.items:
                if not self.branch(self.map_has(cb, k)):
                    m = self.map_set(m, k, None)
            return SetV(m)
        raise Unsupported('set difference')

    def bt(self, b):
        if isinstance(b, BytesT):
            return b.t
        return z3.StringVal(b.decode('latin-1'))

    def cat(self, a, b):
        if isinstance(a, str) and a == '':
            return b
        if isinstance(b, str) and b == '':
            return a
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        return cur_str().cat(to_z3(a), to_z3(b))

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(c, env)
            x = self.compare(op, l, r)
            if i == 0:
                res = x
            else:
                res = z_and(res, x)
            if res is False:
                return False
            l = r
        return res

    def compare(self, op, a, b):
        t = type(op).__name__
        if t == 'Is' or t == 'IsNot':
            r = self.is_(a, b)
            return z_not(r) if t == 'IsNot' else r
        if t == 'Eq' or t == 'NotEq':
            r = self.eq(a, b)
            return z_not(r) if t == 'NotEq' else r
        if t == 'In' or t == 'NotIn':
            r = self.contains(b, a)
            return z_not(r) if t == 'NotIn' else r
        a, b = self.force(a), self.force(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[t]
        if is_int(a) and is_int(b):
            za, zb = to_z3(a), to_z3(b)
            return {'Lt': za < zb, 'LtE': za <= zb, 'Gt': za > zb, 'GtE': za >= zb}[t]
        if (is_term(a) and a.sort() == z3.RealSort()) or (is_term(b) and b.sort() == z3.RealSort()):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[t]
        if is_str(a) and is_str(b) and cur_str().mode == 'z3':
            za, zb = to_z3(a), to_z3(b)
            return {'Lt': za < zb, 'LtE': za <= zb, 'Gt': zb < za, 'GtE': zb <= za}[t]
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.tuple_cmp(t, a, b)
        if a is None or b is None or (is_str(a) != is_str(b)):
            self.raise_('TypeError', 'unorderable')
        raise Unsupported('comparison %s of %r and %r' % (t, a, b))

    def tuple_cmp(self, t, a, b):
        if not a or not b:
            return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[t]
        strict = {'Lt': ast.Lt(), 'LtE': ast.Lt(), 'Gt': ast.Gt(), 'GtE': ast.Gt()}[t]
        first = self.compare(strict, a[0], b[0])
        return z_or(first, z_and(self.eq(a[0], b[0]), self.tuple_cmp(t, a[1:], b[1:])))

    def is_(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, OptV):
                return x.isnone
            if isinstance(x, UnionV):
                return union_apply(x, lambda y: self.is_(y, None))
            if isinstance(x, UnsupV):
                raise Unsupported(x.why)
            return False
        a, b = self.force(a), self.force(b)
        if isinstance(a, bool) or isinstance(b, bool):
            return eqv(a, b) if is_bool(a) and is_bool(b) else False
        if isinstance(a, (HeapV, ClassV, EnumMember, NativeV)) or isinstance(b, (HeapV, ClassV, EnumMember, NativeV)):
            if is_term(a) or is_term(b):
                return eqv(a, b)
            return a is b or (isinstance(a, NativeV) and a == b)
        if isinstance(a, (str, int)) and isinstance(b, (str, int)):
            raise Unsupported('identity of strings or numbers')
        if is_term(a) or is_term(b):
            h = self.natives.get('$is')
            if h:
                return h(self, [a, b], {})
        raise Unsupported('identity of %r and %r' % (a, b))

    def eq(self, a, b):
        if isinstance(a, UnsupV) or isinstance(b, UnsupV):
            raise Unsupported((a if isinstance(a, UnsupV) else b).why)
        if isinstance(a, OptV) and b is None or isinstance(b, OptV) and a is None:
            return eqv(a, b)
        if isinstance(a, OptV) and not isinstance(a.val, (HeapV, FrozenObj)) and not isinstance(b, (OptV, HeapV)):
            return eqv(a, b)
        if isinstance(b, OptV) and not isinstance(b.val, (HeapV, FrozenObj)) and not isinstance(a, (OptV, HeapV)):
            return eqv(a, b)
        a, b = self.force(a), self.force(b)
        if isinstance(a, ObjV):
            f, _ = a.cls.lookup('__eq__')
            if f is not None:
                return self.truth(self.call(BoundV(f, a), [b], {}))
            if isinstance(b, ObjV):
                f, _ = b.cls.lookup('__eq__')
                if f is not None:
                    return self.truth(self.call(BoundV(f, b), [a], {}))
            return a is b
        if isinstance(b, ObjV):
            return self.eq(b, a)
        if isinstance(a, BytesT) or isinstance(b, BytesT):
            if isinstance(a, (BytesT, bytes)) and isinstance(b, (BytesT, bytes)):
                return self.bt(a) == self.bt(b)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return z_and(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, ListV) and isinstance(b, ListV) and a._c.items is not None and b._c.items is not None:
            if len(a._c.items) != len(b._c.items):
                return False
            return z_and(*[self.eq(x, y) for x, y in zip(a._c.items, b._c.items)])
        if isinstance(a, (ListV, Seq)) and isinstance(b, (ListV, Seq)):
            ca = a._c if isinstance(a, ListV) else a
            cb = b._c if isinstance(b, ListV) else b
            return self.seq_user_eq(ca, cb)
        if isinstance(a, (NativeFn, CellV)) or isinstance(b, (NativeFn, CellV)):
            return a is b
        return eqv(a, b)

    def seq_user_eq(self, a, b):
        for c in (a, b):
            probe = None
            if c.items is None:
                try:
                    probe = c.get(z3.Int('probe!'))
                except Unsupported:
                    probe = None
                if isinstance(probe, FrozenObj):
                    f, _ = probe.cls.lookup('__eq__')
                    if f is not None:
                        raise Unsupported('equality of unbounded lists of objects')
        return seq_eq(a, b)

    def contains(self, c, x):
        c = self.force(c)
        if isinstance(c, ObjV):
            f, _ = c.cls.lookup('__contains__')
            if f is not None:
                return self.truth(self.call(BoundV(f, c), [x], {}))
            if '$base' in c.fields:
                return self.contains(c.fields['$base'], x)
            raise Unsupported('in %r' % (c,))
        if isinstance(c, (DictV, SetV)):
            if isinstance(x, (OptV, UnionV)):
                x = self.force(x)
            return self.map_has(c._c, x)
        if isinstance(c, (ListV, tuple, CellV, RangeV)):
            s = self.to_seq(c)
            its = self.concrete(s)
            if its is not None:
                r = False
                for y in its:
                    r = z_or(r, self.eq(y, x))
                    if r is True:
                        return True
                return r
            x = self.force(x)
            return self.seq_contains(s, x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if is_str(c):
            x = self.force(x)
            if not is_str(x):
                self.raise_('TypeError')
            if cur_str().mode == 'z3':
                return z3.Contains(to_z3(c), to_z3(x))
            return z3.Function('acontains', cur_str().sort, cur_str().sort, BOOL)(to_z3(c), to_z3(x))
        if isinstance(c, bytes) and isinstance(x, bytes):
            return x in c
        if isinstance(c, ClassV) and c.enum_members is not None:
            return x in c.enum_members
        if c is None:
            self.raise_('TypeError', 'None is not iterable')
        h = self.natives.get('$in')
        if h is not None:
            r = h(self, [x, c], {})
            if r is not None:
                return r
        raise Unsupported('in %r' % (c,))

    def seq_contains(self, s, x):
        """membership in an unbounded sequence: a membership predicate with witness function"""
        fx = freeze(x)
        return exists_int(lambda j: eqv(s.get(j), fx), 0, s.n)

    def e_JoinedStr(self, e, env):
        res = ''
        for p in e.values:
            if isinstance(p, ast.Constant):
                res = self.cat(res, p.value)
            else:
                try:
                    v = self.ev(p.value, env)
                    if p.format_spec is not None:
                        v = self.force(v)
                        s = self.natives['$format'](self, [v, p.format_spec, env], {})
                    elif p.conversion == ord('r'):
                        s = self.natives['builtins.repr'](self, [v], {})
                    else:
                        s = self.natives['builtins.str'](self, [v], {})
                except Unsupported:
                    s = self.fresh(SStr, 'fstr')
                res = self.cat(res, s)
        return res

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = env
            while f is not None and (f.fn is None or isinstance(f.fn, bool)):
                f = f.parent
            fv = f.fn
            a = fv.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperV(fv.cls, f.vars[first])
        if isinstance(e.func, ast.Name) and e.func.id == 'globals' and not e.args:
            its = {k: v for k, v in self.mods[env.module].vars.items()}
            for k, v in self.goverlay.items():
                if isinstance(k, tuple) and k[0] == env.module:
                    its[k[1]] = v
            return DictV(Map(items=its))
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                its = self.unpack_star(self.ev(a.value, env))
                args += its
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.e_GeneratorExp(a, env))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, env))
                if not isinstance(d, DictV) or d._c.items is None:
                    raise Unsupported('** argument')
                kw.update(d._c.items)
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    def unpack_star(self, v):
        v = self.force(v)
        its = self.concrete(self.to_seq(v))
        if its is None:
            raise Unsupported('* argument of unbounded length')
        return its

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, e, env):
        r = ListV(self.comp(e.elt, e.generators, env))
        if isinstance(e.elt, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
                isinstance(e.elt, ast.Call) and isinstance(e.elt.func, ast.Name) and e.elt.func.id in ('list', 'dict', 'set'):
            self.excl.add(r.uid)        # every element is an object of its own
        return r

    def e_GeneratorExp(self, e, env):
        return CellV('seqview', seq=self.comp(e.elt, e.generators, env))

    def e_SetComp(self, e, env):
        s = self.comp(e.elt, e.generators, env)
        return self.natives['builtins.set'](self, [ListV(s)], {})

    def e_DictComp(self, e, env):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        s = self.comp(pair, e.generators, env)
        return self.dict_from_pairs(s)

    def dict_from_pairs(self, s):
        its = self.concrete(s)
        if its is not None:
            m = Map(items={})
            for p in its:
                k, v = self.unpack(p, 2, [False, False])
                m = self.map_set(m, self.force(k), v)
            return DictV(m)
        # unbounded: last pair with the key wins; keys in order of first occurrence
        from . import loops
        return loops.dict_of_pairs(self, s)

    def comp(self, elt, gens, env):
        g = gens[0]
        if g.is_async:
            raise Unsupported('async comprehension')
        src = self.to_seq(self.ev(g.iter, env))
        rest = gens[1:]
        its = self.concrete(src)
        cenv = Env(env, env.module)
        cenv.comp = True
        if its is not None:
            out = Seq(items=[])
            for x in its:
                self.assign(g.target, self.borrow(x) if isinstance(x, (FrozenObj, Seq, Map)) else x, cenv)
                if all(self.test(self.ev(c, cenv)) for c in g.ifs):
                    if rest:
                        out = seq_concat(out, self.comp(elt, rest, cenv))
                    else:
                        out = seq_append(out, self.ev(elt, cenv))
            return out
        from . import loops
        if rest:
            return loops.flat_comp(self, elt, gens, env, src)

        def body(x, which):
            ce = Env(env, env.module)
            ce.comp = True
            self.assign(g.target, self.borrow(x), ce)
            if which == 'cond':
                for c in g.ifs:
                    if not self.test(self.ev(c, ce)):
                        return False
                return True
            return self.ev(elt, ce)
        return loops.sym_map(self, src, body, bool(g.ifs), [env])


def simp_t(t):
    return z3.simplify(t)


def has_term(k):
    if isinstance(k, tuple):
        return any(has_term(x) for x in k)
    return is_term(k) or isinstance(k, (OptV, UnionV, BytesT))


def assigned_names(st):
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, ast.Assign):
        return [n.id for t in st.targets for n in ast.walk(t) if isinstance(n, ast.Name)]
    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        return [st.target.id]
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        return [(a.asname or a.name).split('.')[0] for a in st.names]
    out = []
    for s in getattr(st, 'body', []):
        out += assigned_names(s)
    return out


_genmemo = {}


def is_generator(node):
    if node not in _genmemo:
        found = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack += list(ast.iter_child_nodes(x))
        _genmemo[node] = found
    return _genmemo[node]


_scopememo = {}


def scan_scope(node, env):
    if node not in _scopememo:
        gl, nl, loc = set(), set(), set()
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, ast.Global):
                gl |= set(x.names)
            elif isinstance(x, ast.Nonlocal):
                nl |= set(x.names)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                loc.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                loc.add(x.name)
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                loc.add(x.name)
                continue
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            stack += list(ast.iter_child_nodes(x))
        _scopememo[node] = (gl, nl, loc - gl - nl)
    gl, nl, loc = _scopememo[node]
    env.globals_decl |= gl
    env.nonlocals |= nl
    env.locals_ = loc

"""Values of the symbolic interpreter.

Scalars are host constants (int, bool, str, bytes, None, float) or z3 terms.
Containers are heap objects (identity = host object identity) pointing to immutable contents (Seq, Map).
Contents of unbounded containers are host functions from z3 indices/keys to values, so that no array or
lambda theory is needed: everything is UF + LIA + strings.
"""
import itertools
import z3

_uid = itertools.count(1)


class Unsupported(Exception):
    """A construct the verifier cannot reason about (never silently ignored: it leaves the obligation open)."""


class PathPruned(Exception):
    pass


# ---------------------------------------------------------------- sorts
INT = z3.IntSort()
BOOL = z3.BoolSort()
ZSTR = z3.StringSort()
ASTR = z3.DeclareSort('Atom')          # strings as atoms (no structure)


class StrTheory:
    """Strings as z3 strings ('z3') or as atoms with uninterpreted operations ('atom')."""

    def __init__(self, mode):
        self.mode = mode
        self.sort = ZSTR if mode == 'z3' else ASTR
        self.lits = {}
        self.names = {}
        self._cat = z3.Function('acat', ASTR, ASTR, ASTR)
        self._len = z3.Function('alen', ASTR, INT)

    def lit(self, s):
        if self.mode == 'z3':
            return z3.StringVal(s)
        if s not in self.lits:
            self.lits[s] = z3.Const('lit!%d!%s' % (len(self.lits), ''.join(c if c.isalnum() else '_' for c in s)[:12]), ASTR)
            self.names[self.lits[s].get_id()] = s
        return self.lits[s]

    def cat(self, a, b):
        if self.mode == 'z3':
            return z3.Concat(a, b)
        # concatenation is associative with the empty string as unit: left-associated, literals merged
        ps = []
        for p in self.parts(a) + self.parts(b):
            if isinstance(p, str) and ps and isinstance(ps[-1], str):
                ps[-1] += p
            elif p != '' if isinstance(p, str) else True:
                ps.append(p)
        if not ps:
            return self.lit('')
        ts = [self.lit(p) if isinstance(p, str) else p for p in ps]
        r = ts[0]
        for t in ts[1:]:
            r = self._cat(r, t)
        return r

    def parts(self, a):
        if self.names.get(a.get_id()) is not None:
            return [self.names[a.get_id()]]
        if z3.is_app(a) and a.decl().eq(self._cat):
            return self.parts(a.arg(0)) + self.parts(a.arg(1))
        return [a]

    def length(self, a):
        if self.mode == 'z3':
            return z3.Length(a)
        return self._len(a)

    def axioms(self):
        if self.mode == 'z3' or not self.lits:
            return []
        ls = list(self.lits.items())
        ax = []
        if len(ls) > 1:
            ax.append(z3.Distinct(*[c for _, c in ls]))
        for s, c in ls:
            ax.append(self._len(c) == len(s))
        return ax


# ---------------------------------------------------------------- shapes
class Shape:
    pass


class Sc(Shape):
    """scalar of a z3 sort: kind in int,bool,str,opaque"""

    def __init__(self, kind, sort=None):
        self.kind, self.sort = kind, sort

    def __eq__(self, o):
        return isinstance(o, Sc) and self.kind == o.kind and (self.kind != 'opaque' or self.sort == o.sort)

    def __hash__(self):
        return hash(('Sc', self.kind))

    def __repr__(self):
        return self.kind if self.kind != 'opaque' else str(self.sort)


SInt, SBool, SStr = Sc('int'), Sc('bool'), Sc('str')


def SOpaque(sort):
    return Sc('opaque', sort)


class SConst(Shape):
    """a fixed host value (None, enum member, class, function...)"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, SConst) and (self.v is o.v or (type(self.v) == type(o.v) and self.v == o.v))

    def __hash__(self):
        return hash('SConst')

    def __repr__(self):
        return 'Const(%r)' % (self.v,)


class STuple(Shape):
    def __init__(self, *elems):
        self.elems = tuple(elems)

    def __eq__(self, o):
        return isinstance(o, STuple) and self.elems == o.elems

    def __hash__(self):
        return hash(('T', len(self.elems)))

    def __repr__(self):
        return 'Tuple%r' % (self.elems,)


class SList(Shape):
    def __init__(self, elem):
        self.elem = elem      # may be None: element shape unknown (empty list)

    def __eq__(self, o):
        return isinstance(o, SList) and self.elem == o.elem

    def __hash__(self):
        return hash('SList')

    def __repr__(self):
        return 'List(%r)' % (self.elem,)


class SUnk(Shape):
    """elements of unknown shape: reading one is unsupported"""
    def __eq__(self, o):
        return isinstance(o, SUnk)

    def __hash__(self):
        return hash('SUnk')

    def __repr__(self):
        return 'Unknown'


SUNK = SUnk()


class SDict(Shape):
    def __init__(self, key, val, ordered=True):
        self.key, self.val, self.ordered = key, val, ordered

    def __eq__(self, o):
        return isinstance(o, SDict) and self.key == o.key and self.val == o.val

    def __hash__(self):
        return hash('SDict')

    def __repr__(self):
        return 'Dict(%r,%r)' % (self.key, self.val)


class SSet(Shape):
    def __init__(self, elem):
        self.elem = elem

    def __eq__(self, o):
        return isinstance(o, SSet) and self.elem == o.elem

    def __hash__(self):
        return hash('SSet')

    def __repr__(self):
        return 'Set(%r)' % (self.elem,)


class SObj(Shape):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)

    def __eq__(self, o):
        return isinstance(o, SObj) and self.cls is o.cls and self.fields == o.fields

    def __hash__(self):
        return hash('SObj')

    def __repr__(self):
        return 'Obj(%s,%r)' % (self.cls.name, self.fields)


class SOpt(Shape):
    def __init__(self, inner):
        self.inner = inner

    def __eq__(self, o):
        return isinstance(o, SOpt) and self.inner == o.inner

    def __hash__(self):
        return hash('SOpt')

    def __repr__(self):
        return 'Opt(%r)' % (self.inner,)


# ---------------------------------------------------------------- contents
def hint(n):
    """host int or None"""
    if isinstance(n, bool):
        return int(n)
    if isinstance(n, int):
        return n
    if z3.is_int_value(n):
        return n.as_long()
    return None


class Seq:
    """Immutable sequence content. items: host list (concrete spine) or n/get."""
    __slots__ = ('items', 'n', '_get', 'meta', 'id', 'derived', 'cache')

    def __init__(self, items=None, n=None, get=None, meta=None, derived=None):
        self.items = items
        self.n = len(items) if items is not None else n
        self._get = get
        self.meta = meta
        self.id = next(_uid)
        self.derived = derived
        self.cache = {}

    def get(self, i):
        if self.items is not None:
            h = hint(i)
            if h is not None and 0 <= h < len(self.items):
                return self.items[h]
            if not self.items:
                raise Unsupported('symbolic index into an empty list')
            if h is not None:
                raise Unsupported('index out of concrete range')
            v = freeze(self.items[-1])
            for j in range(len(self.items) - 2, -1, -1):
                v = ite(to_z3(i) == j, freeze(self.items[j]), v)
            return v
        key = to_z3(i).get_id() if not isinstance(i, int) else ('h', i)
        if key in self.cache:
            return self.cache[key][1]
        v = self._get(i if not isinstance(i, bool) else int(i))
        self.cache[key] = (i, v)
        return v

    def __repr__(self):
        return 'Seq%r' % (self.items,) if self.items is not None else 'Seq#%d(n=%s)' % (self.id, self.n)


class Map:
    """Immutable mapping content. items: host dict (concrete) or has/get/keys."""
    __slots__ = ('items', 'has', 'get', 'keys', 'id', 'size', 'idx', 'kshape')

    def __init__(self, items=None, has=None, get=None, keys=None, size=None, idx=None, kshape=None):
        self.kshape = kshape    # shape of the keys, where there is no key sequence
        self.items = items
        self.has = has
        self.get = get
        self.keys = keys        # Seq of keys in insertion order, or None
        self.id = next(_uid)
        self.size = size        # number of keys or None
        self.idx = idx          # host function key -> position term


class FrozenObj:
    """Snapshot of an object stored in an unbounded container."""
    __slots__ = ('cls', '_fields', 'priv')

    def __init__(self, cls, fields, priv=None):
        self.cls, self._fields = cls, fields
        self.priv = priv        # Priv: the container is a private copy, see Interp.mutate

    @property
    def fields(self):
        if self.priv is not None and self.priv.muts:
            raise Unsupported('read of an object that a loop over its container changed')
        return self._fields


class Priv:
    """a family of objects that are reachable only through one private (deep-copied) container"""
    __slots__ = ('muts', 'shares')

    def __init__(self):
        self.muts = set()       # loop activations that changed their element
        self.shares = set()     # loop activations that stored their element elsewhere


class Stale:
    """content of a view whose underlying element was written through another view"""

    def __getattr__(self, name):
        raise Unsupported('read through a stale view of an element')


class StaleFields(dict):
    def _no(self, *a, **k):
        raise Unsupported('read through a stale view of an element')
    __getitem__ = __contains__ = get = items = values = keys = __iter__ = __len__ = _no


class OptV:
    """None or a value, decided by a z3 condition."""
    __slots__ = ('isnone', 'val')

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val


class UnionV:
    __slots__ = ('alts',)    # [(cond, value)], last one has cond True

    def __init__(self, alts):
        self.alts = alts


# ---------------------------------------------------------------- heap objects
class HeapV:
    borrowed = False        # element of an unbounded container: writes would be lost
    priv = None             # Priv family (and loop activation) of an element of a private container
    act = None
    seen = None             # content of the owner this view was taken from
    views = None            # element views taken of this container


class ListV(HeapV):
    def __init__(self, content=None, owner=None, name=None):
        self.uid = next(_uid)
        self._c = content if content is not None else Seq(items=[])
        self.owner = owner      # (container, key) when this list lives inside an unbounded container
        self.multi = False
        self.frozen = False     # was frozen into an unbounded container: must not be mutated any more

    def __repr__(self):
        return 'ListV(%r)' % (self._c,)


class DictV(HeapV):
    def __init__(self, content=None, default=None, pycls='dict'):
        self.uid = next(_uid)
        self._c = content if content is not None else Map(items={})
        self.default = default  # factory value for defaultdict: native callable
        self.pycls = pycls
        self.owner = None
        self.multi = False
        self.frozen = False
        self.poisoned = False
        self.reassigned = False


class SetV(HeapV):
    def __init__(self, content=None):
        self.uid = next(_uid)
        self._c = content if content is not None else Map(items={})
        self.owner = None
        self.multi = False
        self.frozen = False


class ObjV(HeapV):
    def __init__(self, cls, fields=None, owner=None):
        self.uid = next(_uid)
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.owner = owner
        self.multi = False
        self.frozen = False

    def __repr__(self):
        return '<%s %r>' % (self.cls.name, self.fields)


class CellV(HeapV):
    """Mutable slot of a native object (iterators, files, ...)."""

    def __init__(self, kind, **kw):
        self.uid = next(_uid)
        self.kind = kind
        self.d = kw

    def __repr__(self):
        return '<cell %s>' % self.kind


# ---------------------------------------------------------------- immutable host-side values
class ClassV:
    def __init__(self, name, module, bases, ns, node=None):
        self.name, self.module, self.bases, self.ns, self.node = name, module, bases, ns, node
        self.enum_members = None

    @property
    def qualname(self):
        return '%s:%s' % (self.module, self.name)

    def mro(self):
        # C3 is not needed: the code base only uses single inheritance plus mixins without conflicts
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def native_bases(self):
        r = []
        for b in self.bases:
            if isinstance(b, ClassV):
                r += b.native_bases()
            else:
                r.append(b)
        return r

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def issub(self, other):
        if isinstance(other, ClassV):
            return other in self.mro()
        return any(b is other or b == other for b in self.native_bases())

    def __repr__(self):
        return '<class %s>' % self.name


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return '%s.%s' % (self.cls.name, self.name)


class FuncV:
    def __init__(self, name, node, module, env, defaults, kwdefaults, qual, cls=None, kind='func'):
        self.name, self.node, self.module, self.env = name, node, module, env
        self.defaults, self.kwdefaults, self.qual, self.cls, self.kind = defaults, kwdefaults, qual, cls, kind

    def __repr__(self):
        return '<func %s>' % self.qual


class PropertyV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassMethodV:
    def __init__(self, f):
        self.f = f


class BoundV:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class NativeV:
    """Reference to something outside the verified package, by dotted name."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, NativeV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<native %s>' % self.name


class NativeFn:
    """Host function used as a callable value: fn(interp, args, kwargs)."""

    def __init__(self, name, fn, self_=None):
        self.name, self.fn, self.self_ = name, fn, self_

    def __repr__(self):
        return '<nativefn %s>' % self.name


class ModuleV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<module %s>' % self.name


class UnsupV:
    """Name whose definition the engine could not evaluate."""

    def __init__(self, why):
        self.why = why


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class ExcV:
    """Exception instance."""

    def __init__(self, cls, args):
        self.cls, self.args = cls, args

    def __repr__(self):
        return '%s%r' % (exc_name(self.cls), self.args)


def exc_name(c):
    return c.name if isinstance(c, (ClassV, NativeV)) else str(c)


# ---------------------------------------------------------------- term helpers
STR = StrTheory('z3')     # current theory, switched by the verifier


def set_str_mode(mode):
    global STR
    STR = StrTheory(mode)
    return STR


def cur_str():
    return STR


def is_term(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_term(v) and v.sort() == INT)


def is_bool(v):
    return isinstance(v, bool) or (is_term(v) and v.sort() == BOOL)


def is_str(v):
    return isinstance(v, str) or (is_term(v) and v.sort() == STR.sort)


def is_bytes(v):
    return isinstance(v, bytes)


def to_z3(v):
    if is_term(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, str):
        return STR.lit(v)
    if isinstance(v, EnumMember):
        return enum_const(v)
    if isinstance(v, (ClassV, NativeV)):
        return class_const(v)
    raise Unsupported('no z3 term for %r' % (v,))


# classes as integer-like constants of a dedicated sort
CLS = z3.DeclareSort('Class')
_clsconst = {}


def class_const(c):
    k = c.qualname if isinstance(c, ClassV) else c.name
    if k not in _clsconst:
        _clsconst[k] = z3.Const('cls!' + k, CLS)
    return _clsconst[k]


def class_axioms():
    cs = list(_clsconst.values())
    return [z3.Distinct(*cs)] if len(cs) > 1 else []


_enumconst = {}


def enum_const(m):
    # members of a str-mixin enum are compared with strings: use the string value
    if isinstance(m.value, str):
        return STR.lit(m.value)
    raise Unsupported('enum member as term')


def leaves(v):
    """z3 leaves of a (key) value"""
    if isinstance(v, tuple):
        r = []
        for e in v:
            r += leaves(e)
        return r
    if isinstance(v, OptV):
        return [v.isnone] + leaves(v.val)
    return [to_z3(v)]


def z_and(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = z_and(*c)
        if c is True:
            continue
        if c is False:
            return False
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def z_or(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = z_or(*c)
        if c is False or z3.is_false(c):
            continue
        if c is True or z3.is_true(c):
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def z_not(c):
    if isinstance(c, bool):
        return not c
    if z3.is_true(c):
        return False
    if z3.is_false(c):
        return True
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def z_implies(a, b):
    return z_or(z_not(a), b)


def z_bool(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def z_iff(a, b):
    return z_bool(a) == z_bool(b)


_fc = itertools.count(1)


def forall_int(f, lo=None, hi=None, pats=None):
    """forall j: lo <= j < hi -> f(j)"""
    j = z3.Int('j!%d' % next(_fc))
    rng = []
    if lo is not None:
        rng.append(to_z3(lo) <= j)
    if hi is not None:
        rng.append(j < to_z3(hi))
    h = hint(hi) if hi is not None else None
    l = hint(lo) if lo is not None else None
    if h is not None and l is not None and h - l <= 12:
        return z_and(*[f(x) for x in range(l, h)])
    body = f(j)
    body = z_implies(z_and(*rng), body)
    if isinstance(body, bool):
        return body
    return z3.ForAll([j], body)


def forall_sort(sorts, f):
    vs = [z3.Const('q!%d' % next(_fc), s) for s in sorts]
    b = f(*vs)
    if isinstance(b, bool):
        return b
    return z3.ForAll(vs, b)


def exists_int(f, lo=None, hi=None):
    j = z3.Int('e!%d' % next(_fc))
    rng = []
    if lo is not None:
        rng.append(to_z3(lo) <= j)
    if hi is not None:
        rng.append(j < to_z3(hi))
    h = hint(hi) if hi is not None else None
    l = hint(lo) if lo is not None else None
    if h is not None and l is not None and h - l <= 12:
        return z_or(*[f(x) for x in range(l, h)])
    b = z_and(*rng, f(j))
    if isinstance(b, bool):
        return b
    return z3.Exists([j], b)


# ---------------------------------------------------------------- structure helpers
FROZEN = []         # heap objects snapshotted since the last container write (drained by Interp.set_content)


def mark_borrowed(v):
    if isinstance(v, ObjV):
        v.borrowed = True
        for x in v.fields.values():
            mark_borrowed(x)
    elif isinstance(v, HeapV):
        v.borrowed = True
    elif isinstance(v, tuple):
        for x in v:
            mark_borrowed(x)


def freeze(v):
    """Immutable snapshot of a value, for storing in an unbounded container."""
    if isinstance(v, HeapV):
        FROZEN.append(v)
    if isinstance(v, ListV):
        v.frozen = True
        return v._c if v._c.items is None else Seq(items=[freeze(x) for x in v._c.items], meta=v._c.meta)
    if isinstance(v, DictV):
        v.frozen = True
        return v._c
    if isinstance(v, SetV):
        v.frozen = True
        return v._c
    if isinstance(v, ObjV):
        v.frozen = True
        if v.priv is not None:
            v.priv.shares.add(v.act)
        return FrozenObj(v.cls, {k: freeze(x) for k, x in v.fields.items()})
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


def shape_of(v):
    if v is None:
        return SConst(None)
    if is_bool(v):
        return SBool
    if is_int(v):
        return SInt
    if is_str(v):
        return SStr
    if is_term(v):
        return SOpaque(v.sort())
    if isinstance(v, tuple):
        return STuple(*[shape_of(x) for x in v])
    if isinstance(v, ListV):
        return shape_of(v._c)
    if isinstance(v, Seq):
        if v.items is not None:
            e = None
            for x in v.items:
                e = join_shape(e, shape_of(x))
            return SList(e)
        try:
            return SList(shape_of(v.get(z3.Int('probe!'))))
        except Unsupported:
            return SList(SUNK)
    if isinstance(v, DictV):
        return shape_of_map(v._c)
    if isinstance(v, SetV):
        s = shape_of_map(v._c)
        return SSet(s.key)
    if isinstance(v, Map):
        return shape_of_map(v)
    if isinstance(v, (ObjV, FrozenObj)):
        return SObj(v.cls, {k: shape_of(x) for k, x in v.fields.items()})
    if isinstance(v, OptV):
        return SOpt(shape_of(v.val))
    if isinstance(v, UnionV):
        s = None
        for _, a in v.alts:
            s = join_shape(s, shape_of(a))
        return s
    return SConst(v)


def key_shape(m):
    """shape of the keys; None for the empty map"""
    if m.items is not None:
        k = None
        for a in m.items:
            k = join_shape(k, shape_of(a))
        return k
    k = shape_of(m.keys).elem if m.keys is not None else None
    k = m.kshape if k is None or isinstance(k, SUnk) else k
    if k is None:
        raise Unsupported('keys of unknown shape')
    return k


def shape_of_map(m):
    if m.items is not None:
        k = x = None
        for a, b in m.items.items():
            k = join_shape(k, shape_of(a))
            x = join_shape(x, shape_of(b))
        return SDict(k, x)
    key = key_shape(m)
    kv = fresh(key, 'probekey')
    return SDict(key, shape_of(m.get(kv)) if m.get is not None else None)


def join_shape(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    if isinstance(a, SUnk) or isinstance(b, SUnk):
        return SUNK
    if isinstance(a, SConst) and a.v is None:
        return b if isinstance(b, SOpt) else SOpt(b)
    if isinstance(b, SConst) and b.v is None:
        return a if isinstance(a, SOpt) else SOpt(a)
    if isinstance(a, SOpt) or isinstance(b, SOpt):
        x = a.inner if isinstance(a, SOpt) else a
        y = b.inner if isinstance(b, SOpt) else b
        return SOpt(join_shape(x, y))
    if isinstance(a, SList) and isinstance(b, SList):
        return SList(join_shape(a.elem, b.elem))
    if isinstance(a, SDict) and isinstance(b, SDict):
        return SDict(join_shape(a.key, b.key), join_shape(a.val, b.val))
    if isinstance(a, SSet) and isinstance(b, SSet):
        return SSet(join_shape(a.elem, b.elem))
    # an empty set/dict display confusion never occurs: {} is a dict
    if isinstance(a, STuple) and isinstance(b, STuple) and len(a.elems) == len(b.elems):
        return STuple(*[join_shape(x, y) for x, y in zip(a.elems, b.elems)])
    if isinstance(a, SObj) and isinstance(b, SObj) and a.cls is b.cls:
        return SObj(a.cls, {k: join_shape(a.fields.get(k), b.fields.get(k)) for k in set(a.fields) | set(b.fields)})
    if isinstance(a, SConst) and isinstance(a.v, EnumMember) and b == SStr:
        return SStr
    if isinstance(b, SConst) and isinstance(b.v, EnumMember) and a == SStr:
        return SStr
    if isinstance(a, SConst) and isinstance(b, SConst) and isinstance(a.v, EnumMember) and isinstance(b.v, EnumMember):
        return SStr
    ca = isinstance(a, SConst) and isinstance(a.v, (ClassV, NativeV))
    cb = isinstance(b, SConst) and isinstance(b.v, (ClassV, NativeV))
    if (ca or a == SOpaque(CLS)) and (cb or b == SOpaque(CLS)):
        return SOpaque(CLS)
    raise Unsupported('cannot join shapes %r and %r' % (a, b))


_fresh_axioms = []     # facts about freshly created values (lengths >= 0, key sequences)


def take_axioms():
    r = list(_fresh_axioms)
    _fresh_axioms.clear()
    return r


def leaf_sorts(shape):
    if isinstance(shape, Sc):
        return [{'int': INT, 'bool': BOOL, 'str': STR.sort}.get(shape.kind) if shape.kind != 'opaque' else shape.sort]
    if isinstance(shape, STuple):
        r = []
        for e in shape.elems:
            r += leaf_sorts(e)
        return r
    if isinstance(shape, SOpt):
        return [BOOL] + leaf_sorts(shape.inner)
    raise Unsupported('shape %r as key' % (shape,))


def build_from_leaves(shape, it):
    if isinstance(shape, Sc):
        return next(it)
    if isinstance(shape, STuple):
        return tuple(build_from_leaves(e, it) for e in shape.elems)
    if isinstance(shape, SOpt):
        b = next(it)
        return OptV(b, build_from_leaves(shape.inner, it))
    raise Unsupported('shape %r as key' % (shape,))


def fresh(shape, name, idxs=()):
    """Fresh symbolic value of a shape, as functions of idxs (z3 terms)."""
    nm = '%s!%d' % (name, next(_uid))
    return _fresh(shape, nm, list(idxs), frozen=bool(idxs))


def _app(nm, idxs, sort):
    if not idxs:
        return z3.Const(nm, sort)
    return z3.Function(nm, *([i.sort() for i in idxs] + [sort]))(*idxs)


def _quant(idxs, f):
    """assert f(idxs) for all values of idxs (f is applied to fresh bound variables)"""
    if not idxs:
        b = f([])
    else:
        vs = [z3.Const('q!%d' % next(_fc), i.sort()) for i in idxs]
        b = f(vs)
        if not isinstance(b, bool):
            b = z3.ForAll(vs, b)
    if b is not True:
        _fresh_axioms.append(b)


def _fresh(shape, nm, idxs, frozen, axioms=True):
    if isinstance(shape, Sc):
        return _app(nm, idxs, leaf_sorts(shape)[0])
    if isinstance(shape, SConst):
        return shape.v
    if isinstance(shape, STuple):
        return tuple(_fresh(e, '%s.%d' % (nm, i), idxs, frozen, axioms) for i, e in enumerate(shape.elems))
    if isinstance(shape, SOpt):
        return OptV(_app(nm + '.none', idxs, BOOL), _fresh(shape.inner, nm + '.v', idxs, True, axioms))
    if isinstance(shape, SList):
        n = _app(nm + '.len', idxs, INT)
        if axioms:
            _quant(idxs, lambda vs: _app(nm + '.len', vs, INT) >= 0)
        if shape.elem is None or isinstance(shape.elem, SUnk):
            def get(j):
                raise Unsupported('element of a list with unknown element type')
            s = Seq(n=n, get=get)
            if axioms and shape.elem is None:
                _quant(idxs, lambda vs: _app(nm + '.len', vs, INT) == 0)
        else:
            if axioms:
                q = z3.Int('q!%d' % next(_fc))
                _nested_axioms(shape.elem, nm + '.e', idxs, INT)
            s = Seq(n=n, get=lambda j: _fresh(shape.elem, nm + '.e', idxs + [to_z3(j)], True, axioms=False))
        return s if frozen else ListV(s)
    if isinstance(shape, (SDict, SSet)):
        key = shape.key if isinstance(shape, SDict) else shape.elem
        val = shape.val if isinstance(shape, SDict) else None
        if key is None:
            m = Map(items={})
        else:
            ks = leaf_sorts(key)

            def has(k):
                return _app(nm + '.has', idxs + leaves(k), BOOL)
            if val is not None:
                def get(k):
                    return _fresh(val, nm + '.val', idxs + leaves(k), True, axioms=False)
            else:
                get = lambda k: None
            n = _app(nm + '.size', idxs, INT)
            keys = Seq(n=n, get=lambda j: _fresh(key, nm + '.key', idxs + [to_z3(j)], True, axioms=False))

            def idx(k):
                return _app(nm + '.idx', idxs + leaves(k), INT)
            if axioms:
                _quant(idxs, lambda vs: _app(nm + '.size', vs, INT) >= 0)
                # key sequence <-> domain
                i0 = z3.Int('q!%d' % next(_fc))
                bvs = [z3.Const('q!%d' % next(_fc), i.sort()) for i in idxs]
                kv = _fresh(key, nm + '.key', bvs + [i0], True, axioms=False)
                nn = _app(nm + '.size', bvs, INT)
                a1 = z3.Implies(z3.And(0 <= i0, i0 < nn), z3.And(_app(nm + '.has', bvs + leaves(kv), BOOL),
                                                               _app(nm + '.idx', bvs + leaves(kv), INT) == i0))
                _fresh_axioms.append(z3.ForAll(bvs + [i0], a1))
                kl = [z3.Const('q!%d' % next(_fc), s) for s in ks]
                ix = _app(nm + '.idx', bvs + kl, INT)
                kv2 = leaves(_fresh(key, nm + '.key', bvs + [ix], True, axioms=False))
                a2 = z3.Implies(_app(nm + '.has', bvs + kl, BOOL),
                                z3.And(0 <= ix, ix < nn, *[a == b for a, b in zip(kv2, kl)]))
                _fresh_axioms.append(z3.ForAll(bvs + kl, a2))
                if val is not None:
                    _nested_axioms2(val, nm + '.val', idxs, ks)
            m = Map(has=has, get=get, keys=keys, size=n, idx=idx)
        if frozen:
            return m
        return DictV(m) if isinstance(shape, SDict) else SetV(m)
    if isinstance(shape, SObj):
        fs = {k: _fresh(s, '%s.%s' % (nm, k), idxs, frozen, axioms) for k, s in shape.fields.items()}
        return FrozenObj(shape.cls, fs) if frozen else ObjV(shape.cls, fs)
    raise Unsupported('fresh of %r' % (shape,))


def _nested_axioms(shape, nm, idxs, *more):
    """lengths of nested containers are non-negative"""
    _nested_axioms2(shape, nm, idxs, list(more))


def _nested_axioms2(shape, nm, idxs, sorts):
    dummy = [z3.Const('d!%d' % next(_fc), s) for s in sorts]
    _fresh(shape, nm, list(idxs) + dummy, True, axioms=True) if _has_container(shape) else None


def _has_container(shape):
    if isinstance(shape, (SList, SDict, SSet)):
        return True
    if isinstance(shape, STuple):
        return any(_has_container(e) for e in shape.elems)
    if isinstance(shape, SObj):
        return any(_has_container(e) for e in shape.fields.values())
    if isinstance(shape, SOpt):
        return _has_container(shape.inner)
    return False


def same(a, b):
    if a is b:
        return True
    if is_term(a) and is_term(b):
        return a.eq(b)
    if isinstance(a, (int, str, bool, bytes, type(None), float)) and type(a) == type(b):
        return a == b
    return False


def ite(c, a, b):
    if c is True or (is_term(c) and z3.is_true(c)):
        return a
    if c is False or (is_term(c) and z3.is_false(c)):
        return b
    if same(a, b):
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return Seq(items=[ite(c, freeze(x), freeze(y)) for x, y in zip(a.items, b.items)])

        def get(i, a=a, b=b):
            if hint(a.n) == 0:
                return b.get(i)
            if hint(b.n) == 0:
                return a.get(i)
            return ite(c, freeze(a.get(i)), freeze(b.get(i)))
        return Seq(n=z3.If(c, to_z3(a.n), to_z3(b.n)), get=get, meta=('ite', c, a, b))
    if isinstance(a, FrozenObj) and isinstance(b, FrozenObj) and a.cls is b.cls and set(a.fields) == set(b.fields):
        return FrozenObj(a.cls, {k: ite(c, a.fields[k], b.fields[k]) for k in a.fields})
    if isinstance(a, Map) and isinstance(b, Map):
        return ite_map(c, a, b)
    if isinstance(a, OptV) or isinstance(b, OptV) or a is None or b is None:
        if a is None and b is None:
            return None
        an, av = (True, None) if a is None else ((a.isnone, a.val) if isinstance(a, OptV) else (False, a))
        bn, bv = (True, None) if b is None else ((b.isnone, b.val) if isinstance(b, OptV) else (False, b))
        v = bv if an is True else (av if bn is True else ite(c, av, bv))
        if not isinstance(v, (HeapV, FuncV, ClassV)):
            return OptV(z3.If(c, z_bool(an), z_bool(bn)), v)
    try:
        za, zb = to_z3(a), to_z3(b)
    except Unsupported:
        return UnionV([(c, a), (True, b)])
    if za.sort() != zb.sort():
        return UnionV([(c, a), (True, b)])
    return z3.If(c, za, zb)


def ite_map(c, a, b):
    fa, fb = map_fn(a), map_fn(b)

    def get(k):
        if fa[1] is None:
            return fb[1](k)
        if fb[1] is None:
            return fa[1](k)
        return ite(c, fa[1](k), fb[1](k))
    ka, kb = map_keys(a), map_keys(b)
    keys = ite(c, ka, kb) if ka is not None and kb is not None else None
    ks = join_shape(key_shape(a), key_shape(b)) if keys is None else None
    return Map(kshape=ks, has=lambda k: z_or(z_and(c, fa[0](k)), z_and(z_not(c), fb[0](k))), get=get, keys=keys,
               size=keys.n if keys is not None else None)


def map_keys(m):
    if m.items is not None:
        return Seq(items=list(m.items.keys()))
    return m.keys


def map_fn(m):
    """(has, get) closures over symbolic keys for any Map"""
    if m.items is None:
        return m.has, m.get
    its = list(m.items.items())

    def has(k):
        return z_or(*[eqv(k, a) for a, _ in its])
    if not its:
        return has, None

    def get(k):
        v = freeze(its[-1][1])
        for a, b in reversed(its[:-1]):
            v = ite(eqv(k, a), freeze(b), v)
        return v
    return has, get


def eqv(a, b):
    """Structural equality term (no user-defined __eq__)."""
    if a is b:
        return True
    if isinstance(a, EnumMember) and isinstance(b, EnumMember):
        if a.cls is b.cls:
            return a is b
        return a.value == b.value if isinstance(a.value, str) else False
    if isinstance(a, EnumMember):
        a = a.value
    if isinstance(b, EnumMember):
        b = b.value
    if isinstance(a, ListV):
        a = a._c
    if isinstance(b, ListV):
        b = b._c
    if isinstance(a, (DictV, SetV)):
        a = a._c
    if isinstance(b, (DictV, SetV)):
        b = b._c
    if isinstance(a, OptV) or isinstance(b, OptV):
        if a is None:
            return b.isnone
        if b is None:
            return a.isnone
        if isinstance(a, OptV) and isinstance(b, OptV):
            return z_or(z_and(a.isnone, b.isnone), z_and(z_not(a.isnone), z_not(b.isnone), eqv(a.val, b.val)))
        if isinstance(a, OptV):
            return z_and(z_not(a.isnone), eqv(a.val, b))
        return z_and(z_not(b.isnone), eqv(a, b.val))
    if isinstance(a, UnionV):
        return union_apply(a, lambda x: eqv(x, b))
    if isinstance(b, UnionV):
        return union_apply(b, lambda x: eqv(a, x))
    if a is None or b is None:
        return a is None and b is None
    if is_term(a) or is_term(b):
        if isinstance(a, (tuple, Seq, Map, ObjV, FrozenObj)) or isinstance(b, (tuple, Seq, Map, ObjV, FrozenObj)):
            return False
        if isinstance(a, bytes) or isinstance(b, bytes):
            raise Unsupported('bytes vs term')
        try:
            za, zb = to_z3(a), to_z3(b)
        except Unsupported:
            if is_term(a) and a.sort() not in (INT, BOOL, STR.sort):
                raise
            return False
        if za.sort() != zb.sort():
            if {za.sort(), zb.sort()} == {INT, BOOL}:
                za = z3.If(za, 1, 0) if za.sort() == BOOL else za
                zb = z3.If(zb, 1, 0) if zb.sort() == BOOL else zb
                return za == zb
            if CLS in (za.sort(), zb.sort()) or True:
                return False
        r = atom_eq(za, zb) if STR.mode != 'z3' and za.sort() == ASTR else None
        if isinstance(r, bool):
            return r
        r = z3.simplify(za == zb if r is None else r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return z_and(*[eqv(x, y) for x, y in zip(a, b)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq(a, b)
    if isinstance(a, Map) and isinstance(b, Map):
        return map_eq(a, b)
    if isinstance(a, (FrozenObj, ObjV)) and isinstance(b, (FrozenObj, ObjV)):
        if a.cls is not b.cls or set(a.fields) != set(b.fields):
            return False
        return z_and(*[eqv(a.fields[k], b.fields[k]) for k in a.fields])
    if isinstance(a, (ClassV, NativeV, FuncV)) or isinstance(b, (ClassV, NativeV, FuncV)):
        return a == b
    if isinstance(a, (int, float, str, bytes, bool)) and isinstance(b, (int, float, str, bytes, bool)):
        return a == b
    return False


def atom_eq(a, b):
    """equality of concatenations: common ends cancel, literal ends that differ decide"""
    pa, pb = STR.parts(a), STR.parts(b)
    if len(pa) == 1 and len(pb) == 1:
        return None
    import os.path

    def same(x, y):
        return x == y if isinstance(x, str) and isinstance(y, str) else is_term(x) and is_term(y) and x.eq(y)

    def cut(p, q):
        p, q = list(p), list(q)
        while p and q:
            x, y = p[0], q[0]
            if isinstance(x, str) and isinstance(y, str):
                c = len(os.path.commonprefix([x, y]))
                if c < min(len(x), len(y)):
                    return None
                p[:1] = [x[c:]] if x[c:] else []
                q[:1] = [y[c:]] if y[c:] else []
            elif same(x, y):
                p, q = p[1:], q[1:]
            else:
                break
        return p, q

    def rev(p):
        return [x[::-1] if isinstance(x, str) else x for x in p[::-1]]
    r = cut(pa, pb)
    if r is None:
        return False
    r = cut(rev(r[0]), rev(r[1]))
    if r is None:
        return False
    pa, pb = rev(r[0]), rev(r[1])
    if not pa and not pb:
        return True
    for p, q in ((pa, pb), (pb, pa)):
        if all(isinstance(x, str) for x in p) and sum(map(len, p)) < sum(len(x) for x in q if isinstance(x, str)):
            return False

    def mk(p):
        r = STR.lit('')
        for x in p:
            r = STR.cat(r, STR.lit(x) if isinstance(x, str) else x)
        return r
    if not pa or not pb:
        return z3.And(*[x == STR.lit('') for x in pa + pb])
    return mk(pa) == mk(pb)


def union_apply(u, f):
    r = f(u.alts[-1][1])
    for c, v in reversed(u.alts[:-1]):
        r = z_or(z_and(c, f(v)), z_and(z_not(c), r))
    return r


def seq_eq(a, b):
    if a is b:
        return True
    ha, hb = hint(a.n), hint(b.n)
    if ha is not None and hb is not None:
        if ha != hb:
            return False
        if ha <= 16:
            return z_and(*[eqv(a.get(i), b.get(i)) for i in range(ha)])
    if ha == 0 or hb == 0:
        return to_z3(a.n) == to_z3(b.n)
    return z_and(to_z3(a.n) == to_z3(b.n), forall_int(lambda j: eqv(a.get(j), b.get(j)), 0, a.n))


def map_eq(a, b):
    """same domain and values (dict equality ignores order)"""
    if a is b:
        return True
    if a.items is not None and b.items is not None:
        if len(a.items) == len(b.items) and all(k in b.items for k in a.items):
            return z_and(*[eqv(a.items[k], b.items[k]) for k in a.items])
        if all(not is_term(x) for m in (a, b) for k in m.items for x in ([k] if not isinstance(k, tuple) else k)):
            return False
    sh = shape_of_map(a).key or shape_of_map(b).key
    if sh is None:
        return True
    fa, fb = map_fn(a), map_fn(b)
    vs = [z3.Const('q!%d' % next(_fc), s) for s in leaf_sorts(sh)]
    k = build_from_leaves(sh, iter(vs))
    conj = [z_iff(fa[0](k), fb[0](k))]
    if fa[1] is not None and fb[1] is not None:
        va, vb = fa[1](k), fb[1](k)
        if not (va is None and vb is None):
            conj.append(z_implies(fa[0](k), eqv(va, vb)))
    body = z_and(*conj)
    return body if isinstance(body, bool) else z3.ForAll(vs, body)


# ---------------------------------------------------------------- Seq operations
def seq_append(s, v):
    if s.items is not None:
        return Seq(items=s.items + [v], meta=('append', s, v))
    fv = freeze(v)
    n = s.n

    def get(i):
        if hint(n) == 0:
            return fv
        if is_term(i) and is_term(n) and i.eq(n):
            return fv
        return ite(to_z3(i) == to_z3(n), fv, s.get(i))
    return Seq(n=simp(to_z3(n) + 1), get=get, meta=('append', s, fv), derived=s.derived)


def simp(t):
    if is_term(t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
    return t


def seq_concat(a, b):
    if a.items is not None and b.items is not None:
        return Seq(items=a.items + b.items, meta=('concat', a, b))
    if hint(a.n) == 0:
        return b
    if hint(b.n) == 0:
        return a
    na = to_z3(a.n)

    def get(i):
        return ite(to_z3(i) < na, freeze(a.get(i)) if True else None, freeze(b.get(simp(to_z3(i) - na))))
    if a.items is not None or b.items is not None:
        def get(i):     # noqa
            zi = to_z3(i)
            if a.items is not None:
                v = freeze(b.get(simp(zi - na)))
                for j in range(len(a.items) - 1, -1, -1):
                    v = ite(zi == j, freeze(a.items[j]), v)
                return v
            v = freeze(a.get(i))
            for j in range(len(b.items)):
                v = ite(simp_eq(zi, na + j), freeze(b.items[j]), v)
            return v
    return Seq(n=simp(na + to_z3(b.n)), get=get, meta=('concat', a, b))


def simp_eq(a, b):
    r = z3.simplify(a == b)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def seq_set(s, k, v):
    if s.items is not None and hint(k) is not None:
        it = list(s.items)
        it[hint(k)] = v
        return Seq(items=it)
    fv = freeze(v)
    zk = to_z3(k)
    return Seq(n=s.n, get=lambda i: ite(simp_eq(to_z3(i), zk), fv, freeze(s.get(i))), meta=('set', s, k, fv))


def seq_slice(s, lo, hi):
    """slice with 0 <= lo <= hi <= n already ensured"""
    hl, hh = hint(lo), hint(hi)
    if s.items is not None and hl is not None and hh is not None:
        return Seq(items=s.items[hl:hh], meta=('slice', s, lo, hi))
    zl = to_z3(lo)
    return Seq(n=simp(to_z3(hi) - zl), get=lambda i: freeze(s.get(simp(to_z3(i) + zl))), meta=('slice', s, lo, hi))


def clone(v, memo):
    """Deep copy of heap structure; contents and immutable values are shared."""
    if isinstance(v, (str, int, type(None), bool, bytes, float)) or is_term(v):
        return v
    k = id(v)
    if k in memo:
        return memo[k][0]
    if isinstance(v, HeapV):
        c = object.__new__(type(v))
        memo[k] = (c, v)
        for a, x in v.__dict__.items():
            if a == 'uid' or a == 'cls' or a == 'kind' or a == 'pycls':
                c.__dict__[a] = x
            elif a in ('fields', 'd'):
                c.__dict__[a] = {q: clone(y, memo) for q, y in x.items()}
            elif a == '_c':
                c.__dict__[a] = clone_content(x, memo)
            elif a == 'owner':
                c.__dict__[a] = None if x is None else (clone(x[0], memo), x[1])
            elif a == 'views':
                c.__dict__[a] = [clone(y, memo) for y in x] if x else x
            else:
                c.__dict__[a] = x
        return c
    if isinstance(v, tuple):
        r = tuple(clone(x, memo) for x in v)
        memo[k] = (r, v)
        return r
    if isinstance(v, Env):
        if v.parent is None and v.fn is None:
            return v          # module namespace
        c = Env.__new__(Env)
        memo[k] = (c, v)
        c.parent = clone(v.parent, memo) if v.parent is not None else None
        c.vars = {q: clone(y, memo) for q, y in v.vars.items()}
        for a, x in v.__dict__.items():
            if a not in ('parent', 'vars', 'yields'):
                c.__dict__[a] = x
        c.yields = clone(v.yields, memo) if v.yields is not None else None
        c.uid = v.uid
        return c
    if isinstance(v, FuncV) and v.env is not None and not (v.env.parent is None and v.env.fn is None):
        c = FuncV(v.name, v.node, v.module, None, v.defaults, v.kwdefaults, v.qual, v.cls, v.kind)
        memo[k] = (c, v)
        c.env = clone(v.env, memo)
        return c
    if isinstance(v, BoundV):
        r = BoundV(clone(v.func, memo), clone(v.self_, memo))
        memo[k] = (r, v)
        return r
    if isinstance(v, NativeFn) and v.self_ is not None:
        r = NativeFn(v.name, v.fn, clone(v.self_, memo))
        memo[k] = (r, v)
        return r
    if isinstance(v, ExcV):
        r = ExcV(v.cls, clone(v.args, memo))
        memo[k] = (r, v)
        return r
    return v


def clone_content(c, memo):
    if isinstance(c, Seq) and c.items is not None:
        if any(isinstance(x, (HeapV, tuple, BoundV, FuncV)) for x in c.items):
            k = id(c)
            if k in memo:
                return memo[k][0]
            r = Seq(items=[clone(x, memo) for x in c.items], meta=None)
            r.id = c.id
            memo[k] = (r, c)
            return r
        return c
    if isinstance(c, Map) and c.items is not None:
        if any(isinstance(x, (HeapV, tuple, BoundV, FuncV)) for x in c.items.values()):
            k = id(c)
            if k in memo:
                return memo[k][0]
            r = Map(items={q: clone(x, memo) for q, x in c.items.items()})
            r.id = c.id
            memo[k] = (r, c)
            return r
        return c
    return c


class Env:
    def __init__(self, parent, module, fn=None):
        self.parent, self.module, self.fn = parent, module, fn
        self.vars = {}
        self.globals_decl = set()
        self.nonlocals = set()
        self.yields = None
        self.uid = next(_uid)

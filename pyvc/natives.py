"""Contracts of builtins and library functions used by the verified code (assumed, listed in the evidence)."""
import z3

from .values import *          # noqa
from . import values as V
from . import interp as IP

TRUSTED_NOTE = {}


def S(v):
    return to_z3(v)


def uf(name, *sorts):
    return z3.Function(name, *sorts)


def str_uf(name, arity=1):
    s = cur_str().sort
    return z3.Function(name, *([s] * arity + [s]))


def nat(name):
    def deco(f):
        TABLE[name] = f
        return f
    return deco


TABLE = {}
ATTRS = {'sys.maxsize': 2 ** 63 - 1, 'os.sep': '/', 'os.path.sep': '/', 'pickle.HIGHEST_PROTOCOL': 4, 'logging.root': NativeV('logging.root'),
         'time.time': NativeV('time.time')}


def install(I):
    I.natives.update(TABLE)
    I.native_attrs.update(ATTRS)


# ---------------------------------------------------------------- builtins
@nat('builtins.len')
def _len(I, a, k):
    return I.len_(a[0])


@nat('builtins.isinstance')
def _isinstance(I, a, k):
    v, c = I.force(a[0]), a[1]
    if isinstance(c, tuple):
        return z_or(*[_isinstance(I, [v, x], {}) for x in c])
    if isinstance(v, ObjV):
        if isinstance(c, ClassV):
            return v.cls.issub(c)
        return c.name == 'builtins.object' or any(b == c for b in v.cls.native_bases())
    if is_term(v) and v.sort() not in (INT, BOOL, cur_str().sort):
        h = I.natives.get('$isinstance')
        if h:
            return h(I, [v, c], {})
        raise Unsupported('isinstance of opaque value')
    if isinstance(v, EnumMember):
        if isinstance(c, ClassV):
            return v.cls is c
        return c.name == 'builtins.' + type(v.value).__name__
    if isinstance(v, ExcV):
        return I.exc_matches(v, c)
    if isinstance(c, ClassV):
        if isinstance(v, CellV) and v.kind == 'instance':
            return v.d['cls'] is c
        return False
    t = type_of(I, v)
    if t.name == c.name:
        return True
    sub = {('builtins.bool', 'builtins.int'), ('collections.Counter', 'builtins.dict'),
           ('collections.defaultdict', 'builtins.dict')}
    if (t.name, c.name) in sub or c.name == 'builtins.object':
        return True
    return False


def type_of(I, v):
    if isinstance(v, ObjV):
        return v.cls
    if v is None:
        return NativeV('builtins.NoneType')
    if is_bool(v):
        return NativeV('builtins.bool')
    if is_int(v):
        return NativeV('builtins.int')
    if is_str(v):
        return NativeV('builtins.str')
    if isinstance(v, (bytes, IP.BytesT)):
        return NativeV('builtins.bytes')
    if isinstance(v, float):
        return NativeV('builtins.float')
    if isinstance(v, ListV):
        return NativeV('builtins.list')
    if isinstance(v, tuple):
        return NativeV('builtins.tuple')
    if isinstance(v, DictV):
        return NativeV({'dict': 'builtins.dict', 'Counter': 'collections.Counter', 'defaultdict': 'collections.defaultdict'}[v.pycls])
    if isinstance(v, SetV):
        return NativeV('builtins.set')
    if isinstance(v, EnumMember):
        return v.cls
    if isinstance(v, ExcV):
        return v.cls
    if isinstance(v, (ClassV,)):
        return NativeV('builtins.type')
    if isinstance(v, (FuncV, BoundV, NativeFn)):
        return NativeV('builtins.function')
    if isinstance(v, CellV):
        return NativeV('cell.' + v.kind)
    raise Unsupported('type of %r' % (v,))


@nat('builtins.type')
def _type(I, a, k):
    v = I.force(a[0])
    if is_term(v) and v.sort() not in (INT, BOOL, cur_str().sort):
        h = I.natives.get('$type')
        if h:
            return h(I, [v], {})
    return type_of(I, v)


@nat('builtins.bool')
def _bool(I, a, k):
    return I.truth(a[0]) if a else False


def int_to_str(I, v):
    if hint(v) is not None:
        return str(hint(v))
    if cur_str().mode == 'z3':
        if I.entails(v >= 0):
            return z3.IntToStr(v)
        if I.branch(v >= 0):
            return z3.IntToStr(v)
        return z3.Concat(z3.StringVal('-'), z3.IntToStr(-v))
    r = z3.Function('int2str', INT, cur_str().sort)(v)
    c = lambda t: z3.Function('in!' + t, cur_str().sort, BOOL)(r)      # noqa
    I.assume(z3.Function('isint', cur_str().sort, BOOL)(r), z3.Function('intval', cur_str().sort, INT)(r) == v,
             z3.Implies(S(v) >= 0, c('[0-9]+')), z3.Implies(S(v) >= 1, c('[1-9][0-9]*')))
    return r


@nat('builtins.str')
def _str(I, a, k):
    if not a:
        return ''
    v = I.force(a[0])
    if isinstance(v, EnumMember):
        return '%s.%s' % (v.cls.name, v.name)
    if is_str(v):
        h = I.natives.get('$strstr')
        return h(I, [v], {}) if h else v
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, int):
        return str(v)
    if is_int(v):
        return int_to_str(I, v)
    if is_bool(v):
        return 'True' if I.branch(v) else 'False'
    if isinstance(v, ObjV):
        for n in ('__str__', '__repr__'):
            f, _ = v.cls.lookup(n)
            if f is not None:
                return I.call(BoundV(f, v), [], {})
        return I.fresh(SStr, 'str')
    if is_term(v):
        h = I.natives.get('$str')
        r = h(I, [v], {}) if h else None
        return r if r is not None else z3.Function('str_of!%s' % v.sort(), v.sort(), cur_str().sort)(v)
    raise Unsupported('str of %r' % (v,))


@nat('builtins.repr')
def _repr(I, a, k):
    v = I.force(a[0])
    if isinstance(v, (int, str)) and not isinstance(v, EnumMember):
        return repr(v)
    if isinstance(v, ObjV):
        f, _ = v.cls.lookup('__repr__')
        if f is not None:
            return I.call(BoundV(f, v), [], {})
    return I.fresh(SStr, 'repr')


@nat('$format')
def _format(I, a, k):
    v, spec, env = a
    return I.fresh(SStr, 'fmt')


@nat('builtins.int')
def _int(I, a, k):
    v = I.force(a[0])
    if isinstance(v, (int, bool)):
        return int(v)
    if is_int(v):
        return v
    if is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            I.raise_('ValueError', 'invalid literal for int')
    if is_str(v):
        # assumed: int() parses exactly the (digit) strings str() produces; anything else may raise
        if z3.is_app(v) and v.decl().name() == 'int2str':
            return v.arg(0)
        isn = z3.Function('isint', cur_str().sort, BOOL)(v)
        if cur_str().mode == 'z3':
            iv = z3.Function('intval', cur_str().sort, INT)(v)
            d = z3.StrToInt(v)
            I.assume(z3.Implies(d >= 0, z3.And(isn, iv == d)))
            I.assume(z3.Implies(z3.And(z3.PrefixOf(z3.StringVal('-'), v), z3.StrToInt(z3.SubString(v, 1, z3.Length(v) - 1)) >= 0),
                                z3.And(isn, iv == -z3.StrToInt(z3.SubString(v, 1, z3.Length(v) - 1)))))
        else:
            iv = z3.Function('intval', cur_str().sort, INT)(v)
        I.guard(isn, 'ValueError', 'invalid literal for int')
        return iv
    if v is None:
        I.raise_('TypeError')
    raise Unsupported('int of %r' % (v,))


@nat('builtins.float')
def _float(I, a, k):
    raise Unsupported('float')


@nat('builtins.list')
def _list(I, a, k):
    return ListV(I.to_seq(a[0])) if a else ListV()


@nat('builtins.tuple')
def _tuple(I, a, k):
    if not a:
        return ()
    its = I.concrete(I.to_seq(a[0]))
    if its is None:
        raise Unsupported('tuple of unbounded sequence')
    return tuple(its)


def iter_set(I, v):
    return I.to_seq(v)


@nat('builtins.set')
def _set(I, a, k):
    if not a:
        return SetV()
    v = I.force(a[0])
    if isinstance(v, SetV):
        return SetV(v._c)
    if isinstance(v, DictV):
        c = v._c
        if c.items is not None:
            return SetV(Map(items={q: None for q in c.items}))
        return SetV(Map(has=c.has, get=lambda q: None, keys=c.keys, size=c.size, idx=c.idx, kshape=c.kshape))
    s = I.to_seq(v)
    its = I.concrete(s)
    if its is not None:
        m = Map(items={})
        for x in its:
            m = I.map_set(m, I.force(x), None)
        return SetV(m)
    # set of an unbounded sequence: fresh duplicate-free key sequence with the same members
    sh = shape_of(s)
    r = I.fresh(SSet(sh.elem), 'set')
    sorts = V.leaf_sorts(sh.elem)
    pos = z3.Function('setpos!%d' % next(V._uid), *(sorts + [INT]))
    I.assume(forall_int(lambda j: r._c.has(s.get(j)), 0, s.n))

    def q(*ks):
        kk = V.build_from_leaves(sh.elem, iter(ks))
        p = pos(*ks)
        return z_implies(r._c.has(kk), z_and(p >= 0, p < S(s.n), eqv(s.get(p), kk)))
    I.assume(forall_sort(sorts, q))
    return r


@nat('builtins.frozenset')
def _fs(I, a, k):
    return _set(I, a, k)


@nat('builtins.dict')
def _dict(I, a, k):
    if not a:
        return DictV(Map(items=dict(k)))
    v = I.force(a[0])
    if isinstance(v, DictV) and not k:
        return DictV(I.leak(v)._c)
    if isinstance(v, (ListV, CellV)) and not k:
        return I.dict_from_pairs(I.to_seq(v))
    raise Unsupported('dict()')


@nat('builtins.range')
def _range(I, a, k):
    a = [I.force(x) for x in a]
    for x in a:
        if not (is_int(x) or is_bool(x)):
            I.raise_('TypeError', 'range')
    if len(a) == 1:
        return RangeV(0, a[0])
    if len(a) == 2:
        return RangeV(a[0], a[1])
    return RangeV(a[0], a[1], hint(a[2]) if hint(a[2]) is not None else a[2])


def view(s):
    return CellV('seqview', seq=s)


@nat('builtins.enumerate')
def _enum(I, a, k):
    s = I.to_seq(a[0])
    st = a[1] if len(a) > 1 else k.get('start', 0)
    its = I.concrete(s)
    if its is not None:
        return view(Seq(items=[(simp(S(st) + i) if not isinstance(st, int) else st + i, x) for i, x in enumerate(its)]))
    return view(Seq(n=s.n, get=lambda i: (simp(S(st) + S(i)), freeze(s.get(i))), meta=('enumerate', s)))


@nat('builtins.zip')
def _zip(I, a, k):
    ss = [I.to_seq(x) for x in a]
    if not ss:
        return view(Seq(items=[]))
    ls = [I.concrete(s) for s in ss]
    if all(l is not None for l in ls):
        return view(Seq(items=list(zip(*ls))))
    short = [len(l) for l in ls if l is not None]
    if short and min(short) <= 12 and not I.fresh_scope:
        # the concrete side bounds the length: case split on it
        h = min(short)
        while h > 0 and not I.branch(z_and(*[S(s.n) >= h for s, l in zip(ss, ls) if l is None])):
            h -= 1
        return view(Seq(items=[tuple(s.get(i) if l is None else l[i] for s, l in zip(ss, ls)) for i in range(h)]))
    n = ss[0].n
    for s in ss[1:]:
        n = simp(z3.If(S(n) < S(s.n), S(n), S(s.n))) if not V.same(n, s.n) else n
    for s in ss:
        if I.entails(z_and(*[S(s.n) <= S(t.n) for t in ss])):
            n = s.n
            break
    return view(Seq(n=n, get=lambda i: tuple(freeze(s.get(i)) for s in ss), meta=('zip', ss)))


@nat('builtins.map')
def _map(I, a, k):
    f = a[0]
    if len(a) > 2:
        return _map(I, [NativeFn('star', lambda I2, b, kk: I2.call(f, list(b[0]), {})), _zip(I, a[1:], {})], {})
    s = I.to_seq(a[1])
    its = I.concrete(s)
    if its is not None:
        return view(Seq(items=[I.call(f, [x], {}) for x in its]))
    from . import loops
    return view(loops.sym_map(I, s, lambda x, which: I.call(f, [I.borrow(x)], {}), False, [f]))


@nat('builtins.filter')
def _filter(I, a, k):
    f = a[0]
    s = I.to_seq(a[1])
    its = I.concrete(s)
    if its is not None:
        return view(Seq(items=[x for x in its if I.test(I.call(f, [x], {}))]))
    from . import loops

    def body(x, which):
        if which == 'cond':
            return I.test(I.call(f, [I.borrow(x)], {}))
        return x
    return view(loops.sym_map(I, s, body, True, [f]))


@nat('builtins.reversed')
def _reversed(I, a, k):
    return view(I.getslice(ListV(I.to_seq(a[0])), None, None, -1)._c)


@nat('builtins.iter')
def _iter(I, a, k):
    v = I.force(a[0])
    if isinstance(v, CellV) and v.kind in ('iter', 'gen'):
        return v
    if isinstance(v, ObjV):
        f, _ = v.cls.lookup('__iter__')
        if f is not None:
            return I.call(BoundV(f, v), [], {})
    return CellV('iter', seq=I.to_seq(v), pos=0)


@nat('builtins.next')
def _next(I, a, k):
    it = I.force(a[0])
    if isinstance(it, ObjV):
        f, _ = it.cls.lookup('__next__')
        return I.call(BoundV(f, it), [], {})
    h = I.natives.get('$next:' + getattr(it, 'kind', '?')) if isinstance(it, CellV) else None
    if h:
        return h(I, [it] + a[1:], {})
    if isinstance(it, CellV) and it.kind == 'count':
        v = it.d['v']
        if I.spec:
            raise IP.NeedBranch()
        it.d['v'] = simp(S(v) + 1)
        return v
    if isinstance(it, CellV) and it.kind in ('seqview', 'gen'):
        s = I.to_seq(it)
        it.kind, it.d = 'iter', {'seq': s, 'pos': 0}
    if isinstance(it, CellV) and it.kind == 'iter':
        if I.spec:
            raise IP.NeedBranch()
        s, p = it.d['seq'], it.d['pos']
        c = S(p) < S(s.n)
        if len(a) > 1:
            if not I.branch(c):
                return a[1]
        else:
            I.guard(z3.simplify(c), 'StopIteration')
        it.d['pos'] = simp(S(p) + 1)
        return s.get(p)
    raise Unsupported('next of %r' % (it,))


@nat('itertools.count')
def _count(I, a, k):
    return CellV('count', v=a[0] if a else 0)


@nat('builtins.min')
def _min(I, a, k):
    return minmax(I, a, k, False)


@nat('builtins.max')
def _max(I, a, k):
    return minmax(I, a, k, True)


def minmax(I, a, k, mx):
    import ast as _a
    key = k.get('key')
    if len(a) > 1:
        its = list(a)
    else:
        s = I.to_seq(a[0])
        its = I.concrete(s)
        if its is None:
            if key is not None or 'default' in k:
                raise Unsupported('min/max with key over an unbounded sequence')
            I.guard(S(s.n) > 0, 'ValueError', 'empty sequence')
            w = z3.Int('argm!%d' % next(V._uid))
            v = s.get(w)
            if not is_int(v):
                raise Unsupported('min/max of non-integers')
            I.assume(w >= 0, w < S(s.n), forall_int(lambda j: (S(s.get(j)) <= S(v)) if mx else (S(s.get(j)) >= S(v)), 0, s.n))
            return v
        if not its:
            if 'default' in k:
                return k['default']
            I.raise_('ValueError', 'empty sequence')
    best = its[0]
    bk = I.call(key, [best], {}) if key else best
    for x in its[1:]:
        xk = I.call(key, [x], {}) if key else x
        c = I.compare(_a.Gt() if mx else _a.Lt(), xk, bk)
        if not isinstance(c, bool) and is_int(best) and is_int(x) and key is None:
            best = bk = z3.If(c, S(x), S(best))
            continue
        if I.branch(c):
            best, bk = x, xk
    return best


@nat('builtins.sum')
def _sum(I, a, k):
    s = I.to_seq(a[0])
    its = I.concrete(s)
    if its is None:
        raise Unsupported('sum of an unbounded sequence')
    r = 0
    import ast as _a
    for x in its:
        r = I.binop(_a.Add(), r, x)
    return r


@nat('builtins.any')
def _any(I, a, k):
    s = I.to_seq(a[0])
    its = I.concrete(s)
    if its is not None:
        return z_or(*[I.truth(x) for x in its])
    return exists_int(lambda j: z_bool(I.truth(s.get(j))), 0, s.n)


@nat('builtins.all')
def _all(I, a, k):
    s = I.to_seq(a[0])
    its = I.concrete(s)
    if its is not None:
        return z_and(*[I.truth(x) for x in its])
    return forall_int(lambda j: z_bool(I.truth(s.get(j))), 0, s.n)


@nat('builtins.abs')
def _abs(I, a, k):
    v = I.force(a[0])
    if isinstance(v, int):
        return abs(v)
    return z3.If(v < 0, -v, v)


@nat('builtins.ord')
def _ord(I, a, k):
    v = I.force(a[0])
    if isinstance(v, str):
        return ord(v)
    if cur_str().mode == 'z3':
        I.guard(z3.Length(v) == 1, 'TypeError', 'ord() expected a character')
        return z3.StrToCode(v)
    return z3.Function('aord', cur_str().sort, INT)(v)


@nat('builtins.chr')
def _chr(I, a, k):
    v = I.force(a[0])
    if isinstance(v, int):
        return chr(v)
    return z3.StrFromCode(v)


@nat('builtins.print')
def _print(I, a, k):
    return None


@nat('builtins.id')
def _id(I, a, k):
    raise Unsupported('id')


@nat('builtins.hasattr')
def _hasattr(I, a, k):
    o = I.force(a[0])
    if isinstance(o, ObjV):
        return a[1] in o.fields or o.cls.lookup(a[1])[0] is not None
    raise Unsupported('hasattr')


@nat('builtins.getattr')
def _getattr(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with symbolic name')
    if len(a) == 3:
        if not _hasattr(I, a[:2], {}):
            return a[2]
    return I.getattr(a[0], a[1])


@nat('builtins.hash')
def _hash(I, a, k):
    return I.fresh(SInt, 'hash')


@nat('builtins.callable')
def _callable(I, a, k):
    return isinstance(I.force(a[0]), (FuncV, BoundV, NativeFn, ClassV, NativeV))


@nat('builtins.sorted')
def _sorted(I, a, k):
    s = I.to_seq(a[0])
    key = k.get('key')
    rev = I.test(k['reverse']) if 'reverse' in k else False
    its = I.concrete(s)
    if its is not None and all(not V.is_term(x) and not isinstance(x, (tuple, HeapV)) for x in its) and key is None:
        return ListV(Seq(items=sorted(its, reverse=rev)))
    if its is not None and len(its) <= 1:
        return ListV(Seq(items=list(its)))
    # assumed contract of sorted(): a permutation, ordered by key, stable; a function of the list, the keys and the direction;
    # two orderings of lists with the same keys have the same keys at the same places
    def kf(x):
        return I.call(key, [I.borrow(x)], {}) if key is not None else x
    n = S(s.n)
    J = z3.Int('sorted!J')
    try:
        ekey, kkey = leaf_key(freeze(s.get(J))), leaf_key(freeze(kf(s.get(J))))
    except Unsupported:
        ekey = kkey = None
    memo = I.map_memo
    if ekey is not None:
        for (e, k2, n2, r2), axs, seq in memo.get('$sorted', []):
            if r2 == rev and n2.eq(n) and same_leaves(e, ekey) and same_leaves(k2, kkey):
                I.assume(*axs)
                return ListV(seq)
    nid = next(V._uid)
    axs = []

    def assume(c):
        axs.append(c)
        I.assume(c)
    perm = z3.Function('perm!%d' % nid, INT, INT)
    inv = z3.Function('pinv!%d' % nid, INT, INT)
    get = lambda i: freeze(s.get(perm(S(i))))
    r = Seq(n=s.n, get=get, meta=('sorted', s, perm, inv, key, rev))
    j, m = z3.Int('j!%d' % nid), z3.Int('m!%d' % nid)
    assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= perm(j), perm(j) < n, inv(perm(j)) == j)), patterns=[perm(j)]))
    assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= inv(j), inv(j) < n, perm(inv(j)) == j)), patterns=[inv(j)]))
    x = freeze(s.get(j)) if s.items is None else None
    lv = [t for t in (leaf_key(x) if x is not None and ekey is not None else []) if V.is_term(t) and t.num_args() > 0]
    if lv and not z3.is_quantifier(lv[0]) and any(q.eq(j) for q in lv[0].children()):
        try:
            assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= inv(j), inv(j) < n, perm(inv(j)) == j)), patterns=[lv[0]]))
        except z3.Z3Exception:
            pass
    ka, kb = kf(get(j)), kf(get(m))
    if is_int(ka):
        lt = S(ka) >= S(kb) if rev else S(ka) <= S(kb)
        eq_ = S(ka) == S(kb)
        assume(z3.ForAll([j, m], z3.Implies(z3.And(0 <= j, j < m, m < n), z3.And(lt, z3.Implies(eq_, perm(j) < perm(m)))),
                           patterns=[z3.MultiPattern(perm(j), perm(m))]))
        if kkey is not None:
            for (e, k2, n2, r2), _, seq in memo.get('$sorted', []):
                if r2 == rev and n2.eq(n) and same_leaves(k2, kkey):
                    p2, key2 = seq.meta[2], seq.meta[4]
                    kc = I.call(key2, [I.borrow(seq.get(j))], {}) if key2 is not None else seq.get(j)
                    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), S(ka) == S(kc)), patterns=[perm(j), p2(j)]))
                    break
    elif is_str(ka) and cur_str().mode == 'z3':
        assume(z3.ForAll([j, m], z3.Implies(z3.And(0 <= j, j < m, m < n), S(kb) <= S(ka) if rev else S(ka) <= S(kb)),
                           patterns=[z3.MultiPattern(perm(j), perm(m))]))
    if ekey is not None:
        memo.setdefault('$sorted', []).append(((ekey, kkey, n, rev), axs, r))
    src = I.force(a[0])
    if isinstance(src, SetV) and key is None:
        # equal sets of values with a total order sort to equal lists
        for m2, rev2, r2 in memo.get('$sortedset', []):
            if rev2 == rev:
                same = z_and(forall_int(lambda j: z_bool(m2.has(src._c.keys.get(j))), 0, n), forall_int(lambda j: z_bool(src._c.has(m2.keys.get(j))), 0, m2.size))
                I.assume(z3.Implies(to_z3(same), to_z3(z_bool(V.seq_eq(r, r2)))))
        memo.setdefault('$sortedset', []).append((src._c, rev, r))
    return ListV(r)


def leaf_key(v):
    return [to_z3(x) if V.is_term(x) or isinstance(x, (int, str, bool)) else x for x in V.leaves(v)]


def same_leaves(a, b):
    return len(a) == len(b) and all((x.eq(y) if V.is_term(x) and V.is_term(y) else x is y) for x, y in zip(a, b))


@nat('collections.defaultdict')
def _dd(I, a, k):
    d = DictV()
    d.default = a[0] if a else None
    d.pycls = 'defaultdict'
    return d


@nat('collections.Counter')
def _counter(I, a, k):
    d = DictV()
    d.default = NativeFn('zero', lambda I2, b, kk: 0)
    d.pycls = 'Counter'
    if a:
        method(I, d, 'update').fn(I, a, {})
    return d


@nat('copy.deepcopy')
def _deepcopy(I, a, k):
    return I.own(deep(I, I.force(a[0]), {}))


@nat('copy.copy')
def _copy(I, a, k):
    v = I.leak(I.force(a[0]))
    if isinstance(v, ListV):
        return ListV(v._c)
    if isinstance(v, DictV):
        d = DictV(v._c)
        d.default, d.pycls = v.default, v.pycls
        return d
    if isinstance(v, SetV):
        return SetV(v._c)
    if isinstance(v, ObjV):
        return ObjV(v.cls, dict(v.fields))
    return v


def priv_get(get):
    p = V.Priv()

    def g(i):
        x = get(i)
        return V.FrozenObj(x.cls, x.fields, p) if isinstance(x, V.FrozenObj) else x
    return g


def priv_seq(c):
    return Seq(n=c.n, get=priv_get(c.get), meta=c.meta)


def priv_map(c):
    return Map(has=c.has, get=priv_get(c.get), keys=c.keys, size=c.size, idx=c.idx, kshape=c.kshape)


def deep(I, v, memo):
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, ListV):
        r = ListV(Seq(items=[]))
        memo[id(v)] = r
        r._c = priv_seq(v._c) if v._c.items is None else Seq(items=[deep(I, x, memo) for x in v._c.items])
        return r
    if isinstance(v, DictV):
        r = DictV(Map(items={}))
        r.default, r.pycls = v.default, v.pycls
        memo[id(v)] = r
        r._c = priv_map(v._c) if v._c.items is None else Map(items={k: deep(I, x, memo) for k, x in v._c.items.items()})
        return r
    if isinstance(v, SetV):
        return SetV(v._c)
    if isinstance(v, ObjV):
        r = ObjV(v.cls)
        memo[id(v)] = r
        r.fields = {k: deep(I, x, memo) for k, x in v.fields.items()}
        return r
    if isinstance(v, tuple):
        return tuple(deep(I, x, memo) for x in v)
    if isinstance(v, CellV):
        raise Unsupported('deepcopy')
    return v


def noop(I, a, k):
    return None


for _n in ('logging.getLogger',):
    TABLE[_n] = lambda I, a, k: CellV('logger')
for _n in ('info', 'debug', 'warning', 'error', 'exception', 'critical'):
    TABLE['logging.' + _n] = noop
TABLE['logging.root.setLevel'] = noop


@nat('tqdm.tqdm')
def _tqdm(I, a, k):
    if a:
        return view(I.to_seq(a[0]))
    return CellV('logger')


@nat('platform.system')
def _platform(I, a, k):
    return I.fresh(SStr, 'platform')


@nat('sys.version_info')
def _vi(I, a, k):
    raise Unsupported('sys.version_info')


ATTRS['sys.version_info'] = (3, 9, 0)
for _t in ('List', 'Dict', 'Tuple', 'Set', 'Optional', 'Union', 'Callable', 'Any', 'Iterator', 'Generator', 'Type', 'Sequence'):
    pass


# ---------------------------------------------------------------- methods
def method(I, o, name):
    if isinstance(o, EnumMember) and isinstance(o.value, str):
        o = o.value
    f = None
    if isinstance(o, CellV):
        if o.kind == 'logger':
            return NativeFn('log', noop)
        h = I.natives.get('$method:%s.%s' % (o.kind, name))
        if h:
            return NativeFn(name, lambda I2, a, k: h(I2, [o] + a, k), o)
        return None
    if is_str(o):
        f = STRM.get(name)
    elif isinstance(o, (bytes, IP.BytesT)):
        f = BYTESM.get(name)
    elif isinstance(o, ListV):
        f = LISTM.get(name)
    elif isinstance(o, DictV):
        f = DICTM.get(name)
    elif isinstance(o, SetV):
        f = SETM.get(name)
    elif isinstance(o, tuple):
        f = LISTM.get(name) if name in ('index', 'count') else None
    if f is None:
        h = I.natives.get('$attr:' + name) if is_term(o) else None
        if h:
            return h(I, [o], {})
        h = I.natives.get('$method:' + name)
        if h:
            return NativeFn(name, lambda I2, a, k: h(I2, [o] + a, k), o)
        return None
    ov = I.natives.get('$override:' + name)
    if ov is not None:
        return NativeFn(name, lambda I2, a, k: ov(I2, [o, f] + a, k), o)
    return NativeFn(name, lambda I2, a, k: f(I2, o, a, k), o)


STRM, BYTESM, LISTM, DICTM, SETM = {}, {}, {}, {}, {}


def m(table, name):
    def deco(f):
        table[name] = f
        return f
    return deco


def host(*xs):
    return all(isinstance(x, (str, int, type(None), bytes)) for x in xs)


def s_const(x):
    return x.value if isinstance(x, EnumMember) else x


@m(STRM, 'startswith')
def _sw(I, o, a, k):
    if host(o, *a):
        return o.startswith(*a)
    return z3.PrefixOf(S(a[0]), S(o))


@m(STRM, 'endswith')
def _ew(I, o, a, k):
    x = a[0]
    if isinstance(x, tuple):
        return z_or(*[_ew(I, o, [y], {}) for y in x])
    if host(o, x):
        return o.endswith(x)
    if cur_str().mode == 'z3':
        return z3.SuffixOf(S(x), S(o))
    a, b = cur_str().parts(S(o)), cur_str().parts(S(x))
    while a and b:
        p, q = a[-1], b[-1]
        if isinstance(p, str) and isinstance(q, str):
            n = min(len(p), len(q))
            if p[len(p) - n:] != q[len(q) - n:]:
                return False
            a, b = a[:-1] + ([p[:-n]] if len(p) > n else []), b[:-1] + ([q[:-n]] if len(q) > n else [])
        elif not isinstance(p, str) and not isinstance(q, str) and p.eq(q):
            a, b = a[:-1], b[:-1]
        else:
            break
    if not b:
        return True
    j = lambda ps: _cat_parts(ps)       # noqa
    return z3.Function('aendswith', cur_str().sort, cur_str().sort, BOOL)(j(a), j(b))


def _cat_parts(ps):
    th = cur_str()
    r = th.lit('')
    for p in ps:
        r = th.cat(r, th.lit(p) if isinstance(p, str) else p)
    return r


def unary(name, sort=None):
    def f(I, o, a, k):
        if host(o, *a):
            return getattr(o, name)(*a)
        srt = cur_str().sort
        if a:
            return z3.Function('str.' + name, *([srt] * (1 + len(a)) + [srt if sort is None else sort]))(S(o), *[S(x) for x in a])
        return z3.Function('str.' + name, srt, srt if sort is None else sort)(S(o))
    return f


for _n in ('lower', 'upper', 'capitalize', 'title', 'strip', 'lstrip', 'swapcase', 'casefold'):
    STRM[_n] = unary(_n)
for _n in ('isupper', 'islower', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isnumeric', 'isdecimal', 'istitle', 'isascii', 'isidentifier'):
    STRM[_n] = unary(_n, BOOL)


@m(STRM, 'rstrip')
def _rstrip(I, o, a, k):
    if host(o, *a):
        return o.rstrip(*a)
    if cur_str().mode != 'z3' and a and isinstance(a[0], str):
        from . import loops
        ps = cur_str().parts(S(o))
        while ps:
            p = ps[-1]
            if isinstance(p, str):
                q = p.rstrip(a[0])
                ps = ps[:-1] + ([q] if q else [])
                if q:
                    return _cat_parts(ps)
            elif len(a[0]) == 1 and I.entails(z_and(loops.no_sep(I, p, a[0]), to_z3(cur_str().length(p)) > 0)):
                return _cat_parts(ps)
            elif len(a[0]) == 1 and I.entails(z_and(*[z_bool(loops.no_sep(I, q, a[0])) for q in ps])):
                return _cat_parts(ps)
            else:
                break
        if not ps:
            return ''
        o = _cat_parts(ps)
    f = z3.Function('str.rstrip', *([cur_str().sort] * (2 + len(a))))
    r = f(S(o), *[S(x) for x in a])
    if a and isinstance(a[0], str) and len(a[0]) == 1 and cur_str().mode == 'z3':
        # rstrip(c): the string without the trailing run of c
        c = z3.StringVal(a[0])
        I.assume(z3.PrefixOf(r, S(o)), z3.Not(z3.SuffixOf(c, r)))
        t = z3.SubString(S(o), z3.Length(r), z3.Length(S(o)) - z3.Length(r))
        I.assume(z3.InRe(t, z3.Star(z3.Re(c))))
    return r


@m(STRM, 'find')
def _find(I, o, a, k):
    if host(o, *a):
        return o.find(*a)
    return z3.IndexOf(S(o), S(a[0]), S(a[1]) if len(a) > 1 else 0)


@m(STRM, 'index')
def _sindex(I, o, a, k):
    r = _find(I, o, a, k)
    I.guard(S(r) >= 0, 'ValueError', 'substring not found')
    return r


@m(STRM, 'replace')
def _replace(I, o, a, k):
    if host(o, *a):
        return o.replace(*a)
    f = z3.Function('str.replace', *([cur_str().sort] * 4))
    return f(S(o), S(a[0]), S(a[1]))


@m(STRM, 'count')
def _scount(I, o, a, k):
    if host(o, *a):
        return o.count(*a)
    return z3.Function('str.count', cur_str().sort, cur_str().sort, INT)(S(o), S(a[0]))


@m(STRM, 'join')
def _join(I, o, a, k):
    s = I.to_seq(a[0])
    its = I.concrete(s)
    if its is not None:
        r = ''
        for i, x in enumerate(its):
            if not is_str(x):
                x = I.force(x)
                if not is_str(x):
                    I.raise_('TypeError', 'sequence item: expected str')
            if i:
                r = I.cat(r, o)
            r = I.cat(r, x)
        if is_term(r):
            I.join_of.setdefault(r.get_id(), []).append((r, o, s))
        return r
    from . import loops
    r = loops.join_term(I, o, s)
    I.join_of.setdefault(r.get_id(), []).append((r, o, s))
    return r


@m(STRM, 'split')
def _split(I, o, a, k):
    if host(o, *a):
        return ListV(Seq(items=o.split(*a)))
    from . import loops
    if (not a or a[0] is None) and not k:
        return loops.split_white(I, o)
    sep = a[0]
    return loops.split_term(I, o, sep, a[1] if len(a) > 1 else None)


@m(STRM, 'format')
def _fmt(I, o, a, k):
    if host(o, *a):
        return o.format(*a)
    return I.fresh(SStr, 'fmt')


def as_text(I, o, a, k, esc):
    """bytes are modelled as the text they encode"""
    enc = a[0] if a else k.get('encoding', 'utf-8')
    e = enc.lower().replace('_', '-') if isinstance(enc, str) else enc
    if e in ('utf-8', 'utf8'):
        return o
    if e == 'unicode-escape' and esc in I.natives:
        return I.natives[esc](I, [o], {})
    raise Unsupported('codec %r' % (enc,))


@m(STRM, 'encode')
def _encode(I, o, a, k):
    if I.bytes_text:
        return as_text(I, o, a, k, '$lit')
    if host(o, *a):
        try:
            return o.encode(*a)
        except UnicodeEncodeError as e:
            I.raise_('UnicodeEncodeError')
    h = I.natives.get('$encode')
    if h:
        return h(I, [o] + a, k)
    enc = a[0] if a else 'utf-8'
    if not isinstance(enc, str):
        raise Unsupported('encoding')
    if enc == 'ascii' and not k and len(a) == 1 and cur_str().mode == 'z3':
        isa = z3.InRe(S(o), z3.Star(z3.Range(chr(0), chr(127))))
        if I.branch(isa):
            return IP.BytesT(S(o))
        I.raise_('UnicodeEncodeError')
    return CellV('encoded', s=o, enc=enc)


@m(STRM, 'decode')
def _sdecode(I, o, a, k):
    if I.bytes_text:
        return as_text(I, o, a, k, '$nonlit')
    I.raise_('AttributeError', 'decode')


@m(BYTESM, 'decode')
def _decode(I, o, a, k):
    if host(o, *a):
        try:
            return o.decode(*a)
        except UnicodeDecodeError:
            I.raise_('UnicodeDecodeError')
    h = I.natives.get('$decode')
    if h:
        return h(I, [o] + a, k)
    raise Unsupported('decode')


@nat('$method:encoded.decode')
def _encdec(I, a, k):
    c = a[0]
    e2 = a[1] if len(a) > 1 else 'utf-8'
    e1 = c.d['enc']
    norm = {'unicode-escape': 'ue', 'unicode_escape': 'ue', 'utf-8': 'u8', 'utf8': 'u8'}
    p = (norm.get(e1), norm.get(e2))
    if p == ('u8', 'u8'):
        return c.d['s']
    st = cur_str().sort
    if p == ('ue', 'u8') and '$lit' in I.natives:
        return I.natives['$lit'](I, [c.d['s']], {})
    if p == ('u8', 'ue') and '$nonlit' in I.natives:
        return I.natives['$nonlit'](I, [c.d['s']], {})
    if p == ('ue', 'u8'):
        return z3.Function('lit', st, st)(S(c.d['s']))
    if p == ('u8', 'ue'):
        return z3.Function('nonlit', st, st)(S(c.d['s']))
    raise Unsupported('encoding %s/%s' % (e1, e2))


@m(BYTESM, 'endswith')
def _bew(I, o, a, k):
    if host(o, *a):
        return o.endswith(*a)
    return z3.SuffixOf(I.bt(a[0]), I.bt(o))


@m(BYTESM, 'startswith')
def _bsw(I, o, a, k):
    if host(o, *a):
        return o.startswith(*a)
    return z3.PrefixOf(I.bt(a[0]), I.bt(o))


# ---- list
@m(LISTM, 'append')
def _append(I, o, a, k):
    I.set_content(o, seq_append(o._c, a[0]))


@m(LISTM, 'extend')
def _extend(I, o, a, k):
    s = I.to_seq(a[0])
    if I.concrete(s) is None or o._c.items is None:
        I.leak(o)
    I.set_content(o, seq_concat(o._c, s))


@m(LISTM, 'insert')
def _insert(I, o, a, k):
    c = o._c
    i = a[0]
    if hint(i) == 0:
        I.set_content(o, seq_concat(Seq(items=[a[1]]), c))
        return
    l, h = I.slice_bounds(i, None, c.n)
    I.set_content(o, seq_concat(seq_append(seq_slice(c, 0, l), a[1]), seq_slice(c, l, c.n)))


def disown(I, o, v):
    """v leaves its container for good"""
    if v.owner is not None:
        v.owner = None
        if o.uid not in I.excl or o.uid in I.leaked:
            V.mark_borrowed(v)


@m(LISTM, 'pop')
def _pop(I, o, a, k):
    c = o._c
    I.guard(S(c.n) > 0 if not isinstance(c.n, int) else c.n > 0, 'IndexError', 'pop from empty list')
    if not a or hint(a[0]) == -1:
        i = simp(S(c.n) - 1)
        v = c.items[-1] if c.items is not None else I.elem_view(o, i, c.get(i))
        if isinstance(v, HeapV):
            disown(I, o, v)
        I.set_content(o, seq_slice(c, 0, i))
        return v
    i = I.norm_index(a[0], c.n)
    v = I.getitem(o, i)
    if isinstance(v, HeapV):
        disown(I, o, v)
    i1 = simp(S(i) + 1)
    I.set_content(o, seq_concat(seq_slice(c, 0, i), seq_slice(c, i1, c.n)))
    return v


@m(LISTM, 'index')
def _lindex(I, o, a, k):
    s = I.to_seq(o)
    its = I.concrete(s)
    if its is None:
        x = freeze(I.force(a[0]))
        r = z3.Int('index!%d' % next(V._uid))
        I.guard(exists_int(lambda j: eqv(s.get(j), x), 0, s.n), 'ValueError', 'not in list')
        I.assume(r >= 0, r < S(s.n), eqv(s.get(r), x), forall_int(lambda j: z_not(eqv(s.get(j), x)), 0, r))
        return r
    for i, x in enumerate(its):
        if I.branch(I.eq(x, a[0])):
            return i
    I.raise_('ValueError', 'not in list')


@m(LISTM, 'count')
def _lcount(I, o, a, k):
    its = I.concrete(I.to_seq(o))
    if its is None:
        raise Unsupported('count')
    r = 0
    for x in its:
        c = I.eq(x, a[0])
        r = r + (1 if c is True else 0 if c is False else z3.If(c, 1, 0))
    return r


@m(LISTM, 'copy')
def _lcopy(I, o, a, k):
    return ListV(I.leak(o)._c)


@m(LISTM, 'clear')
def _lclear(I, o, a, k):
    I.set_content(o, Seq(items=[]))


@m(LISTM, 'reverse')
def _lrev(I, o, a, k):
    I.set_content(o, I.getslice(o, None, None, -1)._c)


@m(LISTM, 'sort')
def _lsort(I, o, a, k):
    I.set_content(o, _sorted(I, [o], k)._c)


@m(LISTM, 'remove')
def _lremove(I, o, a, k):
    i = _lindex(I, o, a, k)
    _pop(I, o, [i], {})


# ---- dict
@m(DICTM, 'items')
def _items(I, o, a, k):
    c = o._c
    if c.items is not None:
        return view(Seq(items=[(q, x) for q, x in c.items.items()]))
    if c.keys is None:
        raise Unsupported('items of a mapping without key order')
    ks = c.keys
    return view(Seq(n=ks.n, get=lambda i: (ks.get(i), c.get(ks.get(i))), meta=('items', c)))


@m(DICTM, 'keys')
def _keys(I, o, a, k):
    return view(I.to_seq(o))


@m(DICTM, 'values')
def _values(I, o, a, k):
    c = o._c
    if c.items is not None:
        return view(Seq(items=list(c.items.values())))
    ks = I.to_seq(o)
    return view(Seq(n=ks.n, get=lambda i: c.get(ks.get(i)), meta=('values', c)))


@m(DICTM, 'get')
def _dget(I, o, a, k):
    key = I.force(a[0])
    d = a[1] if len(a) > 1 else None
    has = I.map_has(o._c, key)
    if I.branch(has):
        return I.map_get(o._c, key, o)
    return d


@m(DICTM, 'setdefault')
def _dsd(I, o, a, k):
    key = I.force(a[0])
    if not I.branch(I.map_has(o._c, key)):
        I.set_content(o, I.map_set(o._c, key, a[1] if len(a) > 1 else None, has=False))
    return I.map_get(o._c, key, o)


@m(DICTM, 'update')
def _dupdate(I, o, a, k):
    if o.pycls == 'Counter':
        h = I.natives.get('$Counter.update')
        if h:
            return h(I, [o] + a, k)
        raise Unsupported('Counter.update')
    src = I.force(a[0]) if a else DictV(Map(items=k))
    if not isinstance(src, DictV):
        src = I.dict_from_pairs(I.to_seq(src))
    c = o._c
    if src._c.items is not None:
        for q, x in src._c.items.items():
            c = I.map_set(c, q, x)
        if c.items is None:
            I.leak(src)
        I.set_content(o, c)
        return
    from . import loops
    I.leak(src)
    I.leak(o)
    I.set_content(o, loops.map_union(I, c, src._c))


@m(DICTM, 'pop')
def _dpop(I, o, a, k):
    key = I.force(a[0])
    has = I.map_has(o._c, key)
    if len(a) > 1:
        if not I.branch(has):
            return a[1]
    else:
        I.guard(has, 'KeyError', key)
    v = I.map_get(o._c, key, o)
    if isinstance(v, HeapV):
        disown(I, o, v)
    I.set_content(o, I.map_del(o._c, key))
    return v


@m(DICTM, 'popitem')
def _dpopitem(I, o, a, k):
    c = o._c
    if c.items is not None:
        if not c.items:
            I.raise_('KeyError', 'empty')
        q = list(c.items)[-1]
        v = c.items[q]
        d = dict(c.items)
        del d[q]
        I.set_content(o, Map(items=d))
        return (q, v)
    raise Unsupported('popitem')


@m(DICTM, 'copy')
def _dcopy(I, o, a, k):
    return _copy(I, [o], {})


@m(DICTM, 'clear')
def _dclear(I, o, a, k):
    I.set_content(o, Map(items={}))


# ---- set
@m(SETM, 'add')
def _sadd(I, o, a, k):
    key = I.force(a[0])
    c = o._c
    if c.items is None and I.branch(c.has(key)):
        I.mutate(o)
        return
    I.set_content(o, I.map_set(c, key, None, has=False if c.items is None else None))


@m(SETM, 'update')
def _supdate(I, o, a, k):
    for x in a:
        x = I.force(x)
        if isinstance(x, SetV) or isinstance(x, DictV):
            c2 = x._c
        else:
            s = I.to_seq(x)
            its = I.concrete(s)
            c2 = None
            if its is None:
                c2 = _set(I, [x], {})._c
            elif o._c.items is None and len(its) > 1 and all(isinstance(I.force(y), (str, int)) for y in its):
                c2 = Map(items={I.force(y): None for y in its})
                from . import loops
                I.set_content(o, loops.map_union(I, o._c, c2))
                continue
            else:
                c = o._c
                for y in its:
                    if c.items is None and I.branch(c.has(y)):
                        continue
                    c = I.map_set(c, I.force(y), None, has=False if c.items is None else None)
                I.set_content(o, c)
                continue
        if c2.items is not None:
            c = o._c
            for y in c2.items:
                if c.items is None and I.branch(c.has(y)):
                    continue
                c = I.map_set(c, y, None, has=False if c.items is None else None)
            I.set_content(o, c)
        else:
            from . import loops
            I.set_content(o, loops.map_union(I, o._c, c2))


@m(SETM, 'discard')
def _sdiscard(I, o, a, k):
    key = I.force(a[0])
    if I.branch(I.map_has(o._c, key)):
        I.set_content(o, I.map_del(o._c, key))


@m(SETM, 'remove')
def _sremove(I, o, a, k):
    key = I.force(a[0])
    I.guard(I.map_has(o._c, key), 'KeyError')
    I.set_content(o, I.map_del(o._c, key))


@m(SETM, 'copy')
def _scopy(I, o, a, k):
    return SetV(o._c)


@m(SETM, 'difference')
def _sdifference(I, o, a, k):
    return I.set_diff(o, I.force(a[0]))


@m(SETM, 'union')
def _sunion(I, o, a, k):
    r = SetV(o._c)
    _supdate(I, r, a, k)
    return r

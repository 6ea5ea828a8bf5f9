"""Helpers shared by the specifications."""
import ast
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3                                                   # noqa
from pyvc import values as V                                # noqa
from pyvc.values import *                                   # noqa
from pyvc.values import _uid                                # noqa
from pyvc.interp import *                                   # noqa
from pyvc.interp import Interp, Path, UNDEF, BytesT         # noqa
from pyvc.verify import Target, Verifier, Contract          # noqa
from pyvc.loops import LoopView, MISSING, Fold, join_term, join_fold, read_slot   # noqa


def client(I, src, name='client', **names):
    """a small client program (specification side) run by the same interpreter: its calls go to the real code"""
    mod = '$spec.' + name
    env = Env(None, mod)
    I.mods[mod] = env
    env.vars.update(names)
    tree = ast.parse(src)
    for st in tree.body:
        I.exec(st, env)
    return env.vars[name]


def ident_fn(name='f'):
    return NativeFn(name, lambda I, a, k: a[0])


ITEM = z3.DeclareSort('Item')
SItem = SOpaque(ITEM)


def fresh_list(I, elem, name):
    return I.fresh(SList(elem), name)


def fresh_int(I, name, lo=None, hi=None):
    v = I.fresh(SInt, name)
    if lo is not None:
        I.assume(v >= lo)
    if hi is not None:
        I.assume(v < hi)
    return v


def as_seq(v):
    return v._c if isinstance(v, ListV) else v


def eq_all(a, b):
    """forall j < len: a[j] == b[j], and the same length"""
    return z_bool(V.seq_eq(as_seq(a), as_seq(b)))


def exc_is(out, name):
    return out[0] == 'exc' and exc_name(out[1].cls).split('.')[-1] == name

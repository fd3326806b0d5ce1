"""specification vocabulary shared by the checks"""
import ast
from ..report import *
from ..nf import *
from .. import nf
from ..tensor import *
from ..interp import *
from ..lib import RK
from .. import lib as L


def rk():
    return RK.as_poly()


def data(name, *dims, props=""):
    """an array that differs between processes: name[rank, dims...]"""
    return array(name, list(dims), props=props, extra=[rk()])


def V_(dim):
    return var(dim if isinstance(dim, Dim) else Dim.named(dim))


def S(p, *vs):
    for v in vs:
        p = sum_over(p, v)
    return p


def over_rank(p):
    """sum of a per-process term over all processes"""
    v = var(RK.dim)
    return sum_over(p.subst({RK.name: v.as_poly()}), v)


def T(axes, body):
    return Tensor([(a,) for a in axes], body)


def at(t, *ix):
    """scalar entry of a tensor"""
    for i in ix:
        t = t.index_axis(0, i if isinstance(i, Poly) else (i.as_poly() if isinstance(i, Atom) else const(i)))
    return t.body


def cls(ctx, q):
    return ClsV(ctx.prog.cls(q))


def method(ctx, I, obj, name):
    return I.getattr(obj, name)


def where(ctx, q):
    """file:line of a function or class; informative only"""
    try:
        return ctx.prog.func(q).where()
    except AnchorMissing:
        pass
    try:
        c = ctx.prog.cls(q)
        return "%s:%d" % (c.module.rel, c.node.lineno)
    except AnchorMissing:
        return q


def fnv(ctx, I, q):
    f = ctx.prog.func(q)
    return I.make_fn(f)


def flaw(I, msg):
    """violation, unless the analysis lost track of something on the way"""
    return dunno("%s, but the analysis lost precision (%s)" % (msg, "; ".join(I.notes[-2:]))) if I.tainted else bad(msg)


def pdict(I, d):
    """dictionary value with Python string or integer keys"""
    return I.dict({L.dict_key(I, Const(k) if isinstance(k, str) else num(k)): v for k, v in d.items()})


def strkeys(I, d):
    """the string keys of a dictionary value, None if not known"""
    if not isinstance(d, Ref) or d.kind != "dict":
        return None
    ks = list(I.content(d))
    return {k[1] for k in ks} if all(isinstance(k, tuple) and k[0] == "s" for k in ks) else None

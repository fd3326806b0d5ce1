"""Abstract evaluator: turns functions of /repo's syntax tree into value graphs.

All control-flow joins are gated (value = ite(cond, a, b)); no path is enumerated or
executed and no solver is involved.  Library calls are given by transfer functions
(lib.py); repository calls are inlined, so extracting or inlining a helper does not
change the resulting value graph.  Anything outside the modelled fragment becomes an
atom marked unknown ('u') and is reported as UNDECIDED by the checks."""
import ast
import copy
import itertools

from . import nf
from .nf import *
from .tensor import *
from .tensor import Tensor, Unsupported, ShapeError, scalar, num, opaque
from .loader import FuncInfo, ClassInfo, Program, AnchorMissing

_ids = itertools.count(1)


# ---------------------------------------------------------------------------
# non-numeric values
class V:
    pass


class Const(V):
    def __init__(self, val):
        self.val = val

    def __repr__(self):
        return "Const(%r)" % (self.val,)


NONE = Const(None)


class UndefT(V):
    def __repr__(self):
        return "Undef"


UNDEF = UndefT()


class Tup(V):
    cls = None      # class of a tuple subclass

    def __init__(self, items, cls=None):
        self.items = list(items)
        if cls is not None:
            self.cls = cls

    def __repr__(self):
        return "Tup%r" % (tuple(self.items),)


class Ref(V):
    def __init__(self, id, kind, cls=None):
        self.id, self.kind, self.cls = id, kind, cls

    def __repr__(self):
        return "Ref(%s#%s%s)" % (self.kind, self.id, " " + self.cls.name if self.cls else "")


class SliceV(V):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Fn(V):
    def __init__(self, info, env, defaults, kwdefaults):
        self.info, self.env, self.defaults, self.kwdefaults = info, env, defaults, kwdefaults

    def __repr__(self):
        return "Fn(%s)" % self.info.qual


class Lib(V):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Lib(%s)" % self.name


class ModV(V):
    def __init__(self, name):
        self.name = name


class ClsV(V):
    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return "Cls(%s)" % self.info.name


class Partial(V):
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, list(args), dict(kw)


class BoundM(V):
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Mapped(V):
    """vmap / pmap of a function"""

    def __init__(self, f, in_axes=0, out_axes=0, axis_name=None, static=(), kind="vmap", axdim=None):
        self.f, self.in_axes, self.out_axes = f, in_axes, out_axes
        self.axis_name, self.static, self.kind = axis_name, static, kind
        self.axdim = axdim


class Choice(V):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Choice(%s ? %r : %r)" % (pretty(self.c, 80), self.a, self.b)


class PyFn(V):
    """checker-provided stub or bound library method"""

    def __init__(self, f, name="stub"):
        self.f, self.name = f, name

    def __repr__(self):
        return "PyFn(%s)" % self.name


class StubObj(V):
    """checker-provided object: attrs dict of values, optional call"""

    def __init__(self, name, attrs=None, call=None, getattr_=None, setattr_=None):
        self.name, self.attrs, self.callf, self.getattr_ = name, dict(attrs or {}), call, getattr_
        self.setattr_ = setattr_

    def __repr__(self):
        return "Stub(%s)" % self.name


class Comp(V):
    """segment of a symbolic list:  for v in dim: items..."""

    def __init__(self, v, items):
        self.v, self.items = v, list(items)

    def __repr__(self):
        return "Comp(%s:%s %r)" % (self.v.key, self.v.dim.name, self.items)


class Hole(V):
    pass


class Super(V):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Tree(V):
    """pytree with symbolic leaves: leaf(v) for leaf index v in dim"""

    def __init__(self, v, leaf, wrap=None):
        self.v, self.leaf, self.wrap = v, leaf, wrap


class ConcatVec(V):
    """1-d concatenation of a symbolic list of 1-d arrays"""

    def __init__(self, segs):
        self.segs = segs


class AtV(V):
    def __init__(self, t):
        self.t = t


class AtIdx(V):
    def __init__(self, t, ix):
        self.t, self.ix = t, ix


class Unknown(Exception):
    pass


class Raised(Exception):
    """statically certain exception"""

    def __init__(self, msg):
        self.msg = msg


class Exit:
    __slots__ = ("kind", "guard", "value", "store")

    def __init__(self, kind, guard, value, store):
        self.kind, self.guard, self.value, self.store = kind, guard, value, store


def unknown_atom(tag, *args):
    return fn("?" + tag, *args, props="u")


class LoopRec:
    def __init__(self, **k):
        self.__dict__.update(k)


class Interp:
    MAXDEPTH = 60

    def __init__(self, prog, overrides=None):
        self.prog = prog
        self.store = {}
        self.events = []
        self.notes = []
        self.loops = []
        self.guard = ONE
        self.depth = 0
        self.overrides = dict(overrides or {})   # dotted repo name -> value / PyFn
        self.visited = set()                     # FuncInfo analysed
        self.modcache = {}
        self.rebound = {}
        self.callstack = []
        self.selfs = []
        self.tokens = []                         # one fresh object per active call
        self.pmap_axes = []
        self.lanes = ()
        self.strict_shapes = []
        self.curfn = None
        self.curnode = None
        self.raises = []
        self.tainted = False
        self.propagate = False
        from . import lib
        self.lib = lib.LIB
        self.libmod = lib

    # -- heap -----------------------------------------------------------
    def new(self, kind, content, cls=None):
        i = next(_ids)
        self.store[i] = content
        return Ref(i, kind, cls)

    def list(self, items):
        return self.new("list", list(items))

    def dict(self, d):
        return self.new("dict", dict(d))

    def obj(self, cls, attrs=None):
        return self.new("obj", dict(attrs or {}), cls)

    def content(self, r):
        return self.store[r.id]

    def fork(self):
        return {k: copy.copy(v) for k, v in self.store.items()}

    def note(self, msg):
        w = self.where()
        self.notes.append("%s: %s" % (w, msg))

    def where(self):
        if self.curfn is not None and self.curnode is not None:
            return "%s:%s" % (self.curfn.module.rel, getattr(self.curnode, "lineno", "?"))
        return "?"

    def event(self, kind, **d):
        d["kind"] = kind
        d["guard"] = self.guard
        d["lanes"] = self.lanes
        d["where"] = self.where()
        d["stack"] = tuple(f.qual for f in self.callstack)
        self.events.append(d)
        return d

    # -- values ----------------------------------------------------------
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Tensor) and isinstance(b, Tensor):
            return a.key == b.key
        if isinstance(a, Const) and isinstance(b, Const):
            return type(a.val) is type(b.val) and a.val == b.val
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, Lib) and isinstance(b, Lib):
            return a.name == b.name
        if isinstance(a, ModV) and isinstance(b, ModV):
            return a.name == b.name
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return a.info is b.info
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.info.node is b.info.node and a.env is b.env
        if isinstance(a, BoundM) and isinstance(b, BoundM):
            return self.same(a.f, b.f) and self.same(a.self_, b.self_)
        if isinstance(a, Partial) and isinstance(b, Partial):
            return self.same(a.f, b.f) and len(a.args) == len(b.args) and all(map(self.same, a.args, b.args)) and \
                a.kw.keys() == b.kw.keys() and all(self.same(a.kw[k], b.kw[k]) for k in a.kw)
        if isinstance(a, Choice) and isinstance(b, Choice):
            return a.c == b.c and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, Mapped) and isinstance(b, Mapped):
            return self.same(a.f, b.f) and repr(a.in_axes) == repr(b.in_axes)
        return False

    def merge(self, c, a, b):
        if c == ONE:
            return a
        if c == ZERO:
            return b
        if self.same(a, b):
            return a
        if isinstance(a, Tensor) and isinstance(b, Tensor):
            try:
                if a.axes is None and b.axes is None or (a.axes is not None and b.axes is not None and a.rank == b.rank and
                                                         [axis_dims(x) for x in a.axes] == [axis_dims(x) for x in b.axes]):
                    return elementwise(lambda x, y: ite(c, x, y), a, b)
            except ShapeError:
                pass
            if (a.axes is None and b.rank == 0) or (b.axes is None and a.rank == 0):
                return elementwise(lambda x, y: ite(c, x, y), a, b)
            return Choice(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge(c, x, y) for x, y in zip(a.items, b.items)], a.cls)
        return Choice(c, a, b)

    def merge_store(self, c, sa, sb):
        """value store = ite(c, sa, sb)"""
        out = {}
        for k in sa.keys() | sb.keys():
            if k not in sb:
                out[k] = sa[k]
            elif k not in sa:
                out[k] = sb[k]
            else:
                x, y = sa[k], sb[k]
                if isinstance(x, dict):
                    d = {}
                    for n in list(x) + [n for n in y if n not in x]:
                        if n in x and n in y:
                            d[n] = self.merge(c, x[n], y[n])
                        elif n in x:
                            d[n] = self.merge(c, x[n], UNDEF)
                        else:
                            d[n] = self.merge(c, UNDEF, y[n])
                    out[k] = d
                elif isinstance(x, list):
                    if len(x) == len(y):
                        out[k] = [self.merge(c, p, q) for p, q in zip(x, y)]
                    else:
                        n = 0
                        while n < min(len(x), len(y)) and self.same(x[n], y[n]):
                            n += 1
                        out[k] = x[:n] + [CondSeg(c, x[n:], y[n:])]
                else:
                    out[k] = x
        return out

    def node(self, v):
        """value -> Node for use inside atoms"""
        if isinstance(v, Tensor):
            if v.axes is not None and v.rank == 0:
                return v.body
            if v.axes is None:
                return v.body
            return v
        if isinstance(v, Const):
            return K(v.val)
        if isinstance(v, Tup):
            return Seq([self.node(x) for x in v.items])
        if isinstance(v, Ref):
            if v.kind == "list":
                return Seq([K("list")] + [self.node(x) for x in self.content(v)])
            if v.kind == "dict":
                c = self.content(v)
                return Seq([K("dict")] + [Seq([K(str(k)), self.node(c[k])]) for k in sorted(c, key=str)])
            return K("obj#%s" % v.id)
        if isinstance(v, Comp):
            t = [self.node(x) for x in v.items]
            return SeqB(v.v, t)
        if isinstance(v, Lib):
            return K("lib:" + v.name)
        if isinstance(v, StubObj):
            return K("stub:" + v.name)
        if isinstance(v, PyFn):
            return K("stub:" + v.name)
        if isinstance(v, ClsV):
            return K("class:" + v.info.qual)
        if isinstance(v, Choice):
            a, b = self.node(v.a), self.node(v.b)
            if isinstance(a, Poly) and isinstance(b, Poly):
                return ite(v.c, a, b)
            return Seq([K("ite"), v.c, a, b])
        if isinstance(v, Tree):
            return Seq([K("tree"), SeqB(v.v, [self.node(v.leaf)])])
        if isinstance(v, ConcatVec):
            return Seq([K("concat")] + [self.node(s) for s in v.segs])
        if isinstance(v, SliceV):
            return Seq([K("slice"), self.node(v.a), self.node(v.b), self.node(v.c)])
        if isinstance(v, Fn):
            return K("fn:%s:%s" % (v.info.qual, v.info.node.lineno))
        if isinstance(v, (BoundM,)):
            return Seq([K("bound"), self.node(v.f), self.node(v.self_)])
        if isinstance(v, Partial):
            return Seq([K("partial"), self.node(v.f)] + [self.node(x) for x in v.args] +
                       [Seq([K(k), self.node(v.kw[k])]) for k in sorted(v.kw)])
        if isinstance(v, Mapped):
            return Seq([K(v.kind), self.node(v.f), K(repr(v.in_axes))])
        if isinstance(v, ModV):
            return K("mod:" + v.name)
        return K("?%s" % type(v).__name__)

    def lift(self, node):
        if isinstance(node, Tensor):
            return node
        if isinstance(node, Poly):
            return opaque(node)
        raise Unknown("lift %r" % (node,))

    def unknown(self, tag, *args):
        self.note("unmodelled: " + tag)
        return opaque(unknown_atom(tag, *[self.node(a) for a in args]))

    def truth(self, v):
        """value -> boolean poly"""
        if isinstance(v, Tensor):
            if v.axes is not None and v.rank and not all(not a for a in v.axes):
                b = v.body
                if not (b.fv & {x.name for ax in v.axes for x in ax}):
                    return ONE - ind_eq0(b) if not nf._is_boolean(b) else b
                return fn("truth", v, props="bi")
            b = v.body
            if nf._is_boolean(b):
                return b
            c = b.const_value()
            if c is not None:
                return ONE if c else ZERO
            if v.axes is None:
                a = b.single_atom()
                if a is not None and "b" in a.props:
                    return b
                return fn("truth", b, props="bi")
            return ONE - ind_eq0(b)
        if isinstance(v, Const):
            return ONE if v.val else ZERO
        if isinstance(v, Tup):
            return ONE if v.items else ZERO
        if isinstance(v, Ref):
            if v.kind == "list":
                c = self.content(v)
                return ONE if c else ZERO
            if v.kind == "dict":
                return ONE if self.content(v) else ZERO
            return ONE
        if isinstance(v, Choice):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        return ONE

    def num_of(self, v):
        """coerce to Tensor"""
        if isinstance(v, Tensor):
            return v
        if isinstance(v, Choice):
            a, b = self.num_of(v.a), self.num_of(v.b)
            r = self.merge(v.c, a, b)
            if isinstance(r, Tensor):
                return r
            raise Unknown("choice of differently shaped arrays")
        if isinstance(v, (Tup,)) or (isinstance(v, Ref) and v.kind == "list"):
            return self.array_of(v)
        if isinstance(v, Const) and isinstance(v.val, bool):
            return num(int(v.val))
        if isinstance(v, UndefT):
            raise Unknown("possibly undefined value used")
        if isinstance(v, StubObj) and "__array__" in v.attrs:
            return self.num_of(self.call(v.attrs["__array__"], [], {}))
        return opaque(fn("val", self.node(v)))

    def array_of(self, v):
        """jnp.array(v)"""
        if isinstance(v, Tensor):
            return v
        if isinstance(v, Choice):
            return self.num_of(v)
        items = v.items if isinstance(v, Tup) else (self.content(v) if isinstance(v, Ref) and v.kind == "list" else None)
        if items is None:
            return self.num_of(v)
        if any(isinstance(x, (Comp,)) for x in items):
            if len(items) == 1 and len(items[0].items) == 1:
                t = self.array_of(items[0].items[0])
                if t.axes is None:
                    return opaque(fn("array", self.node(items[0])))
                w = items[0].v
                t = t.opened()
                nv = var(w.dim)
                return Tensor(((nv,),) + t.axes, t.body.subst({w.name: nv.as_poly()}))
            return opaque(fn("array", Seq([self.node(x) for x in items])))
        if any(isinstance(x, CondSeg) for x in items):
            return opaque(fn("array", Seq([self.node(x) for x in items])))
        ts = [self.array_of(x) for x in items]
        r = stack_literal(ts)
        if ts and r.axes is not None and r.dt is None and all(not isinstance(x, Const) and (t.dt == "idx" or (t.rank == 0 and t.body.int_value() is not None)) for x, t in zip(items, ts)):
            r.dt = "idx"        # integer numbers: as an index this is not a mask
        return r

    # -- module level -----------------------------------------------------
    def module_store(self, name):
        if name not in self.modcache:
            i = next(_ids)
            self.modcache[name] = i
            self.store[i] = {}
        i = self.modcache[name]
        if i not in self.store:
            self.store[i] = {}
        return i

    def module_attr(self, modname, attr):
        full = modname + "." + attr
        if full in self.overrides:
            return self.overrides[full]
        ms = self.store[self.module_store(modname)] if modname in self.prog.modules else {}
        if attr in ms:
            return ms[attr]
        r = self.prog.lookup(modname, attr)
        if r is None:
            return None
        kind, o = r
        if kind == "func":
            if o.qual in self.overrides:
                return self.overrides[o.qual]
            return self.make_fn(o)
        if kind == "class":
            return ClsV(o)
        if kind == "module":
            return ModV(o)
        if kind == "ext":
            return self.ext(o)
        if kind == "assign":
            m, a = o
            full = m.name + "." + a
            if full in self.overrides:
                return self.overrides[full]
            if m.name != modname and self.rebound.get((m.name, a)) is not None:
                return self.rebound[m.name, a]
            ms = self.store[self.module_store(m.name)]
            if a in ms:
                return ms[a]
            expr = m.assigns[a]
            ms[a] = opaque(sym("module:" + full))
            saved = (self.curfn, self.curnode)
            try:
                fi = FuncInfo(m, ast.parse("def __module__(): pass").body[0])
                self.curfn = fi
                # only simple name targets
                v = self.eval_module_expr(m, a, expr)
            except (Unknown, Unsupported, ShapeError, RecursionError) as e:
                v = opaque(sym("module:" + full))
            finally:
                self.curfn, self.curnode = saved
            self.store[self.module_store(m.name)][a] = v
            return v
        return None

    def eval_module_expr(self, m, a, expr):
        frame = self.new("frame", {})
        env = Env(frame.id, None, m)
        # tuple targets are not unpacked here; treat as opaque
        for st in ast.walk(m.tree):
            if isinstance(st, ast.Assign) and st.value is expr:
                if not any(isinstance(t, ast.Name) and t.id == a for t in st.targets):
                    return opaque(sym("module:%s.%s" % (m.name, a)))
        return self.eval(expr, env)

    def ext(self, dotted):
        if dotted in self.overrides:
            return self.overrides[dotted]
        return Lib(canon_lib(dotted))

    def make_fn(self, info, env=None):
        node = info.node
        if env is None:
            env = Env(None, None, info.module)
        a = node.args
        defaults = [(d, env) for d in a.defaults]
        kwd = {k.arg: (d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f = Fn(info, env, defaults, kwd)
        for dec in reversed(getattr(node, "decorator_list", [])):
            f = self.apply_decorator(f, dec, env, info)
        return f

    def apply_decorator(self, f, dec, env, info):
        d = self.prog.expr_dotted(info.module, dec if not isinstance(dec, ast.Call) else dec.func)
        last = (d or "").split(".")[-1]
        if isinstance(dec, ast.Name) and dec.id in ("property", "staticmethod", "classmethod"):
            return f
        if last in ("setter", "compact", "nowrap", "abstractmethod", "wraps", "lru_cache", "jit", "remat", "checkpoint", "dataclass") and not (
                isinstance(dec, ast.Call) and last == "partial"):
            return f
        fr = env
        try:
            dv = self.eval(dec, env)
        except (Unknown, Unsupported) as e:
            return PyFn(lambda I, a, k: I.unknown("decorated " + info.name, *a), "decorated:" + info.name)
        return self.call(dv, [f], {})

    # -- attribute --------------------------------------------------------
    def getattr(self, v, name):
        if isinstance(v, Choice):
            if isinstance(v.a, UndefT):
                return self.getattr(v.b, name)
            if isinstance(v.b, UndefT):
                return self.getattr(v.a, name)
            return self.merge(v.c, self.getattr(v.a, name), self.getattr(v.b, name))
        if isinstance(v, ModV):
            r = self.module_attr(v.name, name)
            if r is None:
                if v.name + "." + name in self.prog.modules:
                    return ModV(v.name + "." + name)
                return self.unknown("attribute %s of module %s" % (name, v.name))
            return r
        if isinstance(v, Lib):
            full = v.name + "." + name
            return self.ext(full)
        if isinstance(v, StubObj):
            if v.getattr_ is not None:
                r = v.getattr_(self, name)
                if r is not None:
                    return r
            if name in v.attrs:
                return v.attrs[name]
            return opaque(sym(v.name + "." + name))
        if isinstance(v, Super):
            mro = self.prog.mro(self.class_of(v.self_))
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if name in c.methods:
                    return BoundM(self.make_fn(c.methods[name]), v.self_)
            return PyFn(lambda I, a, k: NONE, "super." + name)
        if isinstance(v, Ref):
            if v.kind == "obj":
                c = self.content(v)
                if name in c and not isinstance(c[name], UndefT):
                    return c[name]
                if v.cls is not None:
                    key = v.cls.qual + "." + name
                    if key in self.overrides:
                        o = self.overrides[key]
                        return BoundM(o, v) if isinstance(o, PyFn) else o
                    for ci in self.prog.mro(v.cls):
                        k2 = ci.qual + "." + name
                        if k2 in self.overrides:
                            o = self.overrides[k2]
                            return BoundM(o, v) if isinstance(o, PyFn) else o
                    fi = self.prog.find_method(v.cls, name)
                    if fi is not None:
                        decs = [d for d in fi.node.decorator_list if isinstance(d, ast.Name)]
                        f = self.make_fn(fi)
                        if any(d.id == "property" for d in decs):
                            return self.call(f, [v], {})
                        if any(d.id == "staticmethod" for d in decs):
                            return f
                        return BoundM(f, v)
                    for ci in self.prog.mro(v.cls):
                        if name in ci.attrs:
                            fr = self.new("frame", {})
                            val = self.eval(ci.attrs[name], Env(fr.id, None, ci.module))
                            return val
                    # attribute never set: symbolic
                    c = self.content(v)
                s = opaque(sym("%s#.%s" % (v.cls.name if v.cls else "obj", name)))
                return s
            if v.cls is not None and not isinstance(v, Tup):
                fi = self.prog.find_method(v.cls, name)
                if fi is not None:
                    return BoundM(self.make_fn(fi), v)
            if v.kind in ("list", "dict", "set"):
                return PyFn(lambda I, a, k, v=v, n=name: I.libmod.container_method(I, v, n, a, k), v.kind + "." + name)
        if isinstance(v, Tensor):
            return self.libmod.tensor_attr(self, v, name)
        if isinstance(v, SuperTuple):
            if name == "__new__":
                def mk(I, a, k):
                    c = a[0].info if a and isinstance(a[0], ClsV) else None
                    return Tup(I.libmod._tuple(I, a[1:], {}).items, c)
                return PyFn(mk, "tuple.__new__")
            if name == "__init__":
                return PyFn(lambda I, a, k: NONE, "tuple.__init__")
        if isinstance(v, Tup) and v.cls is not None:
            fi = self.prog.find_method(v.cls, name)
            if fi is not None:
                return BoundM(self.make_fn(fi), v)
        if isinstance(v, (Tup, Const)):
            return PyFn(lambda I, a, k, v=v, n=name: I.libmod.const_method(I, v, n, a, k), "tuple." + name)
        if isinstance(v, AtIdx):
            return PyFn(lambda I, a, k, v=v, n=name: I.libmod.at_method(I, v, n, a, k), "at." + name)
        if isinstance(v, (Tree, ConcatVec)):
            return self.libmod.tree_attr(self, v, name)
        if isinstance(v, ClsV):
            if name == "__name__":
                return Const(v.info.name)
            fi = self.prog.find_method(v.info, name)
            if fi:
                return self.make_fn(fi)
            if name in v.info.attrs:
                fr = self.new("frame", {})
                return self.eval(v.info.attrs[name], Env(fr.id, None, v.info.module))
        if isinstance(v, Partial) and name in ("func", "args", "keywords"):
            return v.f if name == "func" else Tup(v.args)
        if isinstance(v, UndefT):
            raise Unknown("possibly undefined name used")
        return self.unknown("attribute .%s" % name, v)

    def class_of(self, v):
        return v.cls if isinstance(v, (Ref, Tup)) else None

    def setattr(self, v, name, val):
        if isinstance(v, Ref) and v.kind == "obj":
            if v.cls is not None:
                key = v.cls.qual + "." + name + ".setter"
                fi = self.prog.find_method(v.cls, name + ".setter")
                if fi is not None:
                    self.call(self.make_fn(fi), [v, val], {})
                    return
            self.content(v)[name] = val
            return
        if isinstance(v, ModV):
            self.store[self.module_store(v.name)][name] = val
            return
        if isinstance(v, StubObj):
            if v.setattr_ is not None:
                v.setattr_(self, name, val)
                return
            self.event("setattr", obj=v, name=name, value=val)
            v.attrs[name] = val
            return
        if isinstance(v, Choice):
            g = self.guard
            sa = self.fork()
            s0 = self.store
            self.store = sa
            self.setattr(v.a, name, val)
            sa = self.store
            self.store = s0
            self.setattr(v.b, name, val)
            self.store = self.merge_store(v.c, sa, self.store)
            return
        self.event("setattr", obj=v, name=name, value=val)

    # -- calls -------------------------------------------------------------
    def call(self, f, args, kw, node=None):
        if isinstance(f, Choice):
            if isinstance(f.a, UndefT) or (isinstance(f.a, Const) and f.a.val is None):
                return self.call(f.b, args, kw, node)
            if isinstance(f.b, UndefT) or (isinstance(f.b, Const) and f.b.val is None):
                return self.call(f.a, args, kw, node)
            s0, g0 = self.store, self.guard
            self.store = self.fork()
            self.guard = g0 * f.c
            ra = self.call(f.a, list(args), dict(kw), node)
            sa = self.store
            self.store = s0
            self.guard = g0 * (ONE - f.c)
            rb = self.call(f.b, list(args), dict(kw), node)
            self.guard = g0
            self.store = self.merge_store(f.c, sa, self.store)
            return self.merge(f.c, ra, rb)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, BoundM):
            return self.call(f.f, [f.self_] + list(args), kw, node)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, f.args + list(args), k, node)
        if isinstance(f, PyFn):
            return f.f(self, list(args), dict(kw))
        if isinstance(f, Lib):
            return self.call_lib(f.name, args, kw)
        if isinstance(f, Mapped):
            return self.libmod.call_mapped(self, f, args, kw)
        if isinstance(f, ClsV):
            return self.instantiate(f.info, args, kw)
        if isinstance(f, StubObj):
            if f.callf is not None:
                return f.callf(self, list(args), dict(kw))
            return opaque(fn("call:" + f.name, *[self.node(a) for a in args], *[Seq([K(k), self.node(v)]) for k, v in sorted(kw.items())]))
        if isinstance(f, Ref) and f.kind == "obj":
            m = self.getattr(f, "__call__")
            return self.call(m, args, kw, node)
        if isinstance(f, Tensor):
            return opaque(fn("call", self.node(f), *[self.node(a) for a in args],
                             *[Seq([K(k), self.node(v)]) for k, v in sorted(kw.items())]))
        if isinstance(f, UndefT):
            raise Unknown("call of possibly undefined name")
        return self.unknown("call of %r" % (f,), *args)

    def call_lib(self, name, args, kw):
        h = self.lib.get(name)
        if h is None:
            return self.unknown("lib " + name, *args)
        if kw:
            from . import lib as LL
            odd = LL.unread_keywords(h, name, kw)
            if odd:
                return self.unknown("keyword %s of %s" % (odd, name), *args)
        try:
            return h(self, list(args), dict(kw))
        except ShapeError as e:
            self.strict_shapes.append("%s: %s: %s" % (self.where(), name, e))
            self.note("shape mismatch in %s: %s" % (name, e))
            return opaque(unknown_atom("shape:" + name, *[self.node(a) for a in args]))

    def instantiate(self, ci, args, kw):
        o = self.obj(ci)
        key = ci.qual + "."
        if ci.qual in self.overrides:
            ov = self.overrides[ci.qual]
            return self.call(ov, args, kw)
        isdict = any(self.prog.expr_dotted(c.module, b) == "dict" or (isinstance(b, ast.Name) and b.id == "dict")
                     for c in self.prog.mro(ci) for b in c.bases)
        istup = any(isinstance(b, ast.Name) and b.id == "tuple" for c in self.prog.mro(ci) for b in c.bases)
        if isdict:
            o = Ref(o.id, "dict", ci)
            self.store[o.id] = {}
        if istup:
            nw = self.prog.find_method(ci, "__new__")
            if nw is not None:
                return self.call(self.make_fn(nw), [ClsV(ci)] + list(args), kw)
            return Tup(self.libmod._tuple(self, list(args), {}).items, ci)
        init = self.prog.find_method(ci, "__init__")
        if init is not None:
            self.call(self.make_fn(init), [o] + list(args), kw)
            return o
        # dataclass-like (flax modules)
        fields = []
        for c in reversed(self.prog.mro(ci)):
            fields += [f for f in c.fields if f not in fields]
        attrs = self.content(o)
        for n, a in zip(fields, args):
            attrs[n] = a
        for k, v in kw.items():
            attrs[k] = v
        pi = self.prog.find_method(ci, "__post_init__")
        if pi is not None:
            self.call(self.make_fn(pi), [o], {})
        return o

    def bind_args(self, f, args, kw):
        a = f.info.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = Tup(extra)
        elif extra:
            raise Raised("too many positional arguments for %s" % f.info.qual)
        kw = dict(kw)
        for n in names + [p.arg for p in a.kwonlyargs]:
            if n in kw:
                if n in env:
                    raise Raised("multiple values for argument %r of %s" % (n, f.info.qual))
                env[n] = kw.pop(n)
        if a.kwarg:
            env[a.kwarg.arg] = self.dict({("s", k): v for k, v in kw.items()})
        elif kw:
            raise Raised("unexpected keyword %r for %s" % (sorted(kw)[0], f.info.qual))
        nd = len(f.defaults)
        for n, (d, denv) in zip(names[len(names) - nd:] if nd else [], f.defaults):
            if n not in env:
                env[n] = self.eval_default(d, denv, f)
        for p in a.kwonlyargs:
            if p.arg not in env:
                if p.arg in f.kwdefaults:
                    d, denv = f.kwdefaults[p.arg]
                    env[p.arg] = self.eval_default(d, denv, f)
                else:
                    raise Raised("missing keyword argument %r of %s" % (p.arg, f.info.qual))
        for n in names:
            if n not in env:
                raise Raised("missing argument %r of %s" % (n, f.info.qual))
        return env

    def eval_default(self, d, denv, f):
        if denv.frame is None:
            fr = self.new("frame", {})
            denv = Env(fr.id, None, f.info.module)
        return self.eval(d, denv)

    def call_fn(self, f, args, kw):
        if self.depth > self.MAXDEPTH:
            return self.unknown("recursion limit in " + f.info.qual)
        qual = f.info.qual
        if qual in self.overrides and f.info.outer is None and f.info.name != "<lambda>":
            o = self.overrides[qual]
            if isinstance(o, PyFn):
                return o.f(self, list(args), dict(kw))
        if sum(1 for x in self.callstack if x.node is f.info.node) > 6:
            return self.unknown("recursive call of " + qual, *args)
        self.depth += 1
        saved = (self.curfn, self.curnode)
        self.callstack.append(f.info)
        self.selfs.append(args[0] if args and isinstance(args[0], Ref) and args[0].kind == "obj" else None)
        self.tokens.append(object())
        self.visited.add(f.info)
        try:
            bound = self.bind_args(f, args, kw)
            fr = self.new("frame", bound)
            env = Env(fr.id, f.env, f.info.module, f.info)
            self.curfn = f.info
            node = f.info.node
            if isinstance(node, ast.Lambda):
                self.curnode = node
                return self.eval(node.body, env)
            env.globals, env.nonlocals = scope_decls(node)
            g0 = self.guard
            s0 = self.store
            try:
                exits = self.exec_block(node.body, env)
                self.guard = g0
                return self.finish(exits, f)
            except (Unknown, Unsupported, ShapeError) as e:
                if self.propagate:
                    raise
                self.tainted = True
                self.note("not analysable (%s): %s" % (f.info.qual, e))
                self.guard = g0
                self.store = s0
                return opaque(unknown_atom("fn:" + qual, *[self.node(a) for a in args]))
        finally:
            self.callstack.pop()
            self.selfs.pop()
            self.tokens.pop()
            self.depth -= 1
            self.curfn, self.curnode = saved

    def finish(self, exits, f):
        """merge function exits (guards relative to global guard stack)"""
        rets = []
        for e in exits:
            if e.kind == "next":
                rets.append(Exit("return", e.guard, NONE, e.store))
            elif e.kind == "return":
                rets.append(e)
            elif e.kind == "raise":
                self.raises.append((e.guard, e.value, f.info.qual))
        if not rets:
            raise Raised("%s always raises: %s" % (f.info.qual, "; ".join(str(e.value) for e in exits)))
        val, st = rets[-1].value, rets[-1].store
        for e in reversed(rets[:-1]):
            val = self.merge(e.guard, e.value, val)
            st = self.merge_store(e.guard, e.store, st)
        self.store = st
        return val

    # -- statements --------------------------------------------------------
    def exec_block(self, stmts, env):
        """-> list of Exit; guards are relative to block entry"""
        cur = ONE
        out = []
        for n, st in enumerate(stmts):
            self.curnode = st
            exits = self.exec_stmt(st, env)
            nxt = [e for e in exits if e.kind == "next"]
            for e in exits:
                if e.kind != "next":
                    out.append(Exit(e.kind, cur * e.guard, e.value, e.store))
            if not nxt:
                return out
            g = nxt[0].guard
            self.store = nxt[0].store
            if g != ONE:
                cur = cur * g
                self.guard = self.guard * g
        out.append(Exit("next", cur, None, self.store))
        return out

    def exec_stmt(self, st, env):
        try:
            return self._exec_stmt(st, env)
        except Raised as e:
            self.event("certain-raise", msg=e.msg)
            return [Exit("raise", ONE, e.msg, self.store)]

    def _exec_stmt(self, st, env):
        S = self.store
        if isinstance(st, ast.Expr):
            if not (isinstance(st.value, ast.Constant)):
                self.eval(st.value, env)
        elif isinstance(st, ast.Assign):
            v = self.eval(st.value, env)
            for t in st.targets:
                self.assign(t, v, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.eval(st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            cur = self.eval(_load(st.target), env)
            r = self.eval(st.value, env)
            if isinstance(cur, Ref) and cur.kind == "list" and isinstance(st.op, ast.Add):
                items = r.items if isinstance(r, Tup) else list(self.content(r)) if isinstance(r, Ref) and r.kind == "list" else None
                if items is None:
                    raise Unknown("list += unknown")
                self.content(cur).extend(items)
                return [Exit("next", ONE, None, self.store)]
            if isinstance(cur, Ref) and cur.kind == "obj" and cur.cls is not None:
                m = self.prog.find_method(cur.cls, {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}.get(type(st.op).__name__, "-"))
                if m is not None:
                    v = self.call(self.make_fn(m), [cur, r], {})
                    self.assign(st.target, v, env)
                    return [Exit("next", ONE, None, self.store)]
            self.event("augassign", target=cur, value=r, node=st)
            self.assign(st.target, self.binop(st.op, cur, r), env)
        elif isinstance(st, ast.Return):
            v = self.eval(st.value, env) if st.value is not None else NONE
            return [Exit("return", ONE, v, self.store)]
        elif isinstance(st, ast.If):
            return self.exec_if(st, env)
        elif isinstance(st, ast.For):
            return self.exec_for(st, env)
        elif isinstance(st, ast.While):
            return self.exec_while(st, env)
        elif isinstance(st, (ast.FunctionDef,)):
            fi = FuncInfo(env.module, st, None, env)
            self.assign_name(st.name, self.make_fn(fi, env), env)
        elif isinstance(st, ast.Raise):
            return [Exit("raise", ONE, ast.unparse(st.exc) if st.exc is not None else "raise", self.store)]
        elif isinstance(st, (ast.Pass, ast.Global, ast.Nonlocal)):
            pass
        elif isinstance(st, ast.Import):
            for a in st.names:
                nm = a.asname or a.name.split(".")[0]
                full = a.name if a.asname else a.name.split(".")[0]
                self.assign_name(nm, self.dotted_value(full), env)
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ""
            if st.level:
                pkg = env.module.name if env.module.is_pkg else env.module.name.rpartition(".")[0]
                for _ in range(st.level - 1):
                    pkg = pkg.rpartition(".")[0]
                base = pkg + ("." + base if base else "")
            for a in st.names:
                self.assign_name(a.asname or a.name, self.dotted_value(base + "." + a.name), env)
        elif isinstance(st, ast.With):
            for it in st.items:
                v = self.eval(it.context_expr, env)
                r = v
                if isinstance(v, StubObj) and "__enter__" in v.attrs:
                    r = self.call(v.attrs["__enter__"], [], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, r, env)
            return self.exec_block(st.body, env)
        elif isinstance(st, ast.Try):
            return self.exec_try(st, env)
        elif isinstance(st, ast.Assert):
            c = self.truth(self.eval(st.test, env))
            return [Exit("next", ONE, None, self.store)]
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.assign_name(t.id, UNDEF, env)
                elif isinstance(t, ast.Subscript):
                    b = self.eval(t.value, env)
                    k = self.eval(t.slice, env)
                    if isinstance(b, Ref) and b.kind in ("dict",):
                        self.content(b).pop(dict_key(self, k), None)
                        self.event("mutate", obj=b, how="del")
                    elif isinstance(b, Ref) and b.kind == "list":
                        n = self.int_of(k)
                        if n is None:
                            raise Unknown("del list[symbolic]")
                        del self.content(b)[n]
                    else:
                        self.note("del unmodelled")
        elif isinstance(st, ast.Break):
            return [Exit("break", ONE, None, self.store)]
        elif isinstance(st, ast.Continue):
            return [Exit("continue", ONE, None, self.store)]
        elif isinstance(st, ast.ClassDef):
            ci = ClassInfo(env.module, st)
            self.assign_name(st.name, ClsV(ci), env)
        else:
            raise Unknown("statement %s" % type(st).__name__)
        return [Exit("next", ONE, None, self.store)]

    def dotted_value(self, full):
        r = self.prog.resolve(full)
        if r is None:
            head, _, tail = full.rpartition(".")
            r2 = self.prog.resolve(head) if head else None
            if r2 and r2[0] == "module":
                v = self.module_attr(r2[1], tail)
                if v is not None:
                    return v
            return self.unknown("import " + full)
        if r[0] == "module":
            return ModV(r[1])
        if r[0] == "ext":
            return self.ext(r[1])
        if r[0] == "func":
            return self.make_fn(r[1])
        if r[0] == "class":
            return ClsV(r[1])
        if r[0] == "assign":
            return self.module_attr(r[1][0].name, r[1][1])

    def branch(self, c, fa, fb):
        """run two statement thunks under condition c; -> exits"""
        if c == ONE:
            return fa()
        if c == ZERO:
            return fb()
        s0, g0 = self.store, self.guard
        self.store = self.fork()
        self.guard = g0 * c
        ea = fa()
        self.store = s0
        self.guard = g0 * (ONE - c)
        eb = fb()
        self.guard = g0
        out = []
        na = [e for e in ea if e.kind == "next"]
        nb = [e for e in eb if e.kind == "next"]
        for e in ea:
            if e.kind != "next":
                out.append(Exit(e.kind, c * e.guard, e.value, e.store))
        for e in eb:
            if e.kind != "next":
                out.append(Exit(e.kind, (ONE - c) * e.guard, e.value, e.store))
        if na and nb:
            a, b = na[0], nb[0]
            st = self.merge_store(c, a.store, b.store)
            out.append(Exit("next", ite(c, a.guard, b.guard), None, st))
        elif na:
            out.append(Exit("next", c * na[0].guard, None, na[0].store))
        elif nb:
            out.append(Exit("next", (ONE - c) * nb[0].guard, None, nb[0].store))
        return out

    def exec_if(self, st, env):
        c = self.truth(self.eval(st.test, env))
        self.event("branch", cond=c, node=st)
        return self.branch(c, lambda: self.exec_block(st.body, env), lambda: self.exec_block(st.orelse, env))

    def exec_try(self, st, env):
        # body ; handlers run under an opaque exception condition
        ea = None
        s0 = self.fork()
        body = self.exec_block(st.body + st.orelse, env)
        exits = body
        nxt = [e for e in body if e.kind == "next"]
        if st.handlers:
            exc = fn("exception", K("%s:%d" % (env.module.rel, st.lineno)), props="bi")
            sv, gv = self.store, self.guard
            allh = []
            for h in st.handlers:
                self.store = {k: copy.copy(v) for k, v in s0.items()}
                self.guard = gv * exc
                if h.name:
                    self.assign_name(h.name, opaque(sym("exc")), env)
                allh.append(self.exec_block(h.body, env))
            self.guard = gv
            self.store = sv
            hx = allh[0]
            if len(allh) > 1:
                self.note("several except handlers: only the first is merged")
            out = []
            na, nb = nxt, [e for e in hx if e.kind == "next"]
            for e in body:
                if e.kind != "next":
                    out.append(Exit(e.kind, (ONE - exc) * e.guard, e.value, e.store))
            for e in hx:
                if e.kind != "next":
                    out.append(Exit(e.kind, exc * e.guard, e.value, e.store))
            if na and nb:
                out.append(Exit("next", ite(exc, nb[0].guard, na[0].guard), None, self.merge_store(exc, nb[0].store, na[0].store)))
            elif na:
                out.append(Exit("next", (ONE - exc) * na[0].guard, None, na[0].store))
            elif nb:
                out.append(Exit("next", exc * nb[0].guard, None, nb[0].store))
            exits = out
        if st.finalbody:
            res = []
            for e in exits:
                self.store = e.store
                f = self.exec_block(st.finalbody, env)
                for x in f:
                    if x.kind == "next":
                        res.append(Exit(e.kind, e.guard * x.guard, e.value, x.store))
                    else:
                        res.append(Exit(x.kind, e.guard * x.guard, x.value, x.store))
            exits = res
        return exits

    # -- loops --------------------------------------------------------------
    def iterate(self, v):
        """-> ('conc', [values]) or ('sym', dim, elemfn(var)->value)"""
        if isinstance(v, Tup):
            return self._iter_items(v.items)
        if isinstance(v, Ref):
            c = self.content(v)
            if v.kind == "list" or v.kind == "set":
                return self._iter_items(c)
            if v.kind == "dict":
                if "#comp" in c:
                    raise Unknown("iteration over symbolic dict")
                return ("conc", [undict_key(k) for k in c])
        if isinstance(v, Const) and isinstance(v.val, str):
            return ("conc", [Const(ch) for ch in v.val])
        if isinstance(v, RangeV):
            n = v.length()
            k = n.int_value()
            if k is not None:
                return ("conc", [scalar(v.a + i * v.c) for i in range(max(k, 0))])
            d = Dim.of_size(n)
            return ("sym", d, lambda w: scalar(v.a + w.as_poly() * v.c))
        if isinstance(v, ZipV):
            its = [self.iterate(x) for x in v.items]
            concs = [i for i in its if i[0] == "conc"]
            if len(concs) == len(its):
                n = min(len(i[1]) for i in its) if its else 0
                return ("conc", [Tup([i[1][k] for i in its]) for k in range(n)])
            if concs:
                n = min(len(i[1]) for i in concs)
                vals = []
                for k in range(n):
                    row = []
                    for i in its:
                        if i[0] == "conc":
                            row.append(i[1][k])
                        else:
                            w = var(i[1])
                            row.append(self.subst_value(i[2](w), {w.name: const(k)}))
                    vals.append(Tup(row))
                return ("conc", vals)
            dims = [i[1] for i in its if i[1] is not None]
            for d in dims[1:]:
                if d.name != dims[0].name and not equal(d.size, dims[0].size):
                    raise Unknown("zip over lists of different symbolic length")
            def el(w):
                return Tup([i[2](w) if i[1] is None or i[1] is w.dim or i[1].name == w.dim.name
                            else self._retarget(i, w) for i in its])
            if not dims:
                raise Unknown("zip over unbounded")
            return ("sym", dims[0], el)
        if isinstance(v, EnumV):
            it = self.iterate(v.item)
            if it[0] == "conc":
                return ("conc", [Tup([scalar(v.start + k), x]) for k, x in enumerate(it[1])])
            return ("sym", it[1], lambda w: Tup([scalar(v.start + w.as_poly()), it[2](w)]))
        if isinstance(v, ItemsV):
            c = self.content(v.d) if isinstance(v.d, Ref) else None
            if c is not None and "#comp" not in c:
                ks = list(c)
                if v.what == "keys":
                    return ("conc", [undict_key(k) for k in ks])
                if v.what == "values":
                    return ("conc", [c[k] for k in ks])
                return ("conc", [Tup([undict_key(k), c[k]]) for k in ks])
            raise Unknown("iteration over opaque mapping")
        if isinstance(v, SymSeq):
            return ("sym", v.dim, v.elem)
        if isinstance(v, Tensor):
            if v.axes is not None and v.rank >= 1:
                n = v.axis_size(0).int_value()
                if n is not None and n <= 64:
                    return ("conc", [v.index_axis(0, const(i)) for i in range(n)])
                d = Dim.of_size(v.axis_size(0)) if len(v.axes[0]) != 1 else v.axes[0][0].dim
                return ("sym", d, lambda w: v.index_axis(0, w.as_poly()))
            if v.axes is None:
                nm = "len(%s)" % v.body.key
                d = Dim.named(nm) if nm in Dim._cache else Dim.named(nm)
                return ("sym", d, lambda w: opaque(fn("item", v.body, w.as_poly())))
        if isinstance(v, ConcatVec):
            raise Unknown("iteration over layout vector")
        if isinstance(v, StubObj) and "__iter__" in v.attrs:
            return v.attrs["__iter__"]
        if isinstance(v, Choice):
            raise Unknown("iteration over conditional value")
        raise Unknown("iteration over %r" % (type(v).__name__,))

    def _retarget(self, it, w):
        w2 = var(it[1])
        return self.subst_value(it[2](w2), {w2.name: w.as_poly()})

    def _iter_items(self, items):
        if any(isinstance(x, (CondSeg, Hole)) for x in items):
            raise Unknown("iteration over conditionally built list")
        if not any(isinstance(x, Comp) for x in items):
            return ("conc", list(items))
        if len(items) == 1 and len(items[0].items) == 1:
            cmp_ = items[0]
            return ("sym", cmp_.v.dim, lambda w: self.subst_value(cmp_.items[0], {cmp_.v.name: w.as_poly()}))
        if len(items) == 1 and len(items[0].items) > 1:
            raise Unknown("iteration over interleaved list")
        # concrete prefix followed by one comprehension: unify through lut is not attempted
        raise Unknown("iteration over mixed list")

    def subst_value(self, v, m):
        """substitute index variables inside any value"""
        if isinstance(v, Tensor):
            r = v.subst(m)
            if isinstance(r, Poly):
                return scalar(r)
            return r
        if isinstance(v, Tup):
            return Tup([self.subst_value(x, m) for x in v.items], v.cls)
        if isinstance(v, Choice):
            return self.merge(v.c.subst(m), self.subst_value(v.a, m), self.subst_value(v.b, m))
        if isinstance(v, Comp):
            return Comp(v.v, [self.subst_value(x, m) for x in v.items])
        if isinstance(v, Partial):
            return Partial(self.subst_value(v.f, m), [self.subst_value(x, m) for x in v.args], {k: self.subst_value(x, m) for k, x in v.kw.items()})
        if isinstance(v, Ref) and v.kind in ("list", "dict"):
            c = self.content(v)
            if v.kind == "list":
                n = [self.subst_value(x, m) for x in c]
                if all(self.same(p, q) for p, q in zip(n, c)):
                    return v
                return self.new("list", n)
            n = {k: self.subst_value(x, m) for k, x in c.items()}
            if all(self.same(n[k], c[k]) for k in c):
                return v
            return self.new("dict", n, v.cls)
        if isinstance(v, ConcatVec):
            return ConcatVec([self.subst_value(x, m) for x in v.segs])
        if isinstance(v, SliceV):
            return SliceV(*[self.subst_value(x, m) for x in (v.a, v.b, v.c)])
        return v

    def replace_sym(self, v, x, val):
        """replace symbol atom x by poly val in any value"""
        if isinstance(v, Tensor):
            return v.map_polys(lambda p: nf.replace_atom(p, x, val))
        if isinstance(v, Tup):
            return Tup([self.replace_sym(i, x, val) for i in v.items], v.cls)
        if isinstance(v, Choice):
            return self.merge(nf.replace_atom(v.c, x, val), self.replace_sym(v.a, x, val), self.replace_sym(v.b, x, val))
        if isinstance(v, Comp):
            return Comp(v.v, [self.replace_sym(i, x, val) for i in v.items])
        if isinstance(v, Partial):
            return Partial(self.replace_sym(v.f, x, val), [self.replace_sym(i, x, val) for i in v.args], {k: self.replace_sym(i, x, val) for k, i in v.kw.items()})
        if isinstance(v, ConcatVec):
            return ConcatVec([self.replace_sym(i, x, val) for i in v.segs])
        if isinstance(v, Ref) and v.kind == "list":
            c = self.content(v)
            self.store[v.id] = [self.replace_sym(i, x, val) for i in c]
            return v
        return v

    def exec_for(self, st, env):
        itv = self.eval(st.iter, env)
        kind, *rest = self.iterate(itv)
        if kind == "conc":
            return self.unroll(rest[0], st, env)
        return self.sym_loop(rest[0], rest[1], st.target, st.body, env, st)

    def unroll(self, items, st, env):
        if len(items) > 512:
            raise Unknown("loop too long to unroll")
        cur = ONE
        out = []
        broke = []
        for x in items:
            self.assign(st.target, x, env)
            exits = self.exec_block(st.body, env)
            nx = []
            for e in exits:
                if e.kind in ("next", "continue"):
                    nx.append(e)
                elif e.kind == "break":
                    broke.append(Exit("next", cur * e.guard, None, e.store))
                else:
                    out.append(Exit(e.kind, cur * e.guard, e.value, e.store))
            if not nx:
                self.store = None
                break
            g, s = nx[-1].guard, nx[-1].store
            for e in reversed(nx[:-1]):
                s = self.merge_store(e.guard, e.store, s)
                g = g + e.guard
            self.store = s
            cur = cur * g
        last = []
        if self.store is not None:
            if st.orelse:
                for e in self.exec_block(st.orelse, env):
                    if e.kind == "next":
                        last.append(Exit("next", cur * e.guard, None, e.store))
                    else:
                        out.append(Exit(e.kind, cur * e.guard, e.value, e.store))
            else:
                last.append(Exit("next", cur, None, self.store))
        allx = broke + last
        if allx:
            g, s = allx[-1].guard, allx[-1].store
            for e in reversed(allx[:-1]):
                s = self.merge_store(e.guard, e.store, s)
                g = g + e.guard
            out.append(Exit("next", g, None, s))
            self.store = s
        return out

    def diff_store(self, s0, s1):
        """modified locations of objects that exist in s0"""
        out = []
        for k in s0:
            if k not in s1:
                continue
            a, b = s0[k], s1[k]
            if isinstance(a, dict):
                for n in b:
                    if n not in a or not self.same(a[n], b[n]):
                        out.append((k, n))
            elif isinstance(a, list):
                if len(a) != len(b) or not all(self.same(x, y) for x, y in zip(a, b)):
                    out.append((k, None))
        return out

    def sym_loop(self, dim, elem, target, body, env, st):
        """summarise  for target in <dim elements>: body"""
        v = var(dim)
        s_before = self.store

        def run(store):
            self.store = {k: copy.copy(c) for k, c in store.items()}
            self.assign(target, elem(v), env)
            exits = self.exec_block(body, env)
            nx = [e for e in exits if e.kind in ("next", "continue")]
            bad = [e for e in exits if e.kind in ("break", "return")]
            for e in exits:
                if e.kind == "raise":
                    self.raises.append((e.guard, e.value, "loop"))
            if bad or not nx:
                raise Unknown("break/return inside a symbolic loop")
            s = nx[-1].store
            for e in reversed(nx[:-1]):
                s = self.merge_store(e.guard, e.store, s)
            return s

        g0 = self.guard
        nev, nnotes, nloops = len(self.events), len(self.notes), len(self.loops)
        s1 = run(s_before)
        self.guard = g0
        mods = self.diff_store(s_before, s1)
        # pass B
        del self.events[nev:]
        del self.notes[nnotes:]
        del self.loops[nloops:]
        for _round in range(4):
            start = {k: copy.copy(c) for k, c in s_before.items()}
            carried, lists = {}, []
            for (i, n) in mods:
                if n is None:
                    start[i] = [Hole()]
                    lists.append(i)
                    continue
                pre = s_before[i].get(n, UNDEF)
                if isinstance(pre, UndefT):
                    continue
                sv = self.symbolic_like(pre, "c%d" % fresh_id(), v)
                if sv is None:
                    continue
                carried[(i, n)] = (pre, sv)
                start[i][n] = sv
            ev0 = len(self.events)
            s2 = run(start)
            self.guard = g0
            more = [l for l in self.diff_store(start, s2) if l not in mods]
            if not more:
                break
            mods = mods + more
            del self.events[ev0:]
        for e in self.events[nev:]:
            e.setdefault("loopvars", []).append(v)
        out = {k: copy.copy(c) for k, c in s2.items() if k not in s_before}
        for k in s_before:
            out[k] = copy.copy(s_before[k])
        # recurrences
        subst = []
        final = {}
        post = {}
        for loc, (pre, sv) in carried.items():
            post[loc] = s2[loc[0]][loc[1]]
        carried_atoms = {}
        for loc, (pre, sv) in carried.items():
            for a in self.value_syms(sv):
                carried_atoms[a] = loc
        for loc, (pre, sv) in list(carried.items()):
            r = self.solve_rec(pre, sv, post[loc], v, carried_atoms)
            if r is None:
                final[loc] = None
                continue
            inloop, fin = r
            final[loc] = fin
            subst.append((sv, inloop))
        rec = LoopRec(kind="for", dim=dim, var=v, carried=carried, post=post, node=st, where=self.where(), fn=self.curfn, final=final)
        self.loops.append(rec)

        def fix(val):
            for sv, inl in subst:
                val = self.libmod.replace_carry(self, val, sv, inl)
            return val
        for loc in mods:
            i, n = loc
            if n is None:
                c = s2[i]
                if not c or not isinstance(c[0], Hole) or any(isinstance(x, Hole) for x in c[1:]):
                    out[i] = list(s_before[i]) + [opaque(unknown_atom("loop-list"))]
                    self.note("list modified in a symbolic loop")
                    continue
                items = [fix(x) for x in c[1:]]
                out[i] = list(s_before[i]) + [Comp(v, items)]
                continue
            newv = s2[i][n]
            if loc in carried:
                if final[loc] is not None:
                    out[i][n] = fix(final[loc])
                    continue
                # general recurrence
                out[i][n] = self.opaque_loop(rec, loc, fix)
            else:
                # assigned in every iteration, not read before: value of the last one
                val = fix(newv)
                last = self.subst_value(val, {v.name: dim.size - 1})
                pre = s_before[i].get(n, UNDEF)
                out[i][n] = last
        self.store = out
        # the loop target
        return [Exit("next", ONE, None, self.store)]

    def opaque_loop(self, rec, loc, fix):
        pre, sv = rec.carried[loc]
        p = fix(rec.post[loc])
        nm = fn("loop", K(rec.dim.name), self.node(pre), self.loop_node(rec, p, sv))
        if isinstance(pre, Tensor) and pre.axes is not None and isinstance(p, Tensor) and p.axes is not None and p.rank == pre.rank:
            if pre.rank == 0:
                return scalar(nm)
            t = pre.opened()
            return Tensor(t.axes, fn("loop", K(rec.dim.name), self.node(pre), self.loop_node(rec, p, sv), *[x.as_poly() for ax in t.axes for x in ax]))
        return opaque(nm)

    def loop_node(self, rec, p, sv):
        n = self.node(p)
        # bind the loop variable and carried symbols canonically
        m = {}
        nd = SeqB(rec.var, [n])
        k = nd
        names = {}
        i = 0
        for loc, (pre, s) in rec.carried.items():
            for a in self.value_syms(s):
                names[a.name] = "%%%d" % i
            i += 1
        return RenamedKey(k, names)

    def value_syms(self, sv):
        if isinstance(sv, Tensor):
            return [a for a in sv.body.atoms() if a.kind == "sym"][:1]
        if isinstance(sv, Tup):
            return [a for x in sv.items for a in self.value_syms(x)]
        return []

    def sym_pairs(self, sv, val):
        """-> [(symbol atom schema, replacement poly)] (same axes variables)"""
        if isinstance(sv, Tensor) and isinstance(val, Tensor):
            a = sv.body.single_atom()
            if sv.axes and a is not None:
                return [(SymPattern(a, sv, val), None)]
            return [(a, val.body)]
        if isinstance(sv, Tup) and isinstance(val, Tup):
            return [q for x, y in zip(sv.items, val.items) for q in self.sym_pairs(x, y)]
        return []

    def symbolic_like(self, pre, name, v):
        if isinstance(pre, Tensor):
            props = "i" if pre.body.is_integer() else ("r" if pre.body.is_real() else "")
            if pre.axes is None:
                return opaque(sym("%" + name))
            if pre.rank == 0:
                return scalar(sym("%" + name, props=props))
            t = pre.opened()
            return Tensor(t.axes, sym("%" + name, [x.as_poly() for ax in t.axes for x in ax], props))
        if isinstance(pre, Tup):
            items = [self.symbolic_like(x, name + "_%d" % k, v) for k, x in enumerate(pre.items)]
            return Tup([i if i is not None else x for i, x in zip(items, pre.items)])
        return None

    def solve_rec(self, pre, sv, post, v, carried_atoms):
        """closed form of x_{k+1} = post(x_k) -> (value inside iteration v, final value) or None"""
        if self.same(sv, post):
            return pre, pre
        if not (isinstance(pre, Tensor) and isinstance(post, Tensor) and isinstance(sv, Tensor)):
            return None
        dep = {a.name for a in carried_atoms}
        if pre.axes is None or post.axes is None:
            if not any(a.kind == "sym" and a.name in dep for a in post.body.atoms()):
                return None
            d = post.body - sv.body
            if not any(a.kind == "sym" and a.name in dep for a in d.atoms()) and (post.axes is None and sv.axes is None):
                return self._prefix(pre, d, v)
            return None
        if pre.rank != post.rank:
            return None
        if pre.rank == 0:
            d = post.body - sv.body
            if not any(a.kind == "sym" and a.name in dep for a in d.atoms()):
                return self._prefix(pre, d, v)
            return None
        # array: post - sv
        try:
            axes, (pb, sb, prb) = broadcast([post, sv, pre])
        except ShapeError:
            return None
        d = pb - sb
        if not any(a.kind == "sym" and a.name in dep for a in d.atoms()):
            w = var(v.dim)
            inl = prb + sum_over(ind_lt0(w.as_poly() - v.as_poly()) * d.subst({v.name: w.as_poly()}), w)
            fin = prb + sum_over(d.subst({v.name: w.as_poly()}), w)
            return Tensor(axes, inl), Tensor(axes, fin)
        # scatter: post[j] = delta-like(j==v)*e(v) + (1-ind)*x[j]
        for k, ax in enumerate(axes):
            if len(ax) != 1:
                continue
            ind = ind_eq0(ax[0].as_poly() - v.as_poly())
            e = pb - (ONE - ind) * sb
            if not any(a.kind == "sym" and a.name in dep for a in e.atoms()) and equal(e * ind, e):
                val = e.subst({v.name: ax[0].as_poly()})
                if ax[0].dim.name == v.dim.name or equal(ax[0].dim.size, v.dim.size):
                    fin = val
                else:
                    inr = ind_lt0(ax[0].as_poly() - v.dim.size)
                    fin = ite(inr, val, prb)
                inl = ite(ind_lt0(ax[0].as_poly() - v.as_poly()), val, prb)
                return Tensor(axes, inl), Tensor(axes, fin)
        return None

    def _prefix(self, pre, d, v):
        w = var(v.dim)
        dw = d.subst({v.name: w.as_poly()})
        if v.name not in d.fv:
            inl = pre.body + d * v.as_poly()
            fin = pre.body + d * v.dim.size
        else:
            inl = pre.body + sum_over(ind_lt0(w.as_poly() - v.as_poly()) * dw, w)
            fin = pre.body + sum_over(dw, w)
        return Tensor(pre.axes, inl), Tensor(pre.axes, fin)

    def exec_while(self, st, env):
        """unrolled; a condition that stays open splits the paths, a few times"""
        s0, g0 = self.store, self.guard
        marks = len(self.events), len(self.notes), len(self.loops), len(self.raises)
        self.store = self.fork()
        cur, out, left, splits = ONE, [], [], 0
        for n in range(200):
            c = self.truth(self.eval(st.test, env))
            if c == ZERO:
                break
            if c != ONE:
                splits += 1
                if splits > 4:
                    break
                left.append(Exit("next", cur * (ONE - c), None, self.store))
                self.store = self.fork()
                cur = cur * c
                self.guard = self.guard * c
            nx = []
            for e in self.exec_block(st.body, env):
                if e.kind in ("next", "continue"):
                    nx.append(e)
                elif e.kind == "break":
                    left.append(Exit("next", cur * e.guard, None, e.store))
                else:
                    out.append(Exit(e.kind, cur * e.guard, e.value, e.store))
            if not nx:
                self.store = None
                break
            g, sx = nx[-1].guard, nx[-1].store
            for e in reversed(nx[:-1]):
                sx = self.merge_store(e.guard, e.store, sx)
                g = g + e.guard
            self.store = sx
            cur = cur * g
        else:
            splits = 99
        self.guard = g0
        if splits > 4:
            if len(self.events) > marks[0]:
                del self.events[marks[0]:]
            del self.notes[marks[1]:], self.loops[marks[2]:], self.raises[marks[3]:]
            self.store = s0
            return self.while_sym(st, env)
        allx = left
        if self.store is not None:
            if st.orelse:
                raise Unknown("else branch of a while loop")
            allx = left + [Exit("next", cur, None, self.store)]
        if allx:
            g, sx = allx[-1].guard, allx[-1].store
            for e in reversed(allx[:-1]):
                sx = self.merge_store(e.guard, e.store, sx)
                g = g + e.guard
            out.append(Exit("next", g, None, sx))
            self.store = sx
        return out

    def while_sym(self, st, env):
        s_before = self.store

        def run(store):
            self.store = {k: copy.copy(c) for k, c in store.items()}
            cond = self.truth(self.eval(st.test, env))
            g0 = self.guard
            exits = self.exec_block(st.body, env)
            self.guard = g0
            nx = [e for e in exits if e.kind in ("next", "continue")]
            bad = [e for e in exits if e.kind in ("break", "return")]
            if bad or not nx:
                raise Unknown("break/return in while loop")
            s = nx[-1].store
            for e in reversed(nx[:-1]):
                s = self.merge_store(e.guard, e.store, s)
            return cond, s
        nev, nn, nl = len(self.events), len(self.notes), len(self.loops)
        c1, s1 = run(s_before)
        mods = self.diff_store(s_before, s1)
        del self.events[nev:], self.notes[nn:], self.loops[nl:]
        for _ in range(4):
            start = {k: copy.copy(c) for k, c in s_before.items()}
            carried = {}
            for (i, n) in mods:
                if n is None:
                    raise Unknown("list modified in while loop")
                pre = s_before[i].get(n, UNDEF)
                if isinstance(pre, UndefT):
                    continue
                sv = self.symbolic_like(pre, "w%d" % fresh_id(), None)
                if sv is None:
                    raise Unknown("while-carried value %s" % n)
                carried[(i, n)] = (pre, sv)
                start[i][n] = sv
            ev0 = len(self.events)
            cond, s2 = run(start)
            more = [l for l in self.diff_store(start, s2) if l not in mods]
            if not more:
                break
            mods = mods + more
            del self.events[ev0:]
        for e in self.events[nev:]:
            e.setdefault("loopvars", []).append("while")
        post = {loc: s2[loc[0]][loc[1]] for loc in mods}
        rec = LoopRec(kind="while", cond=cond, carried=carried, post=post, mods=mods, node=st, where=self.where(), fn=self.curfn, exits={})
        out = {k: copy.copy(c) for k, c in s2.items() if k not in s_before}
        for k in s_before:
            out[k] = copy.copy(s_before[k])
        for loc in mods:
            i, n = loc
            # value after the loop: value computed by the last iteration
            ex = self.symbolic_like(post[loc], "x%d" % fresh_id(), None)
            if ex is None:
                ex = post[loc] if loc not in carried else opaque(sym("%%x%d" % fresh_id()))
            rec.exits[loc] = ex
            out[i][n] = ex
        self.loops.append(rec)
        self.store = out
        return [Exit("next", ONE, None, self.store)]

    # -- assignment ----------------------------------------------------------
    def assign_name(self, n, v, env):
        fn_env = env
        if n in env.globals:
            m = env.module.name
            if (m, n) not in self.rebound:          # names imported from the module keep the value they had at import
                self.rebound[m, n] = self.module_attr(m, n)
            self.store[self.module_store(m)][n] = v
            return
        if n in env.nonlocals:
            e = env.parent
            while e is not None:
                if e.frame is not None and n in self.store.get(e.frame, {}):
                    self.store[e.frame][n] = v
                    return
                e = e.parent
        self.store[env.frame][n] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                kind, *rest = self.iterate(v)
                if kind != "conc":
                    raise Unknown("starred unpack of symbolic")
                items = rest[0]
                k = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                after = len(t.elts) - k - 1
                for x, y in zip(t.elts[:k], items[:k]):
                    self.assign(x, y, env)
                self.assign(t.elts[k].value, self.list(items[k:len(items) - after]), env)
                for x, y in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(x, y, env)
                return
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            self.setitem(b, k, v, t, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unknown("assignment target")

    def unpack(self, v, n):
        if isinstance(v, Tup):
            if len(v.items) == n:
                return v.items
            raise Raised("cannot unpack %d values into %d" % (len(v.items), n))
        if isinstance(v, Choice):
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return [self.merge(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, Ref) and v.kind == "list" and not any(isinstance(x, (Comp, CondSeg)) for x in self.content(v)):
            c = self.content(v)
            if len(c) == n:
                return list(c)
        if isinstance(v, Tensor):
            if v.axes is not None and v.rank >= 1:
                return [v.index_axis(0, const(i)) for i in range(n)]
            return [opaque(fn("item", v.body, const(i))) for i in range(n)]
        if isinstance(v, StubObj):
            return [opaque(fn("item", self.node(v), const(i))) for i in range(n)]
        kind, *rest = self.iterate(v)
        if kind == "conc" and len(rest[0]) == n:
            return rest[0]
        raise Unknown("unpack of %r" % (v,))

    def setitem(self, b, k, v, t=None, env=None):
        if isinstance(b, Choice):
            s0 = self.store
            self.store = self.fork()
            self.setitem(b.a, k, v)
            sa = self.store
            self.store = s0
            self.setitem(b.b, k, v)
            self.store = self.merge_store(b.c, sa, self.store)
            return
        if isinstance(b, Ref) and b.kind == "dict":
            self.event("mutate", obj=b, how="setitem", key=k, value=v)
            self.content(b)[dict_key(self, k)] = v
            return
        if isinstance(b, Ref) and b.kind == "list":
            n = self.int_of(k)
            c = self.content(b)
            self.event("mutate", obj=b, how="setitem", key=k, value=v)
            if n is not None and not any(isinstance(x, (Comp, CondSeg, Hole)) for x in c):
                c[n] = v
                return
            self.store[b.id] = [opaque(unknown_atom("list-setitem"))]
            self.note("list element assignment with symbolic index")
            return
        if isinstance(b, StubObj) and "__setitem__" in b.attrs:
            self.call(b.attrs["__setitem__"], [k, v], {})
            return
        if isinstance(b, Tensor):
            # in-place numpy update: rebind every alias held in the store
            self.event("mutate", obj=b, how="setitem", key=k, value=v)
            new = self.libmod.at_update(self, b, k, v, "set")
            self.rebind(b, new)
            return
        self.event("mutate", obj=b, how="setitem", key=k, value=v)
        self.note("item assignment on %r" % (b,))

    def rebind(self, old, new):
        for i, c in self.store.items():
            if isinstance(c, dict):
                for n in list(c):
                    if c[n] is old:
                        c[n] = new
            elif isinstance(c, list):
                for n in range(len(c)):
                    if c[n] is old:
                        c[n] = new

    def rebind_value(self, old, new):
        for i, c in self.store.items():
            if isinstance(c, dict):
                for n in list(c):
                    if c[n] is old:
                        c[n] = new
            elif isinstance(c, list):
                for n in range(len(c)):
                    if c[n] is old:
                        c[n] = new

    def int_of(self, v):
        if isinstance(v, Tensor) and not v.axes:
            return v.body.int_value()
        if isinstance(v, Const) and isinstance(v.val, bool):
            return int(v.val)
        return None

    # -- expressions -----------------------------------------------------------
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unknown("expression %s" % type(e).__name__)
        saved = self.curnode
        if hasattr(e, "lineno"):
            self.curnode = e
        try:
            return m(e, env)
        finally:
            self.curnode = saved

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return Const(v)
        return num(v)

    def e_Name(self, e, env):
        n = e.id
        cur = env
        if n in env.globals:
            r = self.module_attr(env.module.name, n)
            return r if r is not None else UNDEF
        while cur is not None:
            if cur.frame is not None:
                fr = self.store.get(cur.frame)
                if fr is not None and n in fr:
                    v = fr[n]
                    if isinstance(v, Choice):
                        if isinstance(v.a, UndefT) or isinstance(v.b, UndefT):
                            self.event("maybe-undef", name=n, cond=v.c)
                            return v.b if isinstance(v.a, UndefT) else v.a
                    if isinstance(v, UndefT):
                        self.event("undef", name=n)
                        raise Raised("name %r is not defined" % n)
                    return v
                # local of an enclosing function that is assigned later / only conditionally
                if cur.info is not None and cur.info.node is not None and not isinstance(cur.info.node, ast.Lambda):
                    if n in local_names(cur.info.node) and n not in cur.globals:
                        self.event("undef", name=n)
                        raise Raised("local name %r referenced before assignment" % n)
            cur = cur.parent
        r = self.module_attr(env.module.name, n)
        if r is not None:
            return r
        if n in BUILTINS:
            return Lib(n)
        self.event("undef", name=n)
        raise Raised("name %r is not defined" % n)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return Tup(self.eval_items(e.elts, env))

    def e_List(self, e, env):
        return self.list(self.eval_items(e.elts, env))

    def e_Set(self, e, env):
        return self.new("set", self.eval_items(e.elts, env))

    def eval_items(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                out += self.splat(v)
            else:
                out.append(self.eval(x, env))
        return out

    def splat(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref) and v.kind == "list":
            return list(self.content(v))
        if isinstance(v, Choice):
            a, b = self.splat(v.a), self.splat(v.b)
            if len(a) == len(b):
                return [self.merge(v.c, x, y) for x, y in zip(a, b)]
            raise Unknown("splat of conditional tuple")
        kind, *rest = self.iterate(v)
        if kind == "conc":
            return rest[0]
        w = var(rest[0])
        return [Comp(w, [rest[1](w)])]

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, env)
                if isinstance(m, Ref) and m.kind == "dict":
                    d.update(self.content(m))
                else:
                    d[("opaque", self.node(m).key)] = m
            else:
                d[dict_key(self, self.eval(k, env))] = self.eval(v, env)
        return self.dict(d)

    def e_Subscript(self, e, env):
        b = self.eval(e.value, env)
        k = self.eval(e.slice, env)
        return self.getitem(b, k)

    def getitem(self, b, k):
        return self.libmod.getitem(self, b, k)

    def e_Slice(self, e, env):
        f = lambda x: self.eval(x, env) if x is not None else NONE
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Lambda(self, e, env):
        return self.make_fn(FuncInfo(env.module, e, None, env), env)

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if c == ONE:
            return self.eval(e.body, env)
        if c == ZERO:
            return self.eval(e.orelse, env)
        s0, g0 = self.store, self.guard
        self.store = self.fork()
        self.guard = g0 * c
        a = self.eval(e.body, env)
        sa = self.store
        self.store = s0
        self.guard = g0 * (ONE - c)
        b = self.eval(e.orelse, env)
        self.guard = g0
        self.store = self.merge_store(c, sa, self.store)
        return self.merge(c, a, b)

    def e_BoolOp(self, e, env):
        vals = None
        isand = isinstance(e.op, ast.And)
        acc = self.eval(e.values[0], env)
        for x in e.values[1:]:
            c = self.truth(acc)
            if isand and c == ZERO or (not isand and c == ONE):
                return acc
            if isand and c == ONE or (not isand and c == ZERO):
                acc = self.eval(x, env)
                continue
            g0, s0 = self.guard, self.store
            self.guard = g0 * (c if isand else ONE - c)
            v = self.eval(x, env)
            self.guard = g0
            t = self.truth(v)
            if self.is_boolish(acc) and self.is_boolish(v):
                acc = scalar(c * t if isand else c + t - c * t)
            else:
                acc = self.merge(c, v, acc) if isand else self.merge(c, acc, v)
        return acc

    def is_boolish(self, v):
        if isinstance(v, Const):
            return isinstance(v.val, bool)
        if isinstance(v, Tensor) and (v.axes is None or v.rank == 0):
            if nf._is_boolean(v.body):
                return True
            a = v.body.single_atom()
            return a is not None and "b" in a.props
        return False

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            c = t.const_value()
            if c is not None:
                return Const(not c)
            return scalar(ONE - t)
        if isinstance(v, Ref) and v.kind == "obj":
            return self.unknown("unary operator on object", v)
        t = self.num_of(v)
        if isinstance(e.op, ast.USub):
            return elementwise(lambda x: -x, t)
        if isinstance(e.op, ast.UAdd):
            return t
        if isinstance(e.op, ast.Invert):
            if nf._is_boolean(t.body):
                return elementwise(lambda x: ONE - x, t)
            return elementwise(lambda x: -x - 1, t)
        raise Unknown("unary op")

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.libmod.binop(self, op, a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.libmod.compare(self, op, left, right)
            acc = c if acc is None else scalar(self.truth(acc) * self.truth(c))
            left = right
        return acc

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            slf, cls = None, None
            cur = env
            while cur is not None and cur.info is not None and cur.info.cls is None:
                cur = cur.parent
            info = cur.info if cur is not None else env.info
            if e.args:
                slf = self.eval(e.args[1], env)
                c = self.eval(e.args[0], env)
                return Super(c.info, slf) if isinstance(slf, Ref) else SuperTuple(c, slf)
            first = info.node.args.args[0].arg
            slf = self.store[cur.frame][first]
            return Super(info.cls, slf) if isinstance(slf, Ref) else SuperTuple(info.cls, slf)
        f = self.eval(e.func, env)
        args = self.eval_items(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.eval(k.value, env)
                if isinstance(m, Ref) and m.kind == "dict":
                    for kk, vv in self.content(m).items():
                        if isinstance(kk, tuple) and kk[0] == "s":
                            kw[kk[1]] = vv
                        else:
                            raise Unknown("**kwargs with computed names")
                elif isinstance(m, Choice):
                    raise Unknown("conditional **kwargs")
                else:
                    kw["**"] = m
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.curnode = e
        self.event("call", f=f, args=args, kw=kw, node=e) if self.want_calls else None
        return self.call(f, args, kw, e)

    want_calls = False

    def e_ListComp(self, e, env):
        return self.list(self.comp_items(e.elt, e.generators, env))

    def e_GeneratorExp(self, e, env):
        return self.list(self.comp_items(e.elt, e.generators, env))

    def e_SetComp(self, e, env):
        return self.new("set", self.comp_items(e.elt, e.generators, env))

    def e_DictComp(self, e, env):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        ast.copy_location(pair, e)
        items = self.comp_items(pair, e.generators, env)
        d = {}
        for it in items:
            if isinstance(it, Comp):
                d.setdefault("#comp", []).append(it)
            else:
                d[dict_key(self, it.items[0])] = it.items[1]
        return self.dict(d)

    def comp_items(self, elt, gens, env):
        fr = self.new("frame", {})
        cenv = Env(fr.id, env, env.module)
        return self._comp(elt, gens, cenv)

    def _comp(self, elt, gens, env):
        if not gens:
            return [self.eval(elt, env)]
        g = gens[0]
        kind, *rest = self.iterate(self.eval(g.iter, env))
        out = []
        if kind == "conc":
            for x in rest[0]:
                self.assign(g.target, x, env)
                c = ONE
                for i in g.ifs:
                    c = c * self.truth(self.eval(i, env))
                if c == ZERO:
                    continue
                items = self._comp(elt, gens[1:], env)
                if c == ONE:
                    out += items
                else:
                    out.append(CondSeg(c, items, []))
            return out
        w = var(rest[0])
        self.assign(g.target, rest[1](w), env)
        c = ONE
        for i in g.ifs:
            c = c * self.truth(self.eval(i, env))
        items = self._comp(elt, gens[1:], env)
        if c == ZERO:
            return []
        if c != ONE:
            items = [CondSeg(c, items, [])]
        return [Comp(w, items)]

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.eval(v.value, env)
                spec = self.eval(v.format_spec, env) if v.format_spec is not None else None
                n = x.val if isinstance(x, Const) else self.int_of(x) if isinstance(x, Tensor) else None
                if (isinstance(x, Const) or n is not None) and (spec is None or isinstance(spec, Const)) and v.conversion in (-1, 115):
                    try:
                        parts.append(K(format(n, spec.val if spec is not None else "")))
                        continue
                    except (ValueError, TypeError):
                        pass
                parts.append(self.node(x))
                if spec is not None or v.conversion not in (-1, 115):
                    parts[-1] = K(("format", str(v.conversion), repr(self.node(spec)) if spec is not None else ""))
                    parts.append(self.node(x))
        if all(isinstance(p, K) for p in parts):
            return Const("".join(str(p.val) for p in parts))
        return opaque(fn("str+", *merge_str(parts)))

    def e_Starred(self, e, env):
        return self.eval(e.value, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v


def merge_str(parts):
    out = []
    for p in parts:
        if isinstance(p, K) and out and isinstance(out[-1], K):
            out[-1] = K(str(out[-1].val) + str(p.val))
        elif isinstance(p, K) and p.val == "":
            continue
        else:
            out.append(p)
    return out


class SuperTuple(V):
    def __init__(self, cls, slf):
        self.cls, self.slf = cls, slf


class CondSeg(V):
    """conditionally present list items"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, list(a), list(b)

    def __repr__(self):
        return "CondSeg(%s ? %r : %r)" % (pretty(self.c, 80), self.a, self.b)


class RangeV(V):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def length(self):
        if self.c == ONE:
            return self.b - self.a
        if self.c == const(-1):
            return self.a - self.b
        return nf.floordiv(self.b - self.a + self.c - 1, self.c)


class ZipV(V):
    def __init__(self, items):
        self.items = items


class EnumV(V):
    def __init__(self, item, start=ZERO):
        self.item, self.start = item, start


class ItemsV(V):
    def __init__(self, d, what):
        self.d, self.what = d, what


class SymSeq(V):
    """opaque sequence with symbolic length"""

    def __init__(self, dim, elem):
        self.dim, self.elem = dim, elem


class SeqB(Node):
    """node with one bound index variable"""
    __slots__ = ("v", "items", "key", "fv", "unk", "level")

    def __init__(self, v, items):
        self.v, self.items = v, tuple(items)
        lvl = max([i.level for i in items], default=0) + 1
        ren = {v.name: Atom("var", (lvl, 0), dim=v.dim).as_poly()}
        its = [i.subst(ren) for i in items]
        self.key = "for %s:<%s>" % (v.dim.name, ",".join(i.key for i in its))
        self.fv = frozenset().union(*[i.fv for i in items]) - {v.name} if items else frozenset()
        self.unk = any(i.unk for i in items)
        self.level = lvl

    def subst(self, m):
        if not (self.fv & m.keys()):
            return self
        w = var(self.v.dim)
        its = [i.subst({self.v.name: w.as_poly()}) for i in self.items]
        return SeqB(w, [i.subst(m) for i in its])

    def map_polys(self, f):
        w = var(self.v.dim)
        its = [i.subst({self.v.name: w.as_poly()}) for i in self.items]
        return SeqB(w, [f(i) if isinstance(i, Poly) else (i.map_polys(f) if hasattr(i, "map_polys") else i) for i in its])

    def atoms(self):
        for i in self.items:
            yield from i.atoms()


class RenamedKey(Node):
    __slots__ = ("n", "names", "key", "fv", "unk", "level")

    def __init__(self, n, names):
        self.n, self.names = n, names
        k = n.key
        for a, b in names.items():
            k = k.replace(a, b)
        self.key = k
        self.fv, self.unk, self.level = n.fv, n.unk, n.level

    def subst(self, m):
        if not (self.fv & m.keys()):
            return self
        return RenamedKey(self.n.subst(m), self.names)

    def atoms(self):
        return self.n.atoms()

    def map_polys(self, f):
        return RenamedKey(self.n.map_polys(f), self.names)


class SymPattern:
    """replacement of an indexed loop-carried array symbol"""

    def __init__(self, atom, sv, val):
        self.atom, self.sv, self.val = atom, sv, val
        self.kind, self.key = "sym", atom.key


class Env:
    __slots__ = ("frame", "parent", "module", "info", "globals", "nonlocals")

    def __init__(self, frame, parent, module, info=None):
        self.frame, self.parent, self.module, self.info = frame, parent, module, info
        self.globals, self.nonlocals = (), ()


_scope_cache = {}


def scope_decls(node):
    if node not in _scope_cache:
        g, n = set(), set()
        for s in walk_scope(node):
            if isinstance(s, ast.Global):
                g |= set(s.names)
            elif isinstance(s, ast.Nonlocal):
                n |= set(s.names)
        _scope_cache[node] = (g, n)
    return _scope_cache[node]


_local_cache = {}


def local_names(node):
    if node not in _local_cache:
        out = set()
        for s in walk_scope(node):
            if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
                out.add(s.id)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s is not node:
                out.add(s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    out.add(a.asname or a.name.split(".")[0])
            elif isinstance(s, ast.ExceptHandler) and s.name:
                out.add(s.name)
        _local_cache[node] = out
    return _local_cache[node]


def walk_scope(node):
    """nodes of a function body without nested function/lambda/comprehension scopes"""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        s = todo.pop()
        yield s
        if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(s, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(s))


def _load(t):
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def dict_key(I, k):
    if isinstance(k, Const):
        return ("s", k.val) if isinstance(k.val, str) else ("c", k.val)
    n = I.int_of(k)
    if n is not None:
        return ("n", n)
    return ("x", I.node(k).key, k)


def undict_key(k):
    if k[0] in ("s", "c"):
        return Const(k[1])
    if k[0] == "n":
        return num(k[1])
    return k[2] if len(k) > 2 else opaque(sym(str(k)))


def canon_lib(d):
    if d.startswith("builtins."):
        return d[9:]
    for a, b in (("jax.numpy", "np"), ("numpy", "np"), ("jax.scipy", "sp"), ("scipy", "sp")):
        if d == a or d.startswith(a + "."):
            return b + d[len(a):]
    if d.startswith("jax.tree_util.") or d.startswith("jax.tree."):
        return "tree." + d.split(".")[-1].replace("tree_", "")
    if d in ("jax.tree_map",):
        return "tree.map"
    return d


BUILTINS = {"len", "range", "enumerate", "zip", "max", "min", "sum", "abs", "int", "float", "str", "tuple", "list", "dict",
            "set", "any", "all", "map", "reversed", "sorted", "print", "dir", "getattr", "hasattr", "setattr", "isinstance",
            "type", "callable", "bool", "complex", "slice", "super", "id", "round", "divmod", "filter", "repr", "frozenset",
            "Exception", "ValueError", "RuntimeError", "TypeError", "KeyError", "IndexError", "NotImplementedError", "Ellipsis",
            "issubclass", "pow", "iter", "next", "object", "AttributeError", "RuntimeWarning", "ZeroDivisionError", "hash",
            "UserWarning", "AssertionError", "StopIteration", "ImportError", "OSError", "vars", "locals", "open", "NotImplemented"}
